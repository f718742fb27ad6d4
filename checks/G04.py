from copy import deepcopy

from vf import sym as S
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='all ordered pairs of built-in gates on 1-3 qubits, all parameter values (angles in [-40,40]); pairs of rotations whose angles differ by less than 1e-8', thorough='same')
OUTSIDE = 'equality of time evolutions (documented as not comparable); hashes are compared for printed values that differ by more than 1e-11'
GATES = {k: v for k, v in gate_makers().items() if not k.startswith('TimeEvolution')}
GATES['MatrixPhase'] = (1, lambda h, s: ops.MatrixGate(Q.mat([[h.cplx('m%s%d%d' % (s, i, j), 1.5) for j in (0, 1)] for i in (0, 1)])))
CLASSICAL = ['Measure', 'Allocate', 'Deallocate', 'AllocateDirty', 'Barrier', 'FlushGate', 'X', 'Swap']


class Tokens(list):
    """printed values: the same text exactly for equal values (numbers closer than 1e-11 count as equal: they are printed
    with all their digits, and gates round their angles)"""

    def token(self, x):
        for i, t in enumerate(self):
            d = x - t
            if bool(d.imag == 0) and not bool(d.real > 1e-11) and not bool(d.real < -1e-11):
                return 'SYM%d' % i
        self.append(x)
        return 'SYM%d' % (len(self) - 1)


def equality(h, first, second):
    nq, mk = GATES[first]
    second = h.choice('second', second)
    a = mk(h, 'a')
    b = GATES[second][1](h, 'b')
    eq = a == b
    ne = a != b
    h.true('equality and inequality are opposite', bool(eq) != bool(ne))
    if eq:
        h.zero('equal gates act equally', diff(spec(a, nq), spec(b, nq)), tol=1e-5)
        if not isinstance(a, ops.MatrixGate) and not isinstance(b, ops.MatrixGate):
            S.TOKENS = Tokens() if h.symbolic else None
            try:
                h.true('equal gates have equal hashes', hash(a) == hash(b))
            finally:
                S.TOKENS = None


def near(h, name):
    """angles that differ by very little: either the gates are different or their hashes agree"""
    x, d = h.angle('a', 0.5, 1.5), h.real('d', -1e-8, 1e-8)
    if name.startswith('Uniformly'):
        y, z = h.angle('b', 0.5, 1.5), h.choice('which', [0, 1])
        a, b = getattr(ops, name)([x, y]), getattr(ops, name)([x + d, y] if z else [x, y + d])
    else:
        a, b = getattr(ops, name)(x), getattr(ops, name)(x + d)
    if a == b:
        S.TOKENS = Tokens() if h.symbolic else None
        try:
            h.true('equal gates have equal hashes', hash(a) == hash(b))
        finally:
            S.TOKENS = None
    else:
        h.true('equal angles are equal', bool(d != 0))


def reflexive(h, name):
    nq, mk = GATES[name]
    a = mk(h, '')
    b = deepcopy(a)
    h.true('copy equals original', a == b)
    h.true('copy equals original', b == a)
    h.zero('copy acts equally', diff(spec(a, nq), spec(b, nq)))
    h.true('hash of copy', hash(a) == hash(b))
    ca, cb = ops.C(a, 2), ops.C(b, 2)
    h.true('controlled copies are equal', ca == cb)
    h.true('numbers of controls matter', not (ops.C(a, 2) == ops.C(b, 1)))
    h.true('tensor', ops.Tensor(a) == ops.Tensor(b))
    h.true('dagger', ops.DaggeredGate(a) == ops.DaggeredGate(b))


def identity(h, name):
    nq, mk = GATES[name]
    a = mk(h, '')
    if a.is_identity():
        h.zero('identity', diff(spec(a, nq), eye(nq)), tol=1e-5)


def identity_math(h, nq):
    """identity claims of arithmetic gates with symbolic constants"""
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN
    kind = h.choice('kind', ['AddConstant', 'AddConstantModN', 'MultiplyByConstantModN'])
    a = h.int('a', -5, 9)
    N = h.choice('N', range(2, 9))
    if kind == 'AddConstant':
        g, g2 = AddConstant(a), AddConstant(a + 1)
    elif kind == 'AddConstantModN':
        g, g2 = AddConstantModN(a, N), AddConstantModN(a + 1, N)
        h.true('modulus matters', not (g == AddConstantModN(a, N + 1)))
    else:
        g, g2 = MultiplyByConstantModN(a, N), MultiplyByConstantModN(a + 1, N)
        h.true('modulus matters', not (g == MultiplyByConstantModN(a, N + 1)))
    h.true('different constants differ', not (g == g2))
    h.true('same constants equal', g == type(g)(a, N) if kind != 'AddConstant' else g == AddConstant(a))
    if g.is_identity():
        f = g.get_math_function(([0] * nq,))
        for x in range(1 << nq):
            h.true('identity', f([x]) == [x])


def classical(h):
    i, j = h.choice('i', CLASSICAL), h.choice('j', CLASSICAL)
    def g(n):
        x = getattr(ops, n)
        return x() if isinstance(x, type) else x
    h.true('instructions equal only themselves', (g(i) == g(j)) == (i == j))
    h.true('not identity', not g(i).is_identity())


def stateprep(h):
    a, b = [h.real('a%d' % i) for i in range(2)], [h.real('b%d' % i) for i in range(2)]
    g, k = ops.StatePreparation(a), ops.StatePreparation(b)
    if g == k:
        h.zero('equal', [x - y for x, y in zip(a, b)])
    h.true('copy', deepcopy(g) == g)


def _u1(q):
    ops.X | q


def _u2(q):
    ops.Z | q


def algorithmic(h):
    """amplitude amplification / phase estimation operators with different ingredients are different"""
    h.true('QPE of different unitaries differ', not (ops.QPE(_u1) == ops.QPE(_u2)))
    h.true('QPE', ops.QPE(_u1) == ops.QPE(_u1))
    h.true('QPE gates', not (ops.QPE(ops.Rz(h.angle('a', 0.1, 3))) == ops.QPE(ops.Rz(4.0))))
    h.true('QAA of different algorithms differ', not (ops.QAA(_u1, _u1) == ops.QAA(_u2, _u1)))
    h.true('QAA of different oracles differ', not (ops.QAA(_u1, _u1) == ops.QAA(_u1, _u2)))
    h.true('QAA', ops.QAA(_u1, _u2) == ops.QAA(_u1, _u2))


def cases(tier):
    for n, (nq, _) in GATES.items():
        same = [m for m, (k, _) in GATES.items() if k == nq]
        yield Case('equal/' + n, equality, dict(first=n, second=same), thin_eq=4, max_paths=3000, budget=100)
        yield Case('copy/' + n, reflexive, dict(name=n))
        yield Case('identity/' + n, identity, dict(name=n), thin_wrap=1)
    for n in ROT1 + ROT2 + ['UniformlyControlledRy', 'UniformlyControlledRz']:
        yield Case('near/' + n, near, dict(name=n), thin_eq=4, near=1e-12)
    yield Case('identity/math', identity_math, dict(nq=3))
    yield Case('classical', classical)
    yield Case('stateprep', stateprep)
    yield Case('algorithmic', algorithmic)
