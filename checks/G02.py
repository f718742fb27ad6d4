from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='every built-in gate, every angle in [-40,40], registers of 1-3 qubits', thorough='same')
OUTSIDE = 'angles beyond the interval; wider registers'


def inverse(h, name):
    nq, mk = gate_makers()[name]
    g = mk(h, '')
    before = spec(g, nq)
    gi = ops.get_inverse(g)
    U = spec(g, nq)
    h.zero('operand unchanged', diff(before, U))
    V = spec(gi, nq)
    h.zero('inverse', diff(mm(V, U), eye(nq)))
    h.zero('inverse (other side)', diff(mm(U, V), eye(nq)))
    gg = ops.get_inverse(gi)
    h.zero('double inverse', diff(spec(gg, nq), U))
    if not isinstance(g, (ops.TimeEvolution, ops.QubitOperator, ops.MatrixGate)) and name not in ROT1 + ROT2 and 'Uniformly' not in name:
        h.true('double inverse equal', gg == g)
    if isinstance(gi, ops.DaggeredGate) and hasattr(g, 'matrix'):
        h.zero('dagger matrix', diff(gi.matrix, Q.dagger(U)))


def controlled(h, name, n):
    nq, mk = gate_makers()[name]
    g = mk(h, '')
    cg = ops.C(g, n)
    ci = ops.get_inverse(cg)
    h.true('controls kept', ci._n == n)
    h.zero('inverse', diff(mm(spec(ci._gate, nq), spec(cg._gate, nq)), eye(nq)))
    t = ops.Tensor(g)
    h.zero('tensor inverse', diff(mm(spec(ops.get_inverse(t)._gate, nq), spec(g, nq)), eye(nq)))


def matrix2(h):
    """4x4 matrix gate from two one-qubit unitaries and a swap"""
    from vf.quantum import kron
    a, b = h.angle('a', -7, 7), h.angle('b', -7, 7)
    m = mm(Q.from_any(Q.rot(np.kron(Q.X2, Q.Z2), a)), mm(Q.SWAP, Q.from_any(Q.rot(np.kron(Q.Y2, Q.I2), b))))
    g = ops.MatrixGate(m)
    h.zero('inverse', diff(mm(ops.get_inverse(g).matrix, m), eye(2)))


def irreversible(h, gate):
    g = getattr(ops, gate)
    g = g() if isinstance(g, type) else g
    h.raises('no inverse', ops.NotInvertible, g.get_inverse)


def alloc_pairs(h):
    g = h.choice('g', ['Allocate', 'Deallocate', 'AllocateDirty'])
    inv = ops.get_inverse(getattr(ops, g))
    h.true('allocation inverts to release', inv == getattr(ops, {'Allocate': 'Deallocate', 'Deallocate': 'Allocate', 'AllocateDirty': 'Deallocate'}[g]))


def math_inverse(h, what, lo, hi):
    """parameters of inverse arithmetic gates (semantics of the functions: A03)"""
    from projectq.libs.math import AddConstant, AddConstantModN, MultiplyByConstantModN
    a = h.int('a', lo, hi)
    if what == 'AddConstant':
        g = AddConstant(a)
        gi = ops.get_inverse(g)
        h.true('sum of constants is 0', (g.a + gi.a) == 0)
    elif what == 'AddConstantModN':
        N = h.choice('N', range(2, 9))
        h.assume(a < N)
        h.assume(a >= 0)
        g = AddConstantModN(a, N)
        gi = ops.get_inverse(g)
        h.true('sum of constants is 0 mod N', (g.a + gi.a) % N == 0)
        h.true('constant in range', gi.a >= 0)
        h.true('constant in range', gi.a < N)
        h.true('modulus', gi.N == N)


def cases(tier):
    for n in gate_makers():
        yield Case('inverse/' + n, inverse, dict(name=n), thin_wrap=1, max_paths=400)
    for n in ('X', 'Rz', 'Ph', 'S', 'SqrtX', 'Rxx', 'MatrixPhase'):
        yield Case('controlled/' + n, controlled, dict(name=n, n=2))
    yield Case('matrix2', matrix2)
    for g in ('Measure', 'FlushGate', 'FastForwardingGate', 'ClassicalInstructionGate'):
        yield Case('irreversible/' + g, irreversible, dict(gate=g))
    yield Case('allocation', alloc_pairs)
    for w in ('AddConstant', 'AddConstantModN'):
        yield Case('math/' + w, math_inverse, dict(what=w, lo=-6, hi=9))
