from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='all ordered pairs of built-in gates on 1-3 qubits, all parameter values (angles in [-40,40], times in '
                    '[-4,4], coefficients in [-3,3])', thorough='same')
OUTSIDE = 'uniformly controlled rotations with different numbers of controls (cannot act on the same qubits)'
GATES = gate_makers()


def merge(h, first, second):
    nq, mk = GATES[first]
    second = h.choice('second', second)
    a = mk(h, 'a')
    b = GATES[second][1](h, 'b')
    if type(a).__name__ == 'TimeEvolution' and type(b).__name__ == 'TimeEvolution':
        for g in (a, b):
            for c in g.hamiltonian.terms.values():
                h.assume(abs(c) > 0.01)
    try:
        m = a.get_merged(b)
    except ops.NotMergeable:
        return
    h.zero('merged', diff(spec(m, nq), mm(spec(b, nq), spec(a, nq))))


def proportional(h, terms):
    """time evolutions with proportional Hamiltonians must merge exactly"""
    t1, t2 = h.real('t1', -4, 4), h.real('t2', -4, 4)
    cs = [h.real('c%d' % i, -3, 3) for i in range(len(terms))]
    k = h.real('k', -3, 3)
    for c in cs + [k]:
        h.assume(abs(c) > 0.01)
    def ham(f):
        o = ops.QubitOperator()
        for t, c in zip(terms, cs):
            o += ops.QubitOperator(t, c * f)
        return o
    a = ops.TimeEvolution(t1, ham(1.0))
    b = ops.TimeEvolution(t2, ham(k))
    m = a.get_merged(b)
    h.zero('merged', diff(spec(m, 2), mm(spec(b, 2), spec(a, 2))))


def refuse(h):
    """different Hamiltonian terms never merge"""
    a = ops.TimeEvolution(h.real('t1', -4, 4), hamiltonian(h, ['X0 Z1'], 'a'))
    b = ops.TimeEvolution(h.real('t2', -4, 4), hamiltonian(h, ['X0 Z1', 'Z0 X1'], 'b'))
    h.raises('terms differ', ops.NotMergeable, lambda: a.get_merged(b))
    h.raises('terms differ', ops.NotMergeable, lambda: b.get_merged(a))
    q = ops.QubitOperator('X0') + ops.QubitOperator('Y0')
    h.raises('sum of operators', ops.NotMergeable, lambda: q.get_merged(ops.QubitOperator('X0')))
    h.raises('sum of operators', ops.NotMergeable, lambda: ops.QubitOperator('X0').get_merged(q))


def cases(tier):
    for n, (nq, _) in GATES.items():
        same = [m for m, (k, _) in GATES.items() if k == nq]
        yield Case('merge/' + n, merge, dict(first=n, second=same), thin_wrap=0, thin_eq=3, max_paths=3000, budget=100, full_ms=10000 if '+' not in n and 'XX' not in n else 700)
    for t in (['X0 Z1'], ['X0 X1', 'Z0 Z1'], ['X0 Z1', '']):
        yield Case('proportional/' + '+'.join(t), proportional, dict(terms=t))
    yield Case('refuse', refuse)
