from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='every built-in gate with a matrix; every angle in [-40, 40] (rotations: about +-3 windings of 4 pi)',
              thorough='as quick with angles in [-400, 400]')
OUTSIDE = 'angles beyond the interval; gates without a matrix'
MAT = FIXED1 + ROT1 + FIXED2 + ROT2
LIM = {'quick': 40.0, 'thorough': 400.0}


def matrix(h, name, lim):
    if name in ROT1 + ROT2:
        a = h.angle('a', -lim, lim)
        g = getattr(ops, name)(a)
        P = {'Rx': Q.X2, 'Ry': Q.Y2, 'Rz': Q.Z2, 'Rxx': np.kron(Q.X2, Q.X2), 'Ryy': np.kron(Q.Y2, Q.Y2),
             'Rzz': np.kron(Q.Z2, Q.Z2)}
        if name == 'Ph':
            ref = Q.mat([[Q.cexp(a), 0], [0, Q.cexp(a)]])
        elif name == 'R':
            ref = Q.mat([[1, 0], [0, Q.cexp(a)]])
        else:
            ref = Q.rot(P[name], a)
        per = 2 * np.pi if name in ('Ph', 'R') else 4 * np.pi
        h.true('angle normalised', g.angle >= 0)
        h.true('angle normalised', g.angle < per)
        # periodicity: shifting by the period gives the same gate
        k = h.int('k', -2, 2)
        g2 = getattr(ops, name)(a + k * per)
        h.zero('periodic', diff(g2.matrix, ref))
        half = getattr(ops, name)(a + per / 2)
        if name not in ('R',):
            h.zero('half period is -1', diff(half.matrix, -1 * np.asarray(ref, dtype=object)))
    else:
        g = getattr(ops, name)
        nq = 2 if name in FIXED2 else 1
        refs = dict(Sdag=Q.dagger(Q.spec_matrix(ops.S)), Tdag=Q.dagger(Q.spec_matrix(ops.T)))
        ref = refs.get(name)
        if ref is None:
            ref = {'X': Q.X2, 'Y': Q.Y2, 'Z': Q.Z2, 'H': Q.H2, 'S': np.diag([1, 1j]), 'T': np.diag([1, np.exp(.25j * np.pi)]),
                   'SqrtX': .5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]), 'Swap': Q.SWAP, 'SqrtSwap': Q.SQSWAP}[name]
    m = g.matrix
    h.true('matrix type', isinstance(m, np.matrix))
    h.zero('matrix', diff(m, ref))
    h.zero('unitary', diff(mm(m, Q.dagger(Q.from_any(m))), np.eye(m.shape[0])))


def matrixgate(h):
    u = unitary_u2(h, '')
    g = ops.MatrixGate(u)
    h.zero('matrix', diff(g.matrix, u))
    g2 = ops.MatrixGate()
    g2.matrix = u
    h.zero('matrix setter', diff(g2.matrix, u))


def dagger_matrix(h, name):
    nq, mk = gate_makers()[name]
    g = ops.DaggeredGate(mk(h, ''))
    h.zero('dagger matrix', diff(g.matrix, Q.dagger(spec(g._gate, nq))))


def aliases(h):
    a = h.angle('a')
    pairs = [('NOT', 'X'), ('CX', 'CNOT')]
    h.true('NOT is X', ops.NOT == ops.X)
    h.zero('CRz', diff(ops.CRz(a)._gate.matrix, Q.rot(Q.Z2, a)))
    h.true('CRz control', ops.CRz(a)._n == 1)
    for n, base, k in (('CNOT', ops.X, 1), ('CX', ops.X, 1), ('CZ', ops.Z, 1), ('Toffoli', ops.X, 2)):
        g = getattr(ops, n)
        h.true(n, g._gate == base and g._n == k)


def cases(tier):
    for n in MAT:
        yield Case('matrix/' + n, matrix, dict(name=n, lim=LIM[tier]), thin_wrap=2)
    yield Case('matrixgate', matrixgate)
    yield Case('aliases', aliases)
    for n in ('S', 'T', 'SqrtX', 'SqrtSwap', 'MatrixPhase', 'Rx', 'R', 'Rxx'):
        yield Case('dagger/' + n, dagger_matrix, dict(name=n))
