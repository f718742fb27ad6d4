"""Shared harness pieces: gate factories, program generators."""
import math

import numpy as np

from projectq import ops

from vf import quantum as Q

FIXED1 = ['X', 'Y', 'Z', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX']
ROT1 = ['Rx', 'Ry', 'Rz', 'Ph', 'R']
ROT2 = ['Rxx', 'Ryy', 'Rzz']
FIXED2 = ['Swap', 'SqrtSwap']


def gate_makers():
    """name -> (number of qubits, maker(h, suffix))"""
    d = {}
    for n in FIXED1:
        d[n] = (1, lambda h, s, n=n: getattr(ops, n))
    for n in ROT1:
        d[n] = (1, lambda h, s, n=n: getattr(ops, n)(h.angle('a' + s)))
    for n in FIXED2:
        d[n] = (2, lambda h, s, n=n: getattr(ops, n))
    for n in ROT2:
        d[n] = (2, lambda h, s, n=n: getattr(ops, n)(h.angle('a' + s)))
    for k in (2, 3):
        d['Entangle%d' % k] = (k, lambda h, s: ops.Entangle)
        d['QFT%d' % k] = (k, lambda h, s: ops.QFT)
        d['FlipBits%d' % k] = (k, lambda h, s, k=k: ops.FlipBits(h.choice('flip' + s, range(1 << k))))
    d['Barrier2'] = (2, lambda h, s: ops.Barrier)
    for k in (1, 2):
        for n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
            d['%s%d' % (n, k)] = (k + 1, lambda h, s, n=n, k=k: getattr(ops, n)(
                [h.angle('a%s_%d' % (s, i)) for i in range(1 << k)]))
    d['MatrixPhase'] = (1, lambda h, s: ops.MatrixGate(unitary_u2(h, s)))
    for t in ('X0 Y1', 'Z0 Z1', 'Y0 X1', 'X0 X1', 'Z0 Y1'):
        d['QubitOperator(%s)' % t] = (2, lambda h, s, t=t: ops.QubitOperator(t, cphase(h, 'phi' + s)))
    for name, terms in HAMS.items():
        d['TimeEvolution(%s)' % name] = (2, lambda h, s, terms=terms: ops.TimeEvolution(
            h.real('t' + s, -4, 4), hamiltonian(h, terms, s)))
    d['Dag(Entangle2)'] = (2, lambda h, s: ops.DaggeredGate(ops.Entangle))
    d['Dag(S)'] = (1, lambda h, s: ops.DaggeredGate(ops.S))
    d['Dag(SqrtSwap)'] = (2, lambda h, s: ops.DaggeredGate(ops.SqrtSwap))
    return d


HAMS = {'X0Z1': ['X0 Z1'], 'X0Z1+I': ['X0 Z1', ''], 'XX+ZZ': ['X0 X1', 'Z0 Z1'], 'Y0': ['Y0']}


def hamiltonian(h, terms, s):
    op = ops.QubitOperator()
    for i, t in enumerate(terms):
        op += ops.QubitOperator(t, h.real('c%s_%d' % (s, i), -3, 3))
    return op


def cphase(h, name):
    return Q.cexp(h.angle(name, -3.2, 3.2))


def unitary_u2(h, s, det=True):
    """a general 2x2 unitary e^{id} Rz(a) Ry(b) Rz(c)"""
    a, b, c = h.angle('ua' + s, -7, 7), h.angle('ub' + s, -7, 7), h.angle('uc' + s, -7, 7)
    d = h.angle('ud' + s, -4, 4)
    m = mm(Q.rot(Q.Z2, a), mm(Q.rot(Q.Y2, b), Q.rot(Q.Z2, c)))
    p = Q.cexp(d)
    return Q.mat([[p * x for x in r] for r in m])


def mm(a, b):
    a, b = Q.from_any(a), Q.from_any(b)
    n, k, m = a.shape[0], a.shape[1], b.shape[1]
    if a.dtype != object and b.dtype != object:
        return a @ b
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            t = 0
            for l in range(k):
                x, y = a[i, l], b[l, j]
                if (not Q.issym(x) and x == 0) or (not Q.issym(y) and y == 0):
                    continue
                t = t + x * y
            out[i, j] = t
    return out


def spec(g, nq):
    """reference matrix, TimeEvolution included"""
    n = type(g).__name__
    if n == 'TimeEvolution':
        s = Q.State(range(nq))
        Q.apply_time_evolution(s, g, list(range(nq)), (), None)
        return state_matrix(s)
    if n == 'DaggeredGate':
        return Q.dagger(spec(g._gate, nq))
    return Q.from_any(Q.spec_matrix(g, nq))


def state_matrix(s):
    if s.num is not None:
        return s.num
    d = 1 << len(s.wires)
    m = np.zeros((d, len(s.sp)), dtype=object)
    for j, col in enumerate(s.sp):
        for b, a in col.items():
            m[b, j] = a
    return m


def diff(a, b):
    a, b = Q.from_any(a), Q.from_any(b)
    if a.shape != b.shape:
        return [1.0]
    if a.dtype != object and b.dtype != object:
        return [float(np.max(np.abs(a - b)))]
    return [x - y for x, y in zip(a.flat, b.flat) if not (not Q.issym(x) and not Q.issym(y) and x == y)]


def eye(n):
    return np.eye(1 << n, dtype=complex)


def rejects(h, label, names, fn):
    """fn must raise an exception whose class (or a base class) has one of the names"""
    names = [names] if isinstance(names, str) else names
    try:
        fn()
    except Exception as e:
        got = [c.__name__ for c in type(e).__mro__]
        h.true(label, any(n in got for n in names), 'raised ' + got[0])
        return
    h.fail(label, 'no exception')
