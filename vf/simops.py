"""Pauli-sum operators in the state-vector simulators: expectation values, application, time evolution (S05)."""
import itertools

from . import simcases as C
from . import simlib as L

P = {'X': [[0.0, 1.0], [1.0, 0.0]], 'Y': [[0.0, -1j], [1j, 0.0]], 'Z': [[1.0, 0.0], [0.0, -1.0]]}


def term_on(state, term, pos):
    for idx, a in term:
        state = L.apply(state, P[a], [pos[idx]], 0)
    return state


def op_on(state, op, pos):
    out = [0.0] * len(state)
    for term, c in op:
        out = [x + c * y for x, y in zip(out, term_on(state, term, pos))]
    return out


def operators(h, terms, cplx):
    return [(list(t), h.cplx('c%d' % i) if cplx else h.real('c%d' % i)) for i, t in enumerate(terms)]


def expectation(h, backend, n, order, terms, reg):
    sim, ids, bits, amp = C.setup(h, backend, n, order)
    op = operators(h, terms, False)
    got = sim.get_expectation_value(op, [bits[p] for p in reg])
    want = 0.0
    for a, b in zip(amp, op_on(amp, op, reg)):
        want = want + a.conjugate() * b
    h.same('expectation value', got, want)
    C.finish(h, sim, ids, bits, amp, 'state after the query')


def operator(h, backend, n, order, terms, reg):
    sim, ids, bits, amp = C.setup(h, backend, n, order)
    op = operators(h, terms, True)
    sim.apply_qubit_operator(op, [bits[p] for p in reg])
    C.finish(h, sim, ids, bits, op_on(amp, op, reg), 'operator applied')


def taylor(h, state, op, pos, t, mask, order):
    """exp(-i t H) by its power series (t small)"""
    out = list(state)
    cur = [a if i & mask == mask else 0.0 for i, a in enumerate(state)]
    f = 1.0
    for j in range(1, order + 1):
        cur = op_on(cur, op, pos)
        cur = [x * (-1j * t) * (1.0 / j) for x in cur]
        out = [x + y for x, y in zip(out, cur)]
    return out


def evolution(h, **kw):
    """with the squares of the 1e-12 the simulators compare with kept: no small coefficient is dropped"""
    from . import sym
    old, sym.DROP = sym.DROP, 1e-30
    try:
        _evolution(h, **kw)
    finally:
        sym.DROP = old


def _evolution(h, backend, n, order, terms, coef, reg, ctrl, lo, hi, shift=0.0, steps=1):
    """arbitrary time in an interval; initial state: any basis state or a fixed superposition of all of them"""
    from . import quantum as Q
    sim = L.make(h, backend)
    ids = list(C.IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    bits = [ids[p] for p in order]
    init = h.choice('state', list(range(1 << n)) + ['all'])
    if init == 'all':
        amp = [complex(0.2 + 0.1 * (i % 3), 0.15 * ((i * 5) % 4) - 0.2) for i in range(1 << n)]
    else:
        amp = [1.0 if i == init else 0.0 for i in range(1 << n)]
    sim.set_wavefunction(amp, bits)
    t = h.angle('t', lo, hi)
    op = [(list(x), c) for x, c in zip(terms, coef)]
    full = op + ([([], shift)] if shift else [])
    sim.emulate_time_evolution(full, t, [bits[p] for p in reg], [bits[p] for p in ctrl])
    mask = sum(1 << p for p in ctrl)
    want = amp
    for _ in range(steps):
        want = taylor(h, want, op, reg, t * (1.0 / steps), mask, 16)
    if shift:
        ph = Q.cexp(-shift * t)
        want = [a * ph if i & mask == mask else a for i, a in enumerate(want)]
    C.finish(h, sim, ids, bits, want, 'evolved state')


def far(h, backend, n, pauli, coef, reg, ctrl, times, shift=0.0):
    """long times: H is a sum of anticommuting strings (its square is a number), initial state: any product of rotated qubits"""
    import math
    from . import quantum as Q
    sim = L.make(h, backend)
    ids = list(C.IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    order = h.choice('order', [list(range(n)), list(range(n))[::-1]])
    bits = [ids[p] for p in order]
    amp = [1.0]
    for i in range(n):
        if i not in reg:            # (the norm of what evolves does not depend on the unknowns)
            amp = [a * 0.6 for a in amp] + [a * 0.8j for a in amp]
            continue
        x = h.angle('x%d' % i)
        amp = [a * Q.cos(x) for a in amp] + [a * (Q.sin(x) * (1j if i % 2 else 1.0)) for a in amp]
    sim.set_wavefunction(amp, bits)
    t = h.choice('t', times)
    op = [(list(x), c) for x, c in zip(pauli, coef)]
    sim.emulate_time_evolution(op + ([([], shift)] if shift else []), t, [bits[p] for p in reg], [bits[p] for p in ctrl])
    mask = sum(1 << p for p in ctrl)
    E = math.sqrt(sum(c * c for c in coef))
    ph = complex(math.cos(shift * t), -math.sin(shift * t))
    hp = op_on(amp, op, reg)
    want = [(a * math.cos(E * t) + b * (-1j * math.sin(E * t) / E)) * ph if i & mask == mask else a for i, (a, b) in enumerate(zip(amp, hp))]
    C.finish(h, sim, ids, bits, want, 'evolved state')
