"""Harnesses for the state-vector simulators: gates and their grouping (S01, S03)."""
import itertools

from . import simlib as L
from .engine import PathAbort

IDS = (7, 2, 11, 0, 5, 3, 9)


def setup(h, backend, n, order, real=False):
    """simulator with n qubits in an arbitrary (unnormalised) state; order: positions of the qubits in the state vector"""
    sim = L.make(h, backend)
    ids = list(IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    bits = [ids[p] for p in order]
    amp = L.amplitudes(h, n, real=real)
    sim.set_wavefunction(amp, bits)
    return sim, ids, bits, amp


def finish(h, sim, ids, bits, amp, label='state'):
    mp, got = L.read(sim, bits)
    L.consistent(h, mp, ids, len(got))
    h.same(label, got, amp)


def gate(h, backend, n, k, nc, ords, real=False, shapes=()):
    """one gate on any ordered choice of k targets with any nc controls"""
    order = h.choice('order', ords)
    sim, ids, bits, amp = setup(h, backend, n, order, real)
    tg = h.choice('targets', list(itertools.permutations(range(n), k)))
    ct = h.choice('controls', list(itertools.combinations([p for p in range(n) if p not in tg], nc)))
    if h.choice('reverse the controls', [False, True] if nc > 1 else [False]):
        ct = ct[::-1]
    m = L.shaped(h, k, h.choice('shape', shapes), real=real) if shapes else L.matrix(h, k, real=real)
    sim.apply_controlled_gate(m, [bits[p] for p in tg], [bits[p] for p in ct])
    want = L.apply(amp, m, tg, sum(1 << p for p in ct))
    finish(h, sim, ids, bits, want)


def words(n, letters):
    """all gate placements: (number of targets, number of controls)"""
    res = []
    for k, c in letters:
        for t in itertools.permutations(range(n), k):
            for ct in itertools.combinations([p for p in range(n) if p not in t], c):
                res.append((t, ct))
    return res


def program(h, backend, n, first, rest, real=True):
    """several gates before the state is read; first: placement of the first gate; rest: lists of placements"""
    sim, ids, bits, amp = setup(h, backend, n, range(n), real=True)
    plan = [first] + [h.choice('g%d' % i, c) for i, c in enumerate(rest)]
    want = amp
    for i, (tg, ct) in enumerate(plan):
        m = L.matrix(h, len(tg), 'm%d_' % i, real=True)
        sim.apply_controlled_gate(m, [bits[p] for p in tg], [bits[p] for p in ct])
        want = L.apply(want, m, tg, sum(1 << p for p in ct))
    finish(h, sim, ids, bits, want)


def long(h, backend, n, plan, real=True):
    """a fixed list of placements; matrices are symbolic up to three gates, fixed integer matrices beyond"""
    sim, ids, bits, amp = setup(h, backend, n, range(n), real=True)
    rot = h.choice('rotation', range(0, n, 2))
    want = amp
    for i, (tg, ct) in enumerate(plan):
        tg, ct = [(p + rot) % n for p in tg], [(p + rot) % n for p in ct]
        d = 1 << len(tg)
        if i < (2 if len(tg) == 1 else 1 if len(tg) == 2 else 0):
            m = L.matrix(h, len(tg), 'm%d_' % i, real=True)
        else:
            m = [[complex((3 * r + 5 * c + i) % 7 - 3, (r * c + 2 * r + i) % 3 - 1) for c in range(d)] for r in range(d)]
        sim.apply_controlled_gate(m, [bits[p] for p in tg], [bits[p] for p in ct])
        want = L.apply(want, m, tg, sum(1 << p for p in ct))
    finish(h, sim, ids, bits, [x * 1.0 for x in want])


def history(h, backend, steps):
    """gates interleaved with allocation and release of qubits; all gates have symbolic matrices

    a: allocate; r: release a qubit that is in a definite state; g: gate; c: controlled gate; t: two-qubit gate"""
    sim = L.make(h, backend)
    fresh = iter(IDS)
    order, amp = [], [1.0]
    definite = {}
    for s, step in enumerate(steps):
        if step == 'a':
            q = next(fresh)
            sim.allocate_qubit(q)
            order.append(q)
            amp = amp + [0.0] * len(amp)
            definite[q] = 0
            continue
        if step in 'rx' and not definite:
            raise PathAbort()
        if step == 'r':
            q = h.choice('s%d' % s, sorted(definite))
            b = definite.pop(q)
            p = order.index(q)
            sim.deallocate_qubit(q)
            amp = [x for i, x in enumerate(amp) if (i >> p) & 1 == b]
            order.remove(q)
            continue
        if step == 'x':         # a bit flip keeps the qubit in a definite state
            q = h.choice('s%d' % s, sorted(definite))
            definite[q] ^= 1
            sim.apply_controlled_gate([[0.0, 1.0], [1.0, 0.0]], [q], [])
            amp = L.apply(amp, [[0.0, 1.0], [1.0, 0.0]], [order.index(q)], 0)
            continue
        k, nc = {'g': (1, 0), 'c': (1, 1), 't': (2, 0)}[step]
        opts = [(t, c) for t in itertools.permutations(sorted(order), k) for c in itertools.combinations([q for q in sorted(order) if q not in t], nc)]
        t, c = h.choice('s%d' % s, opts)
        # rotation-like matrices keep the state normalised: an orthogonal matrix with rational entries and a symbolic sign
        if k == 1:
            x = h.angle('w%d' % s, 0.3, 1.2)
            m = rotation(h, x)
        else:
            m = L.matrix(h, 2, 'm%d_' % s, real=True)
        for q in t:
            definite.pop(q, None)
        sim.apply_controlled_gate(m, list(t), list(c))
        amp = L.apply(amp, m, [order.index(q) for q in t], sum(1 << order.index(q) for q in c))
    mp, got = L.read(sim, order)
    L.consistent(h, mp, order, len(got))
    h.same('state', got, amp)


def rotation(h, x):
    from . import quantum as Q
    c, s = Q.cos(x), Q.sin(x)
    return [[c, -1.0 * s], [s, c]]
