"""Harnesses for measurement, release and queries of the state-vector simulators (S02, S04)."""
import itertools

from . import cppglue, shims
from . import simlib as L
from . import simcases as C
from .engine import PathAbort


def prob(a):
    return a.real * a.real + a.imag * a.imag


def total(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def start(h, backend, n, order, support=None, real=False):
    """support: basis states that may have an amplitude (the others are exactly zero)"""
    sim = L.make(h, backend)
    ids = list(C.IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    bits = [ids[p] for p in order]
    amp = [(h.real('a%d' % i) if real else h.cplx('a%d' % i)) if support is None or i in support else 0.0 for i in range(1 << n)]
    sim.set_wavefunction(amp, bits)
    return sim, ids, bits, amp


def projected(h, label, got, amp, keep, P):
    """got = the projection of amp onto keep, normalised"""
    h.same(label + ': other outcomes', [g for i, g in enumerate(got) if i not in keep], [0.0] * (len(got) - len(keep)))
    # got * sqrt(P) = amp, stated without the root: the products agree and the direction is the same
    nz = [i for i in keep if not (isinstance(amp[i], float) and amp[i] == 0.0)]
    h.same(label + ': empty entries', [got[i] for i in keep if i not in nz], [0.0] * (len(keep) - len(nz)))
    s = root(h, P)
    h.same(label + ': state', [got[i] * s for i in nz], [amp[i] for i in nz])


def root(h, P):
    from .sym import Sym, sym_sqrt
    if isinstance(P, Sym):
        return sym_sqrt(P)
    return complex(P).real ** 0.5


def measure(h, backend, n, order, support, which, zero=False, real=False):
    """which: positions measured, in the order given"""
    sim, ids, bits, amp = start(h, backend, n, order, support, real)
    p = [prob(a) if not isinstance(a, float) else a * a for a in amp]
    tot = total(p)
    drawn = []

    def rnd():
        r = 0.0 if zero else h.unit_random('rnd%d' % len(drawn))
        drawn.append(r)
        h.assume(r < tot)          # the state is normalised and the number is below one; a longer state changes nothing
        return r
    cppglue.hook = rnd
    if h.symbolic:
        shims.random_hook = rnd
    else:
        import random
        random.random = rnd
    if zero:
        h.assume(tot > 0.001)
    res = list(sim.measure_qubits([bits[w] for w in which]))
    h.true('one random number', len(drawn) == 1)
    r = drawn[0]
    h.true('results', len(res) == len(which) and all(x in (True, False) for x in res), repr(res))

    def agrees(i):
        return all(((i >> w) & 1) == int(x) for w, x in zip(which, res))
    keep = [i for i in range(1 << n) if agrees(i)]
    P = total(p[i] for i in keep)
    h.true('outcome is possible', P > 0.0, 'result %r' % (res,))
    # the outcome owns the part of [0, 1) the number lies in: cumulative squared amplitudes in state order
    if not zero:
        acc, hit = 0.0, None
        for i in range(1 << n):
            acc = acc + p[i]
            if bool(r < acc):
                hit = i
                break
        h.true('according to the squared amplitudes', hit is not None and agrees(hit), 'result %r for entry %r' % (res, hit))
    mp, got = L.read(sim, bits)
    L.consistent(h, mp, ids, len(got))
    projected(h, 'after measurement', got, amp, keep, P)
    again = sim.get_probability([bool(x) for x in res], [bits[w] for w in which])
    h.same('measured again', again, 1.0)


def collapse(h, backend, n, order, support, which, real=False):
    sim, ids, bits, amp = start(h, backend, n, order, support, real)
    want = [h.choice('v%d' % k, [0, 1]) for k in range(len(which))]
    p = [prob(a) if not isinstance(a, float) else a * a for a in amp]
    keep = [i for i in range(1 << n) if all(((i >> w) & 1) == x for w, x in zip(which, want))]
    P = total(p[i] for i in keep)
    ok = True
    if isinstance(P, float) and P == 0.0:
        ok = False
    else:
        h.assume(P > 1e-3)
    call = lambda: sim.collapse_wavefunction([bits[w] for w in which], [bool(x) for x in want])    # noqa: E731
    if not ok:
        h.raises('impossible outcome', (RuntimeError,), call)
        mp, got = L.read(sim, bits)
        L.consistent(h, mp, ids, len(got))
        h.same('state after the refusal', got, amp)
        return
    call()
    mp, got = L.read(sim, bits)
    L.consistent(h, mp, ids, len(got))
    projected(h, 'after collapse', got, amp, keep, P)


def probability(h, backend, n, order, which):
    sim, ids, bits, amp = start(h, backend, n, order)
    want = [h.choice('v%d' % k, [0, 1]) for k in range(len(which))]
    keep = [i for i in range(1 << n) if all(((i >> w) & 1) == x for w, x in zip(which, want))]
    r = sim.get_probability([bool(x) for x in want], [bits[w] for w in which])
    h.same('probability', r, total(prob(amp[i]) for i in keep))
    if sorted(set(which)) == list(range(n)) and len(which) > n:
        h.raises('amplitude of a qubit named twice', (RuntimeError,), lambda: sim.get_amplitude([bool(x) for x in want], [bits[w] for w in which]))
    if len(which) == n == len(set(which)):
        h.same('amplitude', sim.get_amplitude([bool(x) for x in want], [bits[w] for w in which]), amp[keep[0]])
    C.finish(h, sim, ids, bits, amp, 'state after the query')


def classical(h, backend, n, order):
    """a qubit in a definite state: its value and its release; one in superposition is not released"""
    pos = h.choice('qubit', range(n))
    kind = h.choice('kind', ['0', '1', 'both'])
    other = list(range(1 << (n - 1)))
    sim = L.make(h, backend)
    ids = list(C.IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    bits = [ids[p] for p in order]
    # the entry that surely has weight; all the others are arbitrary, but either zero or clearly not
    sure = h.choice('sure', other[:2])
    amp = []
    for i in range(1 << n):
        b = (i >> pos) & 1
        rest = (i & ((1 << pos) - 1)) | (i >> (pos + 1) << pos)
        if kind != 'both' and b != int(kind):
            amp.append(0.0)
        elif rest == sure:
            amp.append(h.real('s%d' % i, 0.1, 1.0) * (1 + 0.5j))
        elif rest > 1:
            amp.append(h.real('a%d' % i, 0.01, 1.0) * (0.5 - 1j))
        else:
            amp.append(h.cplx('a%d' % i) if h.choice('z%d' % i, [True, False]) else 0.0)
            if not isinstance(amp[-1], float):
                h.assume(prob(amp[-1]) > 1e-4)
    sim.set_wavefunction(amp, bits)
    q = bits[pos]
    if kind == 'both':
        h.raises('superposition', (RuntimeError,), lambda: sim.deallocate_qubit(q))
        C.finish(h, sim, ids, bits, amp, 'state after the refusal')
        return
    tol = () if backend == 'py' else (1e-12,)
    h.true('value', bool(sim.get_classical_value(q, *tol)) == (kind == '1'))
    if backend != 'py':
        h.true('definite', bool(sim.is_classical(q, *tol)))
    C.finish(h, sim, ids, bits, amp, 'state after the query')
    sim.deallocate_qubit(q)
    rest = [b for b in bits if b != q]
    mp, got = L.read(sim, rest)
    L.consistent(h, mp, rest, len(got))
    h.same('state after release', got, [a for i, a in enumerate(amp) if (i >> pos) & 1 == int(kind)])


def allocation(h, backend, n, order):
    sim, ids, bits, amp = start(h, backend, n, order)
    sim.allocate_qubit(99)
    mp, got = L.read(sim, bits + [99])
    L.consistent(h, mp, ids + [99], len(got))
    h.same('state after allocation', got, amp + [0.0] * len(amp))


def refusal(h, backend, n, order, what):
    """requests naming unknown qubits, or incomplete ones, are refused and change nothing"""
    sim, ids, bits, amp = start(h, backend, n, order)
    q = h.choice('q', bits)
    E = (RuntimeError,)
    if what == 'probability':
        h.raises(what, E, lambda: sim.get_probability([True], [99]))
        h.raises(what, E, lambda: sim.get_probability([True, False], [q, 99]))
    elif what == 'amplitude':
        bad = list(bits)
        bad[h.choice('at', range(n))] = h.choice('instead', [99] if n == 1 else [99] + bits)
        if sorted(bad) == sorted(bits):
            raise PathAbort()
        h.raises(what, E, lambda: sim.get_amplitude([True] * n, bad))
        h.raises(what, E, lambda: sim.get_amplitude([True] * (n + 1), bits + [99]))
        if n > 1:
            h.raises(what, E, lambda: sim.get_amplitude([False] * (n - 1), [b for b in bits if b != q]))
    elif what == 'collapse':
        h.raises(what, E, lambda: sim.collapse_wavefunction([99], [True]))
        h.raises(what, E, lambda: sim.collapse_wavefunction([q, 99], [True, False]))
        h.raises(what, (ValueError,), lambda: sim.collapse_wavefunction([q], [True, False]))
    elif what == 'set':
        new = [0.5] * (1 << n)
        bad = list(bits)
        bad[h.choice('at', range(n))] = h.choice('instead', [99] if n == 1 else [99] + bits)
        if sorted(bad) == sorted(bits):
            raise PathAbort()
        h.raises(what, E, lambda: sim.set_wavefunction(new, bad))
        h.raises(what, E + (ValueError,), lambda: sim.set_wavefunction(new[: 1 << (n - 1)], bits[:-1]))
        h.raises(what, E + (ValueError,), lambda: sim.set_wavefunction(new + new, bits + [99]))
    elif what == 'set size':
        new = [0.5] * (1 << n)
        h.raises(what, (ValueError,), lambda: sim.set_wavefunction(new[: 1 << (n - 1)], bits))
        h.raises(what, (ValueError,), lambda: sim.set_wavefunction(new[1:], bits))
    elif what == 'allocate':
        h.raises(what, E, lambda: sim.allocate_qubit(q))
    C.finish(h, sim, ids, bits, amp, 'state after the refusal')


def pending(h, backend, kind):
    """queries right after gates that have not been executed yet"""
    n = 2
    sim, ids, bits, amp = start(h, backend, n, [1, 0])
    m = L.matrix(h, 1)
    sim.apply_controlled_gate(m, [bits[0]], [bits[1]])
    want = L.apply(amp, m, [0], 2)
    if kind == 'probability':
        h.same(kind, sim.get_probability([True], [bits[0]]), prob(want[1]) + prob(want[3]))
    elif kind == 'amplitude':
        h.same(kind, sim.get_amplitude([True, False], [bits[1], bits[0]]), want[2])
    elif kind == 'allocate':
        sim.allocate_qubit(99)
        m2 = L.matrix(h, 1, 'k')
        sim.apply_controlled_gate(m2, [99], [bits[0]])
        want = L.apply(want + [0.0] * 4, m2, [2], 1)
        bits = bits + [99]
        ids = ids + [99]
    elif kind == 'set':
        new = L.amplitudes(h, n, 'n')
        sim.set_wavefunction(new, bits[::-1])
        want = L.permuted(new, bits[::-1], bits)
    C.finish(h, sim, ids, bits, want)
