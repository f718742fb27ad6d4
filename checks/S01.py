"""The compiled simulator (vectorised and portable kernels): gates and groups of gates are exact linear algebra."""
import itertools

import S03
from vf import simcases as C
from vf.runner import Case

NEEDS_CPP = True
BOUNDS = dict(quick='the C++ source compiled with symbolic numbers, vectorised and portable kernels: 1-6 qubits in an arbitrary state (symbolic amplitudes), symbolic '
                    'matrices on 1-5 qubits, ordered choices of targets and controls; two-gate programs with every placement on 3 qubits; programs of up to 8 gates '
                    'on up to 7 qubits around the limits of gate grouping; histories of up to 8 allocations, gates and releases',
              thorough='every ordered choice of targets up to 5 of 6 qubits, three-gate programs')
OUTSIDE = 'larger registers; floating-point rounding (amplitudes are exact reals); the OpenMP scheduling of the loops (compiled without threads)'
NOTE = 'vector instructions are replaced by their lane-wise meaning; differences up to 1e-6 count as equal'

G1 = lambda *t: ((t[0],), tuple(t[1:]))                      # noqa: E731
PLANS = [
    # (qubits, placements)
    (5, [G1(0), G1(1), G1(2), G1(3), G1(4), G1(0)]),
    (6, [G1(0), G1(1), G1(2), G1(3), G1(4), G1(5)]),
    (6, [((0, 1), ()), ((2, 3), ()), ((4, 5), ()), G1(2)]),
    (7, [((0, 1, 2), ()), ((3, 4, 5), ()), G1(6)]),
    (6, [((0, 1, 2, 3), ()), ((2, 3, 4, 5), ())]),
    (5, [((0, 1, 2), ()), ((4, 3), ()), G1(2, 3)]),
    (5, [G1(0, 1), G1(0, 2), G1(0, 3), G1(0, 4)]),
    (5, [G1(0, 4), G1(1, 4), G1(2, 4), G1(3, 4)]),
    (5, [G1(0, 3, 4), G1(1, 4), G1(2, 3), G1(0)]),
    (5, [G1(0, 1, 2, 3, 4), G1(1), G1(0, 4)]),
    (6, [G1(0, 5), G1(1, 5), G1(5), G1(2, 5)]),
    (6, [G1(0, 4, 5), G1(1, 4, 5), G1(2, 4, 5), G1(3, 4, 5), G1(4)]),
    (6, [G1(0, 1, 2), G1(3, 4, 5), G1(1, 3)]),
    (6, [G1(0, 1), G1(2, 3), G1(4, 5), G1(1, 0), G1(3, 2)]),
    (7, [G1(0, 1, 2, 3, 4, 5), G1(6, 1, 2, 3, 4, 5), G1(0)]),
    (4, [G1(0, 1), G1(1, 0), G1(0, 1), G1(2, 3), G1(3), G1(2)]),
    (5, [((0, 1), (4,)), ((2, 3), (4,)), G1(4)]),
    (5, [((0, 1), (3, 4)), G1(2, 3), ((1, 2), (4,))]),
    (4, [((0, 1, 2, 3), ()), G1(0), G1(3, 0)]),
    (6, [((0, 1, 2, 3, 4), ()), G1(5), ((1, 5), ())]),
    (6, [G1(5), ((0, 1, 2, 3, 4), (5,)), G1(5)]),
]


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=50000)
    for be in ('cpp', 'cpp portable'):
        yield from big(be, quick, K)
        for i, (n, plan) in enumerate(PLANS):
            yield Case('grouping/%s/%d' % (be, i), C.long, dict(backend=be, n=n, plan=plan), weight=n, **K)
    yield from S03.cases(tier, ('cpp', 'cpp portable'))


def big(be, quick, K):
    for n, k in ((4, 4), (5, 3), (5, 4), (5, 5), (6, 5)):
        for nc in range(0, n - k + 1):
            o = [(5 * i + 2) % n for i in range(n)] if n % 5 else [(3 * i + 1) % n for i in range(n)]
            yield Case('gate/%s/%d qubits/%d targets/%d controls' % (be, n, k, nc), subset if quick else C.gate,
                       dict(backend=be, n=n, k=k, nc=nc, ords=[o], real=True), weight=2 * n, **K)


def subset(h, backend, n, k, nc, ords, real):
    """rotations and reversals of the target order; all control sets"""
    allp = list(itertools.permutations(range(n), k))
    keep = [t for t in allp if list(t) == sorted(t) or list(t) == sorted(t)[::-1] or t == tuple((2 * i + t[0]) % n for i in range(k))]
    sim, ids, bits, amp = C.setup(h, backend, n, ords[0], real)
    tg = h.choice('targets', keep)
    ct = h.choice('controls', list(itertools.combinations([p for p in range(n) if p not in tg], nc)))
    m = C.L.matrix(h, k, real=real)
    sim.apply_controlled_gate(m, [bits[p] for p in tg], [bits[p] for p in ct])
    C.finish(h, sim, ids, bits, C.L.apply(amp, m, tg, sum(1 << p for p in ct)))
