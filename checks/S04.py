"""The pure-Python simulator: measurement, collapse, queries, allocation and release."""
import itertools

from vf import simmeasure as C
from vf.runner import Case

BOUNDS = dict(quick='1-2 qubits in an arbitrary state and 3-4 qubits with up to 4 nonzero symbolic amplitudes, every ordered choice of up to 3 measured qubits and lists that name a qubit twice, symbolic random number (also exactly 0); '
                    'collapse, probability, amplitude, value, release, allocation and state setting for every named qubit; refused requests leave everything as it was',
              thorough='as quick with larger budgets, up to 3 of 4 measured qubits, release with 4 qubits')
OUTSIDE = 'larger registers; floating-point rounding (amplitudes are exact reals); statistics of the random number generator itself'


def twice(n, k):
    """lists that name a qubit more than once"""
    if k == 2:
        return [(n - 1, n - 1)]
    if k == 3 and n > 1:
        return [(0, n - 1, 0), (1, 0, 0)]
    return [(1, 0, 2, 1)] if k == 4 and n > 2 else []


def cases(tier, backends=('py',)):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=50000, branch_ms=1000)
    for be in backends:
        for n in (1, 2, 3, 4):
            order = [(2 * i + 1) % n if n % 2 else n - 1 - i for i in range(n)]
            for k in range(1, min(n, 2 if quick and n > 3 else 3) + 1):
                for which in list(itertools.permutations(range(n), k)) + twice(n, k):
                    sups = [None] if n < 3 else [[0, 3, 5, 6], [1, 2, 7], [0, 7]] if n == 3 else [[0, 6, 9, 15], [3, 5, 10]]
                    for s in sups:
                        yield Case('measure/%s/%d/%s/%s' % (be, n, which, s), C.measure, dict(backend=be, n=n, order=order, support=s, which=which, real=n > 1), weight=n, **K)
                        yield Case('collapse/%s/%d/%s/%s' % (be, n, which, s), C.collapse, dict(backend=be, n=n, order=order, support=s, which=which, real=n > 2), weight=n, **K)
                    for s in ([1], [0, 1]) if n == 1 else ([1], [0, 1], [1, 2, 3]):
                        yield Case('measure with 0/%s/%d/%s/%s' % (be, n, which, s), C.measure,
                                   dict(backend=be, n=n, order=order, support=s, which=which, zero=True, real=True), weight=n, **K)
            for k in range(1, n + 2):
                for which in list(itertools.permutations(range(n), k)) + twice(n, k):
                    yield Case('probability/%s/%d/%s' % (be, n, which), C.probability, dict(backend=be, n=n, order=order, which=which), **K)
            yield Case('allocation/%s/%d' % (be, n), C.allocation, dict(backend=be, n=n, order=order), **K)
            yield Case('release/%s/%d' % (be, n), C.classical, dict(backend=be, n=n, order=order), weight=n, **K)
            for w in ('probability', 'amplitude', 'collapse', 'set', 'set size', 'allocate'):
                yield Case('refusal/%s/%d/%s' % (be, n, w), C.refusal, dict(backend=be, n=n, order=order, what=w), **K)
        if not quick:
            yield Case('release/%s/4' % be, C.classical, dict(backend=be, n=4, order=[2, 0, 3, 1]), weight=4, **K)
        for kind in ('probability', 'amplitude', 'allocate', 'set'):
            yield Case('pending/%s/%s' % (be, kind), C.pending, dict(backend=be, kind=kind), **K)
