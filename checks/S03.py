"""The pure-Python simulator: gates are exact linear algebra."""
import itertools

from vf import simcases as C
from vf import simlib as L
from vf.runner import Case

BOUNDS = dict(quick='1-4 qubits in an arbitrary state (symbolic amplitudes), symbolic matrices on 1-3 qubits, every ordered choice of targets and controls; matrices with seven patterns of zeros and ones (diagonal, permutation, block, triangular); two-gate '
                    'programs with every placement on 3 qubits; histories of up to 8 allocations, gates and releases',
              thorough='5 qubits, matrices on up to 4 qubits, three-gate programs')
OUTSIDE = 'larger registers; floating-point rounding (amplitudes are exact reals)'
NOTE = 'differences up to 1e-6 count as equal'


def cases(tier, backends=('py',)):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=50000)
    for be in backends:
        for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
            for k in range(1, min(n, 3 if quick else 4) + 1):
                for nc in range(0, n - k + 1):
                    ords = [list(range(n)), list(range(n))[::-1]] if n < 4 else [[(3 * i + 1) % n for i in range(n)]]
                    if n == 3:
                        ords.append([1, 2, 0])
                    yield Case('gate/%s/%d qubits/%d targets/%d controls' % (be, n, k, nc), C.gate, dict(backend=be, n=n, k=k, nc=nc, ords=ords, real=k > 2 and n > 3), weight=n, **K)
        for n, k, nc in ((1, 1, 0), (2, 1, 1), (2, 2, 0), (3, 1, 1), (3, 2, 0), (3, 2, 1), (3, 3, 0), (4, 2, 1)):
            yield Case('shape/%s/%d qubits/%d targets/%d controls' % (be, n, k, nc), C.gate, dict(backend=be, n=n, k=k, nc=nc, ords=[[(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))[::-1]], real=n > 2, shapes=L.SHAPES if n < 4 else L.SHAPES[:4]), weight=n, **K)
        w = C.words(3, [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)])
        for first in w:
            yield Case('program/%s/%s' % (be, first), C.program, dict(backend=be, n=3, first=first, rest=[w]), weight=2, **K)
            if not quick:
                v = C.words(3, [(1, 0), (1, 1)])
                yield Case('program/%s/%s/three' % (be, first), C.program, dict(backend=be, n=3, first=first, rest=[v, v]), weight=4, **K)
        for st in HIST if quick else HIST + HIST2:
            yield Case('history/%s/%s' % (be, st), C.history, dict(backend=be, steps=st), weight=3, **dict(K, branch_ms=500 if be == 'py' else 150))


HIST = ['aaxrg', 'agaxcr', 'aagxar', 'axagrag', 'aaagxcr', 'aaxgrag', 'axgaagr', 'aagrac', 'aaxraxrg', 'aaaxxrrg', 'aaagrat', 'agaxtr']
HIST2 = ['aaagcxrac', 'aaxgcrarg', 'aaaagxcrr', 'aaxxgrrag', 'agaaxtcr']
