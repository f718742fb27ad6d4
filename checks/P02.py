"""Grid mapping: the mapped circuit is the program, on neighbouring qubits only, under the labels of the back-end."""
from vf import mapping as M
from vf.runner import Case

BOUNDS = dict(quick='grids 1x2, 2x2, 1x3, 3x1, 2x3, 3x2 with plain and permuted back-end labels; every sequence of up to 4-6 two-qubit operations (uninterpreted gates, controls of either polarity, swaps), one-qubit operations, '
                    'measurements with any outcome, allocations, releases and flushes from smaller alphabets; storage limits 1, 2, 3, 5 and unlimited; arbitrary starting placements; '
                    'the swap schedule between any two placements of a full or partial 2x2, 2x3, 3x2 grid',
              thorough='longer sequences')
OUTSIDE = 'longer programs and larger grids; the number of swaps is not judged'
NOTE = 'gates are uninterpreted functions, so equality of the values on the qubits holds for every meaning of the gates'


def cases(tier):
    quick = tier == 'quick'
    K = dict(budget=100 if quick else 1500, max_paths=1000000)
    yield from M.family([('grid', 1, 2), ('grid', 2, 2), ('grid', 1, 3), ('grid', 3, 1), ('grid', 2, 3), ('grid', 3, 2)], quick)
    yield from M.family([('grid', 2, 2), ('grid', 2, 1), ('grid', 2, 3)], quick, M.relabelled)
    for sh in ((2, 2), (2, 3), (3, 2)) + (() if quick else ((3, 3), (2, 4))):
        n = sh[0] * sh[1]
        for k in range(1, n + 1):
            if quick and n == 6 and k in (4, 5):
                continue
            if not quick and n > 6 and k > 3:
                continue
            yield Case('schedule %d/%dx%d' % ((k,) + sh), M.schedule, dict(shape=('grid',) + sh, k=k), **K)
