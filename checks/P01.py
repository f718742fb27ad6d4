"""Linear and ring mapping: the mapped circuit is the program, on neighbouring qubits only."""
from vf import mapping as M
from vf.runner import Case

BOUNDS = dict(quick='chains and rings of 2-5 qubits; every sequence of up to 5 two-qubit operations (uninterpreted gates, controls of either polarity, swaps), one-qubit operations, '
                    'measurements with any outcome, allocations, releases and flushes from smaller alphabets; storage limits 1, 2, 3, 5 and unlimited; arbitrary starting placements',
              thorough='up to 6 qubits and longer sequences')
OUTSIDE = 'longer programs and chains; the number of swaps is not judged'
NOTE = 'gates are uninterpreted functions, so equality of the values on the qubits holds for every meaning of the gates'


def cases(tier):
    quick = tier == 'quick'
    yield from M.family([('line', 2), ('ring', 2), ('line', 3), ('ring', 3), ('line', 4), ('ring', 4), ('line', 5), ('ring', 5)] + ([] if quick else [('line', 6), ('ring', 6)]), quick)
