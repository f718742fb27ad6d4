"""The compiled simulator: measurement, collapse, queries, allocation and release."""
import S04

NEEDS_CPP = True
BOUNDS = dict(quick='the C++ source compiled with symbolic numbers (vectorised and portable kernels): ' + S04.BOUNDS['quick'], thorough=S04.BOUNDS['thorough'])
OUTSIDE = S04.OUTSIDE + '; OpenMP threads'


def cases(tier):
    yield from S04.cases(tier, ('cpp', 'cpp portable'))
