"""The resource counter reports what was executed."""
from vf import observers as B
from vf.runner import Case

BOUNDS = dict(quick='every program of 3-4 commands over up to 4 qubits from nine alphabets (one-, two-, three-qubit gates with 0-2 controls, rotations with symbolic angles that may coincide, TimeEvolution, '
                    'measurements with and without a mapper identity, allocation and release with re-used ids, flushes), delivered one by one or in one list, as last or inner engine',
              thorough='5 commands')
OUTSIDE = 'longer programs; gates outside the alphabets; ids used before their allocation'
NOTE = 'rotation angles are symbolic: the gate-by-gate counts are decided for every coincidence pattern of the angles'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=60000, branch_ms=300)
    A = dict(gates=('x', 'h', 'cx', 'swap'), controls=('x', 'cx', 'cx0', 'ccx', 'cr'), many=('h', 'barrier', 'cswap', 'ccx'), rotations=('rx', 'cr', 'x'), life=('alloc', 'free', 'cx'),
             life2=('alloc', 'free', 'x', 'flush'), measure=('measure', 'cx', 'h'), measure2=('measure', 'free', 'alloc', 'flush'), time=('time', 'x', 'cx'))
    for name, al in A.items():
        for last in (True, False):
            for batch in (False, True) if not quick or name in ('gates', 'life') else (not last,):
                n = 3 if name in ('gates', 'rotations', 'life', 'measure', 'time') else 4
                L = dict(gates=3, controls=2, many=2, rotations=3, life=4, life2=4, measure=3, measure2=4, time=3)[name] + (0 if quick else 1)
                start = [0, 1] if name.startswith('life') or name == 'measure2' else list(range(n))
                yield Case('count/%s/%s/%s' % (name, 'last' if last else 'inner', 'list' if batch else 'single'), B.counter,
                           dict(n=n, start=start, alphabet=al, length=L, last=last, batch=batch, summary=not batch), weight=2, **K)
