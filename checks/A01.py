"""Quantum arithmetic circuits (addition, subtraction, comparison, multiplication, division) on every register content."""
from vf import arith as A
from vf.runner import Case

BOUNDS = dict(quick='registers of 1-8 qubits (multiplication and division 1-5), every content of every register in one query; 0-2 controls of either polarity; the gate, its inverse, '
                    'the gate inside an inverted block (once and twice)',
              thorough='registers of up to 16 qubits (multiplication, division 7)')
OUTSIDE = 'larger registers; contents outside the documented preconditions (helper qubit of a two-qubit carry not 0, product register not 0, remainder not 0, divisor 0 or larger than the dividend); operations the library refuses (more than one control on an addition, any on multiplication and division)'
NOTE = 'the circuit is produced by the real decomposition rules and executed on symbolic bits; the integer functions are taken from the documentation'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900)
    for name in A.gates():
        big = name in ('multiply', 'divide')
        for n in range(1, (6 if big else 9) if quick else (8 if big else 17)):
            for nc, cs in ((0, ''), (1, '1'), (1, '0'), (2, '11'), (2, '01')):
                if name == 'add carry' and nc or name == 'add carry2' and not nc:
                    continue        # the carry register has one qubit without and two with a control
                for how in ('gate', 'inverse', 'dagger', 'double', 'dagger inverse'):
                    if nc > 1 and how not in ('gate', 'inverse'):
                        continue
                    if how in ('dagger inverse', 'double') and n > 3:
                        continue
                    yield Case('%s/%d/%s/%s' % (name, n, cs or '-', how), A.run, dict(name=name, n=n, nc=nc, cstate=cs, how=how), weight=n, **K)
