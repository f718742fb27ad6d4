"""The integer functions attached to the arithmetic gates, and how the simulators execute them."""
import itertools

from vf import arith as A
from vf import mathfun as M
from vf.runner import Case

NEEDS_CPP = True
BOUNDS = dict(quick='functions: registers of 1-10 qubits (multiplication 1-5, division 1-4), every content in one query, gate and inverse; constants and moduli symbolic on 1-6 qubits; '
                    'simulators: arbitrary symbolic state of 2-4 qubits, several placements of the registers, 0-2 controls, every constant and modulus that fits, Python and compiled (vectorised and portable)',
              thorough='functions on up to 20 qubits (multiplication 8, division 6), simulators on 5 qubits')
OUTSIDE = 'contents outside the documented preconditions (see A01), for which the functions of division and modular arithmetic are not injective; registers of more than 31 qubits'
NOTE = 'A01 and A02 establish that the circuits implement the same documented functions'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=20000)
    for name in A.gates():
        top = dict(multiply=6 if quick else 9, divide=5 if quick else 7).get(name, 11 if quick else 21)
        for n in range(1, top):
            for how in ('gate', 'inverse'):
                yield Case('function/%s/%d/%s' % (name, n, how), M.function, dict(name=name, n=n, how=how), weight=n, **K)
    for which in ('AddConstant', 'SubConstant', 'AddConstantModN', 'SubConstantModN', 'MultiplyByConstantModN'):
        for n in range(1, ((4 if 'Mul' in which else 7) if quick else (5 if 'Mul' in which else 10))):
            yield Case('constant/%s/%d' % (which, n), M.constant, dict(which=which, n=n), weight=n, **K)
    for backend in ('py', 'cpp', 'cpp portable'):
        for kind, widths, n in (('add', (1,), 3), ('add', (2,), 3), ('add', (2,), 4), ('addmod', (2,), 3), ('mulmod', (2,), 3), ('mulmod', (3,), 4), ('addmod', (3,), 3), ('minus', (2,), 3),
                                ('swap', (1, 1), 3), ('sum', (1, 2), 4), ('affine', (2, 1), 4), ('three', (1, 1, 1), 4), ('sum', (2, 2), 4)):
            k = sum(widths)
            places = [tuple(range(k)), tuple(range(n - 1, n - 1 - k, -1))] + ([(1, n - 1, 0, 2)[:k]] if k > 1 else [(1,)])
            for place in dict.fromkeys(places):
                for nc in range(0, n - k + 1):
                    if quick and (kind == 'add' and n == 4 and place[0] != 1 or nc == 2 and n == 3 and kind != 'add'):
                        continue
                    yield Case('emulate/%s/%s/%d/%s/%s/%dc' % (backend, kind, n, ''.join(map(str, widths)), ''.join(map(str, place)), nc), M.emulate,
                               dict(backend=backend, n=n, widths=widths, nc=nc, kind=kind, place=place), weight=n, **K)
