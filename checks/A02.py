"""Arithmetic with classical constants: plain and modular addition, modular multiplication."""
from vf import arith as A
from vf.runner import Case

BOUNDS = dict(quick='AddConstant: registers of 1-3 qubits in an arbitrary superposition, every constant in [-2^n, 2^n), 0-2 controls of either polarity; on 5, 6 and 8 qubits every constant with at most two one bits and its negative; AddConstantModN: registers of 1-5 qubits, '
                    'all moduli that fit, all constants and contents in one query; MultiplyByConstantModN: 1-4 qubits, all coprime constants; the gate, its inverse, the Sub... form and the inverted block; '
                    'modular inverses of all numbers up to 3 bits (symbolic) and selected 60-bit ones (evaluated)',
              thorough='AddConstant on 5 qubits, modular addition on 8, multiplication on 5')
OUTSIDE = 'larger registers; arguments outside the documented preconditions that the library accepts (constant equal to the modulus)'
NOTE = ('AddConstant is executed through its Fourier-space circuit; the modular circuits are executed on symbolic bits with AddConstant (multiplication: AddConstantModN) standing for '
        'its specification, which the first part (second part) establishes for the same register sizes')
WIDE = [((1 << 61) - 1, 1), ((1 << 61) - 1, 1234567890123456789), ((1 << 59) - 55, 987654321987654321), (10 ** 18 + 9, 3 ** 37), (1000003, 65537)]


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=50000, max_concretize=2000)
    CS = ((0, ''), (1, '1'), (1, '0'), (2, '11'), (2, '01'))
    for n in range(1, 4 if quick else 6):
        for nc, cs in CS:
            if n + nc > (4 if quick else 6):
                continue
            for how in ('gate', 'inverse', 'sub', 'dagger'):
                yield Case('add/%d/%s/%s' % (n, cs or '-', how), A.add_constant, dict(n=n, nc=nc, cstate=cs, how=how), weight=n, **K)
    for n in (5, 6, 8) if quick else (6, 7, 8, 9):
        for nc, cs in CS[:3] if n < 8 else CS[:1]:
            for how in ('gate', 'inverse', 'sub', 'dagger') if n < 8 else ('gate', 'dagger'):
                yield Case('add far/%d/%s/%s' % (n, cs or '-', how), A.add_far, dict(n=n, nc=nc, cstate=cs, how=how), weight=3 * n, **K)
    for n in range(1, 6 if quick else 9):
        for nc, cs in CS:
            for how in ('gate', 'inverse', 'sub', 'dagger'):
                yield Case('add mod/%d/%s/%s' % (n, cs or '-', how), A.add_mod, dict(n=n, nc=nc, cstate=cs, how=how), weight=n, **K)
    for n in range(1, 5 if quick else 6):
        for nc, cs in CS:
            for how in ('gate', 'inverse', 'dagger'):
                if n > 3 and (nc == 2 or how == 'inverse') and quick:
                    continue
                yield Case('multiply mod/%d/%s/%s' % (n, cs or '-', how), A.mul_mod, dict(n=n, nc=nc, cstate=cs, how=how), weight=4 * n, **K)
    for n in range(2, 4 if quick else 7):
        yield Case('modular inverse/%d' % n, A.inverse_number, dict(n=n), weight=4, **K)
    yield Case('modular inverse/wide', A.inverse_wide, dict(pairs=WIDE), **K)
    for n in (2, 3):
        for which in ('add range', 'mul range', 'gcd'):
            yield Case('refuse/%s/%d' % (which, n), A.refuse, dict(which=which, n=n), **K)
