"""Expectation values, operator application and time evolution in both simulators."""
import itertools

from vf import simops as C
from vf.runner import Case

NEEDS_CPP = True
BOUNDS = dict(quick='both simulators: 1-3 qubits in an arbitrary state (symbolic amplitudes); all one- and two-letter words and sums of up to 3 words with symbolic coefficients, '
                    'every assignment of the operator to the qubits; time evolution for every time in [0.2, 0.6], [-0.6, -0.2] and [0.9, 1.5] (more than one scaling step) from every basis state and a superposition, 0-2 controls, '
                    'non-commuting Hamiltonians and identity parts; times 20, -20, -7.5, 4.25 and 0 for operators whose square is a number, every product of rotated target qubits',
              thorough='4 qubits, more Hamiltonians')
OUTSIDE = 'larger registers; floating-point rounding; times beyond 1.5 other than the listed ones; Hamiltonian coefficients are fixed numbers in the time evolution'


def words(m):
    res = [()]
    for k in range(1, m + 1):
        for pos in itertools.combinations(range(m), k):
            for w in itertools.product('XYZ', repeat=k):
                res.append(tuple(zip(pos, w)))
    return res


HAMS = [
    ([((0, 'X'),)], [0.7], 1),
    ([((0, 'Y'),)], [-0.9], 1),
    ([((0, 'Z'),), ((0, 'X'),)], [0.5, 0.3], 1),
    ([((0, 'X'), (1, 'Y'))], [0.8], 2),
    ([((0, 'Z'), (1, 'Z')), ((0, 'X'),), ((1, 'Y'),)], [0.4, 0.3, -0.2], 2),
    ([((1, 'X'),), ((0, 'Y'), (1, 'Z'))], [0.5, 0.45], 2),
]


TIMES = [20.0, -20.0, -7.5, 4.25, 0.0]
FAR = [
    ([((0, 'X'),)], [1.1], 1),
    ([((0, 'Z'),), ((0, 'X'),)], [0.5, 0.7], 1),
    ([((0, 'Y'), (1, 'Z'))], [-1.25], 2),
    ([((0, 'X'),), ((0, 'Y'),), ((0, 'Z'),)], [0.4, -0.6, 0.5], 1),
    ([((0, 'X'), (1, 'X')), ((0, 'Z'),), ((0, 'Y'),)], [0.7, -0.4, 0.5], 2),
]


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=50000, branch_ms=500, concrete_trunc=True)
    for be in ('py', 'cpp', 'cpp portable'):
        w = words(2)
        for kind, fn in (('expectation', C.expectation), ('operator', C.operator)):
            for n in (1, 2, 3) if quick else (1, 2, 3, 4):
                order = [(2 * i + 1) % n if n % 2 else n - 1 - i for i in range(n)]
                for m in (1, 2):
                    if m > n:
                        continue
                    for reg in itertools.permutations(range(n), m):
                        for i, t in enumerate(words(m)):
                            if n == 3 and quick and (i + reg[0]) % 3:
                                continue
                            yield Case('%s/%s/%d/%s/%s' % (kind, be, n, t, reg), fn, dict(backend=be, n=n, order=order, terms=[t], reg=reg), **K)
                if n > 1:
                    sums = [[w[i], w[(5 * i + 3) % 16], w[(7 * i + 6) % 16]] for i in range(16)]
                    for i, s in enumerate(sums):
                        s = list(dict.fromkeys(s))
                        reg = list(itertools.permutations(range(n), 2))[i % (n * (n - 1))]
                        yield Case('%s/%s/%d/%s/%s' % (kind, be, n, s, reg), fn, dict(backend=be, n=n, order=order, terms=s, reg=reg), **K)
            yield Case('%s/%s/3 letters' % (kind, be), fn, dict(backend=be, n=3, order=[1, 2, 0], terms=[((0, 'X'), (1, 'Y'), (2, 'Z')), ((0, 'Y'), (2, 'Y'))], reg=[2, 0, 1]), **K)
        for i, (terms, coef, m) in enumerate(FAR):
            for nc in (0, 1) if m == 1 else (0,):
                n = m + nc
                reg = list(range(n))[::-1][:m]
                for shift in (0.0, 0.3) if m == 1 else (0.0,):
                    yield Case('evolution/%s/far %d/%d/%s' % (be, i, nc, shift), C.far, dict(backend=be, n=n, pauli=terms, coef=coef, reg=reg, ctrl=[p for p in range(n) if p not in reg], times=TIMES, shift=shift), weight=6, **K)
        for i, (terms, coef, m) in enumerate(HAMS):
            for nc in (0, 1, 2):
                n = m + nc + (1 if nc == 0 else 0)
                if n > 3 and quick:
                    continue
                order = [(2 * i + 1) % n if n % 2 else n - 1 - i for i in range(n)]
                reg = list(range(n))[::-1][:m]
                ctrl = [p for p in range(n) if p not in reg][:nc]
                nrm = sum(abs(c) for c in coef)
                yield Case('evolution/%s/%d/%d' % (be, i, nc), C.evolution, dict(backend=be, n=n, order=order, terms=terms, coef=coef, reg=reg, ctrl=ctrl, lo=0.2, hi=0.6), weight=4, **K)
                if not quick or (i + nc) % 2:
                    yield Case('evolution/%s/%d/%d/negative' % (be, i, nc), C.evolution,
                               dict(backend=be, n=n, order=order, terms=terms, coef=coef, reg=reg, ctrl=ctrl, lo=-0.6, hi=-0.2), weight=4, **K)
                if m == 1:
                    yield Case('evolution/%s/%d/%d/shift' % (be, i, nc), C.evolution,
                               dict(backend=be, n=n, order=order, terms=terms, coef=coef, reg=reg, ctrl=ctrl, lo=0.1, hi=0.6, shift=0.8), weight=4, **K)
                if quick and (i + nc) % 2:
                    continue
                yield Case('evolution/%s/%d/%d/long' % (be, i, nc), C.evolution,
                           dict(backend=be, n=n, order=order, terms=terms, coef=[c * 1.2 / nrm for c in coef], reg=reg, ctrl=ctrl, lo=0.9, hi=1.5, shift=0.3 if m == 1 else 0.0, steps=2), weight=8, **K)
