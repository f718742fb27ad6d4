"""Printing and drawing back-ends show the circuit and pass it on unchanged."""
from vf import pictures as P
from vf.runner import Case

BOUNDS = dict(quick='every single operation of 25 kinds on 3 qubits (targets, controls, angles free) and every program of 2-3 operations over smaller sets (gates, measurements, releases, re-allocations), on 2-3 wires, two wire placements, '
                    'drawn in and out of program order, in parallel or not, before or after a following engine, default/entered outcomes, mapped measurements; LaTeX sizes and offsets as arbitrary positive numbers',
              thorough='programs of 3-4 operations')
OUTSIDE = ('text metrics of rendered fonts; controls between the targets of a LaTeX box (inside the box, pinned by a test); which wires under a box it acts on when targets are not neighbours; order of targets within a box; '
           'allocation and release in the matplotlib figure (not drawn); qubit ids that are not 0..n-1')
NOTE = 'LaTeX text is read back as TikZ nodes, edges, boxes; the matplotlib figure as its artists; printed lines as text'
ASK = ['default0', 'default1', 'asked']
GATES = ['h', 'rx', 'r', 'measure', 'cx', 'cx0', 'ccx', 'ccz', 'z', 'cz', 'ch', 'cch', 'rxx', 'crxx', 'swap', 'cswap', 'sqrtswap', 'csqrtswap', 'sqrtswapdag', 'sdag', 'dagbox', 'barrier', 'free', 'alloc', 'time']
DIMS = {'HGate': ['width', 'offset', 'pre_offset'], 'XGate': ['width', 'height', 'offset'], 'MeasureGate': ['width', 'height', 'offset', 'pre_offset'], 'AllocateQubitGate': ['width', 'height', 'offset', 'pre_offset'],
        'SwapGate': ['width', 'height', 'offset']}


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=240 if quick else 900, max_paths=60000, branch_ms=300, full_ms=4000)
    L = 2 if quick else 3
    for g in GATES:
        if g == 'time':
            continue
        yield Case('print/%s' % g, P.printer, dict(n=3, alphabet=[g], length=1, start=[0, 1, 2] if g != 'alloc' else [0]), **K)
        if g in ('alloc', 'free'):
            continue
        for p in ((0, 1, 2), (2, 0, 1)):
            yield Case('tikz/%s/%d%d%d' % ((g,) + p), P.tikz, dict(n=3, alphabet=[g], length=1, perm=p, twice=True), **K)
        if g != 'barrier':
            yield Case('mpl/%s' % g, P.mpl, dict(n=3, alphabet=[g], length=1, twice=True), **K)
            yield Case('mpl/%s/order' % g, P.mpl, dict(n=3, alphabet=[g], length=1, order=(1, 2, 0)), **K)
    for last in (True, False):
        for dl in ('batch', 'single'):
            A = dict(n=2, alphabet=['rx', 'measure', 'cx', 'free', 'alloc'], length=L, last=last, delivery=dl, answers=ASK if last else None)
            yield Case('print/%d/%s' % (last, dl), P.printer, A, **K)
            yield Case('tikz/%d/%s' % (last, dl), P.tikz, dict(A, ordered=(1,), parallel=(1,)), **K)
            yield Case('mpl/%d/%s' % (last, dl), P.mpl, A, **K)
    yield Case('print/program', P.printer, dict(n=3, alphabet=['rx', 'cx', 'swap', 'measure'], length=L), **K)
    for tag, alpha in (('swap', ['cx', 'swap', 'measure']), ('box', ['h', 'rx', 'cx']), ('wide', ['rxx', 'cx', 'z'])):
        yield Case('mpl/program/%s' % tag, P.mpl, dict(n=3, alphabet=alpha, length=L), weight=3, **K)
        yield Case('mpl/program/%s/order' % tag, P.mpl, dict(n=3, alphabet=alpha, length=L, order=(2, 0, 1)), weight=3, **K)
        for o in (0, 1):
            for p in (0, 1):
                yield Case('tikz/program/%s/%d%d' % (tag, o, p), P.tikz, dict(n=3, alphabet=alpha, length=L + 1, ordered=(o,), parallel=(p,), perm=(1, 2, 0) if o else None), weight=3, **K)
    for o in (0, 1):
        yield Case('tikz/again/%d' % o, P.tikz, dict(n=2, alphabet=['h', 'cx', 'free', 'alloc'], length=L + 1, ordered=(o,), parallel=(1,), start=[0, 1]), weight=3, **K)
        yield Case('tikz/far/%d' % o, P.tikz, dict(n=4, alphabet=['cx', 'sqrtswap'], length=L, ordered=(o,), parallel=(0, 1), perm=(3, 1, 0, 2)), weight=2, **K)
    for g in (['h', 'cx'], ['cx', 'measure'], ['swap', 'h']):
        yield Case('sizes/%s' % '+'.join(g), P.tikz, dict(n=2, alphabet=g, length=2, ordered=(1,), parallel=(0, 1), dims=DIMS), weight=2, **K)
    yield Case('sizes/three', P.tikz, dict(n=3, alphabet=['cx'], length=1, ordered=(0,), parallel=(0, 1), dims=DIMS), weight=2, **K)
