"""Fixed layouts (five-qubit, manual, bounded) and directed couplings."""
from vf import mapping as M
from vf.runner import Case

BOUNDS = dict(quick='five-qubit layout: 4 devices, 2-5 qubits, every sequence of up to 3 CNOTs mixed with uninterpreted one-qubit gates, measurements and allocations; manual (3 placements) and bounded mappers: '
                    'every sequence of up to 4 operations on up to 4 qubits; directed couplings: every direction of a chain, triangle and pair of 2-3 qubits, every sequence of up to 3 operations with symbolic angles, both control polarities and tags',
              thorough='one operation more')
OUTSIDE = 'the five-qubit mapper is documented to be run once on the entire circuit: what follows a flush is a new circuit; a bounded mapper frees places only at a flush'

DEVICES = dict(default=None, qx4=((2, 1), (4, 2), (2, 0), (3, 2), (3, 4), (1, 0)), chain=((0, 1), (1, 2), (2, 3), (3, 4)), star=((0, 2), (1, 2), (3, 2), (4, 2)))


def cases(tier):
    quick = tier == 'quick'
    D = 0 if quick else 1
    K = dict(budget=100 if quick else 1500, max_paths=1000000)
    for name, dev in DEVICES.items():
        for n in (2, 3, 4, 5):
            yield Case('layout/%s/%d' % (name, n), M.fixed, dict(kind='layout', device=dev, n=n, length={2: 4, 3: 3, 4: 2, 5: 2}[n] + D, alphabet=('cnot',)), **K)
        yield Case('layout/%s/three' % name, M.fixed, dict(kind='layout', device=dev, n=5, length=3 + D, alphabet=('cnot',), first=[(0, 1), (2, 1)]), **K)
        yield Case('layout/%s/circle' % name, M.fixed, dict(kind='layout', device=dev, n=4, length=4 + D, alphabet=('cnot',), first=[(0, 1), (1, 2), (2, 3)]), **K)
        yield Case('layout/%s/mixed' % name, M.fixed, dict(kind='layout', device=dev, n=2, length=3 + D, alphabet=('cnot', 'g1', 'measure', 'alloc')), **K)
        yield Case('layout/%s/crowded' % name, M.fixed, dict(kind='layout', device=dev, n=5, length=2, alphabet=('cnot', 'alloc')), **K)
    for name, dev in dict(identity=None, turned=(1, 2, 3, 0), far=(5, 2, 9, 7)).items():
        yield Case('manual/%s' % name, M.fixed, dict(kind='manual', device=dev, n=3, length=3 + D, alphabet=('g1', 'g2', 'ncg', 'measure', 'flush')), **K)
        yield Case('manual/%s/release' % name, M.fixed, dict(kind='manual', device=dev, n=2, length=4 + D, alphabet=('g2', 'release', 'alloc')), **K)
        yield Case('manual/%s/mixed' % name, M.fixed, dict(kind='manual', device=dev, n=4, length=2 + D, alphabet=('g1', 'mixed')), **K)
    yield Case('bounded/4/mixed', M.fixed, dict(kind='bounded', device=None, limit=4, n=3, length=3 + D, alphabet=('mixed', 'release', 'alloc')), **K)
    for limit in (2, 3, 4):
        yield Case('bounded/%d' % limit, M.fixed, dict(kind='bounded', device=None, limit=limit, n=2, length=3 + D, alphabet=('g1', 'g2', 'ncg', 'measure', 'flush')), **K)
        yield Case('bounded/%d/release' % limit, M.fixed, dict(kind='bounded', device=None, limit=limit, n=1, length=5 + D, alphabet=('g2', 'release', 'alloc', 'flush')), **K)
    for name, n, links in (('pair', 2, ((0, 1),)), ('chain', 3, ((0, 1), (2, 1))), ('triangle', 3, ((0, 1), (1, 2), (2, 0)))):
        yield Case('direction/%s' % name, M.flipper, dict(n=n, links=links, length=2 + D, alphabet=('cnot', 'ncnot', 'swap', 'ry', 'h') if name != 'triangle' else ('ncnot', 'swap')), **K)
        yield Case('direction/%s/others' % name, M.flipper, dict(n=n, links=links, length=1, alphabet=('cnot', 'ncnot', 'swap', 'ry', 'h', 'cz') + (('ccnot', 'cswap') if n > 2 else ())), **K)
    yield Case('direction/pair/long', M.flipper, dict(n=2, links=((0, 1),), length=3 + D, alphabet=('cnot', 'ncnot', 'swap', 'ry')), **K)
