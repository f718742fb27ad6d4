"""The simulator back-end: operations and queries in terms of the program's qubits."""
from vf import backend as B
from vf.runner import Case

NEEDS_CPP = True
BOUNDS = dict(quick='both kernels; 2-4 qubits in an arbitrary symbolic state; one or two operations (symbolic matrices and angles, arithmetic gates) with 0-2 controls of either polarity, with and without gate fusion, '
                    'an automatic replacer or a mapper (4 relabellings); every query on every ordered register; measurements in every order with symbolic random numbers',
              thorough='5 qubits, three operations')
OUTSIDE = 'longer programs (the kernels are checked in S01-S05); floating-point rounding'
NOTE = 'the state is set and read through the back-end\'s own public queries'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=20000, branch_ms=300)
    P = B.PERMS
    for kernel in ('py', 'cpp'):
        for ops in ([('one', 0)], [('one', 1)], [('one', 2)], [('two', 0)], [('two', 1)], [('x', 2)], [('rx', 1)], [('ph', 1)], [('swap', 1)], [('add', 0)], [('add', 1)], [('user', 0)], [('mod', 1)], [('three', 0)]):
            n = 3
            for perm in (None, P[2], P[4]):
                yield Case('gate/%s/%s%d/%s' % (kernel, ops[0][0], ops[0][1], ''.join(map(str, perm or ()))), B.gates, dict(kernel=kernel, n=n, ops=ops, perm=perm), weight=3, **K)
            if ops[0][0] in ('x', 'rx', 'ph'):
                yield Case('gate/%s/%s%d/replacer' % (kernel, ops[0][0], ops[0][1]), B.gates, dict(kernel=kernel, n=n, ops=ops, replacer=True), weight=3, **K)
        for ops in ([('one', 1), ('two', 0)], [('add', 1), ('one', 0)], [('rx', 1), ('swap', 0)], [('user', 0), ('x', 1)]):
            for fusion in (False, True):
                for perm in (None, P[3]):
                    yield Case('two gates/%s/%s/%s/%s' % (kernel, '+'.join('%s%d' % o for o in ops), 'fusion' if fusion else '-', ''.join(map(str, perm or ()))), B.gates,
                               dict(kernel=kernel, n=3, ops=ops, perm=perm, fusion=fusion), weight=4, **K)
        for perm in P:
            tag = ''.join(map(str, perm or ()))
            for n in (2, 3) if quick else (2, 3, 4):
                yield Case('queries/%s/%d/%s' % (kernel, n, tag), B.queries, dict(kernel=kernel, n=n, perm=perm), weight=n, **K)
            for what in ('operator', 'set', 'collapse'):
                yield Case('change/%s/%s/%s' % (kernel, what, tag), B.change, dict(kernel=kernel, n=3, perm=perm, what=what), weight=3, **K)
            yield Case('measure/%s/2/%s' % (kernel, tag), B.measure, dict(kernel=kernel, n=2, perm=perm), weight=3, **K)
            yield Case('measure/%s/3/%s' % (kernel, tag), B.measure, dict(kernel=kernel, n=3, perm=perm, support=(1, 4, 6)), weight=3, **K)
            yield Case('unknown/%s/%s' % (kernel, tag), B.unknown, dict(kernel=kernel, perm=perm), **K)
        yield Case('queries/%s/fusion' % kernel, B.queries, dict(kernel=kernel, n=2, perm=None, fusion=True), **K)
        yield Case('available/%s' % kernel, B.available, dict(kernel=kernel), **K)
        for which in ('wide', 'size', 'nomatrix', 'controlled measure', 'negatively controlled measure'):
            yield Case('refuse/%s/%s' % (kernel, which), B.refuse, dict(kernel=kernel, which=which), **K)
