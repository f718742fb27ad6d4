"""Pauli-operator algebra (QubitOperator): every program of operators and in-place operators denotes the matrix it spells."""
import itertools

import numpy as np

from projectq import ops
from projectq.ops import QubitOperator

from vf import quantum as Q
from vf.runner import Case

BOUNDS = dict(quick='operators of up to two words over 2 qubits (all 16 x 16 pairs) and over 3 qubits (selected), arbitrary complex coefficients (also ones that cancel); '
                    'every single statement and every ordered pair of statements of {+, -, *, negation, scalar * and /, and the in-place forms} on two variables, aliased operands included; '
                    'comparison and compression with arbitrary coefficients around the tolerance',
              thorough='all pairs of words over 3 qubits; three statements')
OUTSIDE = 'longer programs; qubit numbers beyond 12; floating-point rounding; hashing (pinned to the printed form by the test suite)'
NOTE = 'the matrix of an operator is computed from its terms with fixed numpy Pauli matrices'

PM = {'I': np.eye(2), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}


def words(n):
    return [tuple((i, c) for i, c in enumerate(w) if c != 'I') for w in itertools.product('IXYZ', repeat=n)]


def word_matrix(w, n):
    m = np.eye(1)
    d = dict(w)
    for i in range(n):
        m = np.kron(PM[d.get(i, 'I')], m)
    return m


class M:
    """sum of coefficient * constant matrix, as a coefficient per entry"""

    def __init__(self, e, n):
        self.e, self.n = e, n

    @classmethod
    def of(cls, terms, n):
        e = [[0.0] * (1 << n) for _ in range(1 << n)]
        for w, c in terms.items():
            m = word_matrix(w, n)
            for i, j in zip(*np.nonzero(m)):
                e[i][j] = e[i][j] + c * complex(m[i, j])
        return cls(e, n)

    def map2(self, o, f):
        return M([[f(x, y) for x, y in zip(a, b)] for a, b in zip(self.e, o.e)], self.n)

    def __add__(self, o):
        return self.map2(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self.map2(o, lambda x, y: x - y)

    def times(self, s):
        return M([[x * s if not _zero(x) else 0.0 for x in a] for a in self.e], self.n)

    def __matmul__(self, o):
        k = range(1 << self.n)
        r = [[0.0] * (1 << self.n) for _ in k]
        for i in k:
            for l in k:
                x = self.e[i][l]
                if _zero(x):
                    continue
                for j in k:
                    y = o.e[l][j]
                    if not _zero(y):
                        r[i][j] = r[i][j] + x * y
        return M(r, self.n)


def _zero(x):
    return isinstance(x, (int, float, complex)) and x == 0


def inspect(h, label, op, want, n):
    h.true('%s is an operator' % label, type(op) is QubitOperator)
    seen = set()
    for w in op.terms:
        idx = [q for q, _ in w]
        h.true('%s: terms are sorted words' % label, isinstance(w, tuple) and idx == sorted(set(idx)) and all(a in ('X', 'Y', 'Z') for _, a in w) and w not in seen, w)
        seen.add(w)
    got = M.of(op.terms, n)
    h.zero(label, [x - y for a, b in zip(got.e, want.e) for x, y in zip(a, b)])


# a statement works on the variables a, b (operators) and s (scalar); it returns the new values of the variables it assigns
def _inplace(fn):
    def run(v):
        old = v['a']
        fn(v)
        return old
    return run


def st(name, op, mat, scalar=False):
    return (name, op, mat)


def setter(var, fn):
    def run(v):
        v[var] = fn(v)
    return run


def ip_add(x, y):
    def run(v):
        v[x] += v[y]
    return run


def ip_sub(x, y):
    def run(v):
        v[x] -= v[y]
    return run


def ip_mul(x, y):
    def run(v):
        v[x] *= v[y]
    return run


def ip_div(v):
    v['a'] /= v['s']


def ipm_mul(x, y):
    def run(v):
        v[x] = v[x].times(v[y]) if y == 's' else v[x] @ v[y]
    return run


STATEMENTS = {
    'a = a + b': (setter('a', lambda v: v['a'] + v['b']), setter('a', lambda v: v['a'] + v['b'])),
    'a = b + a': (setter('a', lambda v: v['b'] + v['a']), setter('a', lambda v: v['b'] + v['a'])),
    'a = a - b': (setter('a', lambda v: v['a'] - v['b']), setter('a', lambda v: v['a'] - v['b'])),
    'b = a - b': (setter('b', lambda v: v['a'] - v['b']), setter('b', lambda v: v['a'] - v['b'])),
    'a = a * b': (setter('a', lambda v: v['a'] * v['b']), setter('a', lambda v: v['a'] @ v['b'])),
    'a = b * a': (setter('a', lambda v: v['b'] * v['a']), setter('a', lambda v: v['b'] @ v['a'])),
    'a = a * a': (setter('a', lambda v: v['a'] * v['a']), setter('a', lambda v: v['a'] @ v['a'])),
    'a = -a': (setter('a', lambda v: -v['a']), setter('a', lambda v: v['a'].times(-1.0))),
    'a = a * s': (setter('a', lambda v: v['a'] * v['s']), setter('a', lambda v: v['a'].times(v['s']))),
    'a = s * a': (setter('a', lambda v: v['s'] * v['a']), setter('a', lambda v: v['a'].times(v['s']))),
    'a = a / s': (setter('a', lambda v: v['a'] / v['s']), setter('a', lambda v: v['a'].times(1.0 / v['s']))),
    'b = s * a': (setter('b', lambda v: v['s'] * v['a']), setter('b', lambda v: v['a'].times(v['s']))),
    'b = a + a': (setter('b', lambda v: v['a'] + v['a']), setter('b', lambda v: v['a'] + v['a'])),
    'b = a - a': (setter('b', lambda v: v['a'] - v['a']), setter('b', lambda v: v['a'] - v['a'])),
    'a += b': (ip_add('a', 'b'), ip_add('a', 'b')),
    'a -= b': (ip_sub('a', 'b'), ip_sub('a', 'b')),
    'a *= b': (ip_mul('a', 'b'), ipm_mul('a', 'b')),
    'a *= s': (ip_mul('a', 's'), ipm_mul('a', 's')),
    'a /= s': (ip_div, setter('a', lambda v: v['a'].times(1.0 / v['s']))),
    'a += a': (ip_add('a', 'a'), ip_add('a', 'a')),
    'a -= a': (ip_sub('a', 'a'), ip_sub('a', 'a')),
    'a *= a': (ip_mul('a', 'a'), ipm_mul('a', 'a')),
}


def build(terms):
    o = QubitOperator()
    for w, c in terms.items():
        o += QubitOperator(w, c)
    return o


def _terms(h, n, name, w0, k):
    ws = words(n)
    c = [h.cplx('%s%d' % (name, i)) for i in range(k)]
    if k == 0:
        return {}
    d = {ws[w0]: c[0]}
    if k > 1:
        d[ws[(5 * w0 + 3) % len(ws)]] = c[1]
    return d


def program(h, stmts, n, ks, pairs=None, dependent=False):
    """two operators with arbitrary coefficients; the statements are executed; every variable denotes its matrix after every statement"""
    if pairs:
        wa, wb = h.choice('words', pairs)
    else:
        wa = h.choice('word a', range(4 ** n))
        wb = h.choice('word b', range(4 ** n))
    ta, tb = _terms(h, n, 'a', wa, ks[0]), _terms(h, n, 'b', wb, ks[1])
    if dependent:       # coefficients that cancel: b = +- a on the words they share
        f = h.choice('b is', [1.0, -1.0])
        tb = {w: f * c for w, c in ta.items()}
    v = dict(a=build(ta), b=build(tb))
    m = dict(a=M.of(ta, n), b=M.of(tb, n))
    s = None
    if any('s' in x for x in stmts):
        s = h.cplx('s')
        if any('/' in x for x in stmts):
            s = h.choice('divisor', [2.0, -0.5j, 0.4 + 0.3j])
        elif h.choice('scalar', ['complex', 'real', 'int']) != 'complex':
            s = h.real('sr') if h.choice('kind', ['real', 'int']) == 'real' else 3
    v['s'] = m['s'] = s
    for x in stmts:
        keep = {k: (v[k], dict(v[k].terms)) for k in 'ab'}
        STATEMENTS[x][0](v)
        STATEMENTS[x][1](m)
        for k in 'ab':
            inspect(h, '%s after %s' % (k, x), v[k], m[k], n)
            obj, terms = keep[k]
            target, inplace = x[0], x[2] in '+-*/' and x[3] == '='
            if k != target or not inplace:
                h.true('%s: operand %s is left alone' % (x, k), list(obj.terms) == list(terms) and all(obj.terms[w] is terms[w] for w in terms))
            if k == target and inplace:
                h.true('%s works in place' % x, v[k] is obj)


def construct(h, form):
    """terms given as strings or tuples in any order denote the word; wide registers"""
    idx = h.choice('qubits', [p for k in (1, 2, 3) for p in itertools.permutations((0, 2, 11), k)])
    lets = h.choice('letters', list(itertools.product('XYZ', repeat=len(idx))))
    c = h.cplx('c')
    if form == 'string':
        op = QubitOperator(' '.join('%s%d' % (a, i) for i, a in zip(idx, lets)), c)
    else:
        op = QubitOperator(tuple(zip(idx, lets)), c)
    want = tuple(sorted(zip(idx, lets)))
    h.true('one term', list(op.terms) == [want])
    h.zero('coefficient', [op.terms[want] - c])


def refuse(h):
    E = (ValueError, ops._qubit_operator.QubitOperatorError, TypeError)
    for i, t in enumerate(['X', 'A0', 'X-1', 'X0 B1', 'Q3', ((0, 'A'),), ((-1, 'X'),), (('0', 'X'),), ((0, 'X', 1),), 5, [(0, 'X')], (0,)]):
        h.raises('invalid term %r' % (t,), E, lambda t=t: QubitOperator(t))
    h.raises('coefficient', E, lambda: QubitOperator('X0', 'a'))
    o = QubitOperator('X0')
    for x in ('1', None, [1]):
        h.raises('* %r' % (x,), TypeError, lambda: o * x)
        h.raises('/ %r' % (x,), TypeError, lambda: o / x)
        h.raises('+ %r' % (x,), TypeError, lambda: o + x)
        h.raises('- %r' % (x,), TypeError, lambda: o - x)
    h.raises('+ number', TypeError, lambda: o + 1)
    h.raises('- number', TypeError, lambda: o - 1.0)
    h.raises('/ operator', TypeError, lambda: o / o)
    a = h.cplx('a')
    z = QubitOperator()
    h.true('the zero operator has no terms', z.terms == {})
    h.true('identity', list(QubitOperator('', a).terms) == [()] and list(QubitOperator((), a).terms) == [()])


def compress(h, tol):
    """terms within the tolerance of zero go, imaginary parts within the tolerance of zero go, the rest stays"""
    from fractions import Fraction
    re, im = h.real('re', -1, 1), h.real('im', -1, 1)
    re2 = h.real('re2', -1, 1)
    op = QubitOperator('X0', re + 1j * im) + QubitOperator('Y0 Z1', re2)
    op.compress(abs_tol=tol) if tol is not None else op.compress()
    t = 1e-12 if tol is None else tol
    tx, ty = ((0, 'X'),), ((0, 'Y'), (1, 'Z'))
    for k in op.terms:
        h.true('no new terms', k in (tx, ty))
    h.true('small term removed, others kept', (ty in op.terms) == bool(abs(re2) > t))
    if ty in op.terms:
        h.zero('kept coefficient', [op.terms[ty] - re2])
    if abs(im) <= t:
        h.true('small term removed, others kept', (tx in op.terms) == bool(abs(re) > t))
        if tx in op.terms:
            h.zero('imaginary part dropped', [op.terms[tx] - re])
    else:
        h.true('complex term kept', tx in op.terms)
        h.zero('kept coefficient', [op.terms[tx] - (re + 1j * im)])


def close(h, rel, abs_, shared, swap):
    """isclose compares the coefficient maps, missing terms as zero"""
    x, y = h.real('x', -2, 2), h.real('y', -2, 2)
    a, b = QubitOperator('Z1', 0.5), QubitOperator('Z1', 0.5)
    a += QubitOperator('X0', x)
    if shared:
        b += QubitOperator('X0', y)
        want = bool(abs(x - y) <= abs_) or bool(abs(x - y) <= rel * abs(x)) or bool(abs(x - y) <= rel * abs(y))
    else:
        b += QubitOperator('X1', y)
        want = bool(abs(x) <= abs_) and bool(abs(y) <= abs_)
    if swap:
        a, b = b, a
    got = a.isclose(b, rel_tol=rel, abs_tol=abs_)
    h.true('isclose', bool(got) == want, '%r' % (got,))


def equal(h):
    """equality is equality of the coefficient maps"""
    x, y = h.cplx('x'), h.cplx('y')
    a, b = QubitOperator('X0 Y1', x), QubitOperator('X0 Y1', y)
    d = x - y
    same = bool(d == 0)
    h.true('==', bool(a == b) == same)
    h.true('!=', bool(a != b) != same)
    h.true('other word', not (a == QubitOperator('X0 Z1', x)))
    h.true('other type', not (QubitOperator('X0') == ops.X))
    c = QubitOperator('Z0', 2.0)
    h.true('order of the terms', QubitOperator('X0', x) + c == c + QubitOperator('X0', x))


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=2, thin_wrap=0, budget=60 if quick else 900, max_paths=50000, fastthin=True)
    for x in STATEMENTS:
        for ks in ((1, 1), (2, 1), (1, 2)) if quick else ((1, 1), (2, 1), (1, 2), (2, 2)):
            yield Case('statement/%s/%s' % (x, ks), program, dict(stmts=[x], n=2, ks=ks), weight=2, **K)
        yield Case('statement/%s/cancel' % x, program, dict(stmts=[x], n=2, ks=(2, 2), pairs=[(w, w) for w in range(16)], dependent=True), **K)
        yield Case('statement/%s/zero' % x, program, dict(stmts=[x], n=2, ks=(2, 0), pairs=[(w, w) for w in range(16)]), **K)
        yield Case('statement/%s/zero2' % x, program, dict(stmts=[x], n=2, ks=(0, 2), pairs=[(w, w) for w in range(16)]), **K)
        p3 = [(w, (7 * w + 11 * i) % 64) for w in range(0, 64, 3 if quick else 1) for i in range(1 if quick else 64)]
        yield Case('statement/%s/3 qubits' % x, program, dict(stmts=[x], n=3, ks=(1, 1), pairs=p3), weight=2, **K)
    for x, y in itertools.product(STATEMENTS, repeat=2):
        if x[0] == 'b' and 'b' not in y:
            continue
        yield Case('pair/%s; %s' % (x, y), program, dict(stmts=[x, y], n=2, ks=(2, 1), pairs=[(3 * i % 16, (7 * i + 5) % 16) for i in range(1 if quick else 16)]), **K)
    if not quick:
        for i, t in enumerate(itertools.product(STATEMENTS, repeat=3)):
            if i % 5 == 0:
                yield Case('triple/%s' % '; '.join(t), program, dict(stmts=list(t), n=2, ks=(1, 1), pairs=[(i % 16, (3 * i + 1) % 16)]), **K)
    for f in ('string', 'tuple'):
        yield Case('construct/%s' % f, construct, dict(form=f), **K)
    yield Case('refuse', refuse, {}, **K)
    for t in (None, 0.25, 0.0):
        yield Case('compress/%s' % t, compress, dict(tol=t), **K)
    for rel, ab in ((0.1, 0.2), (0.0, 0.3), (0.3, 0.0)):
        for shared in (True, False):
            for swap in (False, True):
                yield Case('close/%s/%s/%s/%s' % (rel, ab, shared, swap), close, dict(rel=rel, abs_=ab, shared=shared, swap=swap), **K)
    yield Case('equal', equal, {}, **K)
