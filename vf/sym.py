"""Symbolic scalars.

A Sym is a complex-valued "exponential polynomial": a finite sum  coeff * monomial * exp(i * sum_k e_k m_k)  where
monomials are products of real (or integer) symbolic variables, and the phase part has rational exponents over
monomials.  The representation is canonical (as functions of the free variables), so polynomial identities between
circuit operators are normalised before they are handed to z3.  Coefficients are binary64 complex numbers; terms with
|coefficient| < DROP are dropped (floating-point noise of the constants), which is part of the stated tolerance.
"""
import cmath
import math
import numbers
from fractions import Fraction

DROP = 1e-13
PI = math.pi


TOKENS = None        # while a list: printing a value gives SYM<k>, and the list's entry k is the value


class Unsupported(Exception):
    """The symbolic executor cannot model this operation: the path is inconclusive."""


class Var:
    __slots__ = ('name', 'kind', 'idx', 'definition', 'lo', 'hi', 'is_input', 'recip')
    # kind: 'real' | 'int'

    def __init__(self, name, kind, idx):
        self.name, self.kind, self.idx = name, kind, idx
        self.definition = None
        self.lo = self.hi = None
        self.is_input = False
        self.recip = None       # variable for 1 / this one

    def __lt__(self, o):
        return self.idx < o.idx

    def __repr__(self):
        return self.name


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise Unsupported("symbolic branch outside an exploration")
    return c


def set_ctx(c):
    _CTX[0] = c


E0 = ()


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, p in b:
        d[v] = d.get(v, 0) + p
    for v, _ in b:
        w = v.recip
        if w is not None and d.get(w):
            k = min(d[v], d[w])
            d[v] -= k
            d[w] -= k
    return tuple(sorted(((v, p) for v, p in d.items() if p), key=lambda t: t[0].idx))


def _is_int_mono(m):
    return all(v.kind == 'int' for v, _ in m)


def _padd(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for m, e in b:
        d[m] = d.get(m, 0) + e
    out = []
    for m, e in d.items():
        if _is_int_mono(m):
            e = e % 2
        if e:
            out.append((m, e))
    out.sort(key=_pkey)
    return tuple(out)


def _pkey(t):
    return tuple((v.idx, p) for v, p in t[0])


def _frac(x):
    f = Fraction(x).limit_denominator(1 << 14)
    if abs(float(f) - x) < 1e-11 * max(1.0, abs(x)):
        return f
    return Fraction(round(x, 11)).limit_denominator(10 ** 12)


def lift(x):
    if type(x) is Sym:
        return x
    if isinstance(x, Sym):
        return x
    if isinstance(x, AbsSym):
        return x.force()
    if isinstance(x, SymBool):
        return Sym.const(1.0 if bool(x) else 0.0)
    if isinstance(x, numbers.Number) or hasattr(x, '__complex__') or hasattr(x, '__float__'):
        try:
            return Sym.const(complex(x))
        except OverflowError:
            raise Unsupported("huge integer in symbolic arithmetic")
    return None


class Sym(numbers.Complex):
    __slots__ = ('t', '_h', 'isint')

    def __init__(self, terms, isint=False):
        self.t = terms
        self._h = None
        self.isint = isint

    @staticmethod
    def const(c):
        c = complex(c)
        return Sym({(E0, E0): c} if abs(c) >= DROP else {})

    @staticmethod
    def var(v):
        return Sym({(((v, 1),), E0): 1 + 0j}, isint=(v.kind == 'int'))

    # ---- structure
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and (E0, E0) in t)

    def const_value(self):
        return self.t.get((E0, E0), 0j)

    def simplify_const(self):
        """plain number if constant."""
        if self.is_const():
            c = self.const_value()
            if abs(c.imag) < DROP:
                c = c.real
                if self.isint and abs(c - round(c)) < 1e-9:
                    return int(round(c))
            return c
        return self

    def is_real(self):
        if all(not ph for _, ph in self.t):
            return all(abs(c.imag) < 1e-12 for c in self.t.values())
        d = self - self.conjugate()
        return all(abs(c) < 1e-11 for c in lift(d).t.values())

    def variables(self):
        s = set()
        for m, ph in self.t:
            for v, _ in m:
                s.add(v)
            for mm, _ in ph:
                for v, _ in mm:
                    s.add(v)
        return s

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for k, c in b.items():
            n = r.get(k, 0) + c
            if abs(n) < DROP:
                r.pop(k, None)
            else:
                r[k] = n
        return Sym(r, self.isint and _ii(o))

    __radd__ = __add__

    def __neg__(self):
        return Sym({k: -c for k, c in self.t.items()}, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        r = {}
        for (m1, p1), c1 in self.t.items():
            for (m2, p2), c2 in o.t.items():
                k = (_mmul(m1, m2), _padd(p1, p2))
                r[k] = r.get(k, 0) + c1 * c2
        r = {k: c for k, c in r.items() if abs(c) >= DROP}
        return Sym(r, self.isint and _ii(o))

    __rmul__ = __mul__

    def inverse(self):
        if self.is_const():
            c = self.const_value()
            if c == 0:
                raise ZeroDivisionError("symbolic zero")
            return Sym.const(1 / c)
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            if not m:
                return Sym({(E0, tuple((mm, -e) for mm, e in p)): 1 / c})._renorm()
        return ctx().define_inverse(self)

    def _renorm(self):
        r = {}
        for (m, p), c in self.t.items():
            k = (m, _padd(p, ()) if not p else _padd((), p) if False else _norm_phase(p))
            r[k] = r.get(k, 0) + c
        return Sym(r, self.isint)

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if o.is_const():
            c = o.const_value()
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return Sym({k: v / c for k, v in self.t.items()})
        if not self.t:
            ctx().require_nonzero(o)
            return Sym({})
        # proportional?
        r = _ratio(self, o)
        if r is not None:
            ctx().require_nonzero(o)
            return Sym.const(r)
        q = poly_div(self, o)
        if q is not None:
            ctx().require_nonzero(o)
            return q
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, n, mod=None):
        if mod is not None:
            raise Unsupported("pow with modulus")
        if isinstance(n, Sym):
            n = n.simplify_const()
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return (self ** (-n)).inverse()
            r = Sym.const(1)
            r.isint = self.isint
            for _ in range(n):
                r = r * self
            return r
        if n == 0.5:
            return sym_sqrt(self)
        raise Unsupported("symbolic power")

    def __rpow__(self, base):
        if isinstance(base, int) and base == 2 and self.isint:
            return 2 ** self.__index__()
        raise Unsupported("symbolic exponent")

    def __mod__(self, o):
        return ctx().modulo(self, o)

    def __floordiv__(self, o):
        return ctx().floordiv(self, o)

    def __rmod__(self, o):
        return ctx().modulo(lift(o), self)

    def __rfloordiv__(self, o):
        return ctx().floordiv(lift(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    # ---- bit operations on symbolic integers: concretise (forks on the value)
    def _bits(self):
        return self.__index__()

    def __and__(self, o):
        return self._bits() & o

    def __rand__(self, o):
        return o & self._bits()

    def __or__(self, o):
        if isinstance(o, (int, Sym)):
            return self._bits() | o
        return NotImplemented

    def __ror__(self, o):
        return o | self._bits()

    def __xor__(self, o):
        return self._bits() ^ o

    def __rxor__(self, o):
        return o ^ self._bits()

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rlshift__(self, o):
        return o << self._bits()

    def __rrshift__(self, o):
        return o >> self._bits()

    def __index__(self):
        c = self.simplify_const()
        if isinstance(c, int):
            return c
        if isinstance(c, Sym) and c.isint:
            return ctx().concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    __int__ = None

    # ---- complex structure
    def conjugate(self):
        r = {}
        for (m, p), c in self.t.items():
            k = (m, _norm_phase(tuple((mm, -e) for mm, e in p)))
            r[k] = r.get(k, 0) + c.conjugate()
        return Sym(r, self.isint)

    conj = conjugate

    @property
    def real(self):
        if all(not ph for _, ph in self.t):
            return Sym({k: complex(c.real) for k, c in self.t.items() if abs(c.real) >= DROP}, self.isint)
        return (self + self.conjugate()) * 0.5

    @property
    def imag(self):
        if all(not ph for _, ph in self.t):
            return Sym({k: complex(c.imag) for k, c in self.t.items() if abs(c.imag) >= DROP})
        return (self - self.conjugate()) * (-0.5j)

    def __abs__(self):
        if self.is_const():
            return abs(self.const_value())
        return AbsSym(self)

    def __complex__(self):
        if self.is_const():
            return self.const_value()
        raise Unsupported("C-level complex() of a symbolic value")

    def __float__(self):
        if self.is_const():
            return self.const_value().real
        raise Unsupported("C-level float() of a symbolic value")

    def __trunc__(self):
        return ctx().trunc(self)

    def __floor__(self):
        return ctx().floordiv(self, 1)

    def __ceil__(self):
        return -ctx().floordiv(-self, 1)

    def __round__(self, n=None):
        return sym_round(self, n)

    # numpy object-array hooks
    def exp(self):
        return sym_exp(self)

    def cos(self):
        return sym_cos(self)

    def sin(self):
        return sym_sin(self)

    def sqrt(self):
        return sym_sqrt(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # ---- comparisons
    def __eq__(self, o):
        if isinstance(o, (str, bytes, tuple, list, dict, set, frozenset)) or o is None:
            return False
        try:
            o = lift(o)
        except (TypeError, ValueError):
            return NotImplemented
        if o is None:
            return NotImplemented
        d = self - o
        if d.is_const():
            return abs(d.const_value()) < 1e-12
        return SymBool.eq0(d)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else r.negate()

    def _cmp(self, o, op):
        if isinstance(o, AbsSym):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        d = self - o
        if d.is_const():
            c = d.const_value().real
            if abs(c) < 1e-12:
                c = 0.0
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        if not d.is_real():
            raise TypeError("ordering of complex numbers")
        return SymBool.ineq(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        if self.is_const():
            return abs(self.const_value()) >= 1e-12
        return bool(SymBool.eq0(self).negate())

    def __hash__(self):
        c = self.simplify_const()
        if not isinstance(c, Sym):
            return hash(c)
        return hash(self._poly())

    def __repr__(self):
        if TOKENS is not None:
            if hasattr(TOKENS, 'token'):
                return TOKENS.token(self)
            TOKENS.append(self)
            return 'SYM%d' % (len(TOKENS) - 1)
        return self._poly()

    def _poly(self):
        parts = []
        for (m, p), c in sorted(self.t.items(), key=lambda kv: (tuple((v.idx, q) for v, q in kv[0][0]),
                                                                 tuple((_pkey(t), t[1]) for t in kv[0][1]))):
            cc = c.real if abs(c.imag) < DROP else c
            s = repr(cc) if isinstance(cc, complex) else '%.12g' % cc
            for v, q in m:
                s += '*' + v.name + ('^%d' % q if q != 1 else '')
            if p:
                s += '*e^i(' + '+'.join('%s*%s' % (e, '*'.join(v.name for v, _ in mm)) for mm, e in p) + ')'
            parts.append(s)
        return '(' + ' + '.join(parts or ['0']) + ')'

    __str__ = __repr__

    def __format__(self, spec):
        if self.isint and spec and spec[-1] in 'bdxo':
            return format(self.__index__(), spec)
        return repr(self)

    def is_integer(self):
        return self.isint


def _ii(o):
    return o.isint or all((k == (E0, E0)) and abs(c.imag) < DROP and abs(c.real - round(c.real)) < 1e-12
                          for k, c in o.t.items())


def _norm_phase(p):
    out = []
    for m, e in p:
        if _is_int_mono(m):
            e = e % 2
        if e:
            out.append((m, e))
    out.sort(key=_pkey)
    return tuple(out)


def _ratio(a, b):
    if len(a.t) != len(b.t) or not b.t:
        return None
    k0 = next(iter(b.t))
    if k0 not in a.t:
        return None
    r = a.t[k0] / b.t[k0]
    for k, c in b.t.items():
        if k not in a.t or abs(a.t[k] - r * c) > 1e-12 * max(1, abs(a.t[k])):
            return None
    return r


def common_phase(z):
    """(angle form, real Sym rho) with z == e^{i angle} rho, or None"""
    ks = list(z.t.items())
    if len(ks) > 8:
        return None
    (m1, p1), c1 = ks[0]
    for (m2, p2), c2 in ks:
        if m1 != m2 or abs(abs(c1) - abs(c2)) > 1e-12:
            continue
        d = {}
        for q in (p1, p2):
            for m, e in q:
                d[m] = d.get(m, 0) + Fraction(e) / 2
        ph = tuple(sorted(((m, e) for m, e in d.items() if e), key=_pkey))
        if any(_is_int_mono(m) for m, _ in ph):
            continue
        c = cmath.phase(c1 * c2) / 2
        rho = z * Sym({(E0, tuple((m, -e) for m, e in ph)): cmath.exp(-1j * c)})
        if rho.is_real():
            a = Sym({})
            for m, e in ph:
                a = a + Sym({(m, E0): complex(float(e))})
            rho = (rho + rho.conjugate()) * 0.5
            return a + c, rho
    return None


class AbsSym(numbers.Real):
    """|z| of a symbolic value, kept symbolic for comparisons with constants."""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def sq(self):
        return (self.z * self.z.conjugate()).real

    def force(self):
        """as a Sym (forks on the sign for real values)."""
        z = self.z
        if z.is_real():
            if len(z.t) and bool(z >= 0):
                return z
            return -z
        if len(z.t) == 1:
            ((m, p), c), = z.t.items()
            r = Sym({(m, E0): complex(abs(c))})
            return r if bool(r >= 0) else -r
        f = common_phase(z)
        if f is not None:
            return f[1] if bool(f[1] >= 0) else -f[1]
        return sym_sqrt(self.sq())

    def _cmp(self, o, op):
        if isinstance(o, AbsSym):
            o2 = o.sq()
            d = self.sq() - o2
        else:
            if not isinstance(o, Sym):
                o = float(o)
                if o < 0:
                    return op in ('>', '>=')
                if 0 < o <= 1e-7 or o == 0 and self.z.is_real():
                    return SymBool.absineq(self.z, o, op)
                if self.z.is_real():
                    return lift(self.force())._cmp(o, op)
                d = self.sq() - o * o
            else:
                if self.z.is_real():
                    return self.force()._cmp(o, op)
                if not bool(o >= 0):
                    return op in ('>', '>=')
                d = self.sq() - o * o
        d = lift(d)
        if d.is_const():
            c = d.const_value().real
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        return SymBool.ineq(d, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self.z == 0
        return self.force() == o

    def __hash__(self):
        return hash(self.z)

    def __bool__(self):
        return bool(self.z)

    def __pow__(self, n, mod=None):
        if n == 2:
            return self.sq()
        return self.force() ** n

    def __mul__(self, o):
        if isinstance(o, AbsSym):
            if o.z is self.z or (o.z - self.z).is_const() and abs((o.z - self.z).const_value()) < DROP:
                return self.sq()
            return AbsSym(self.z * o.z)
        return self.force() * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '|%r|' % (self.z,)

    def conjugate(self):
        return self


def _abs_fwd(name):
    def f(self, *a):
        return getattr(self.force(), name)(*a)
    f.__name__ = name
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__truediv__', '__rtruediv__', '__rpow__', '__mod__', '__rmod__',
           '__floordiv__', '__rfloordiv__', '__neg__', '__pos__', '__trunc__', '__floor__', '__ceil__', '__round__',
           '__float__', '__complex__', 'sqrt', 'exp', 'cos', 'sin'):
    setattr(AbsSym, _n, _abs_fwd(_n))
AbsSym.__abs__ = lambda self: self
AbsSym.__abstractmethods__ = frozenset()
Sym.__abstractmethods__ = frozenset()


class SymBool:
    """A symbolic truth value.  kind: 'eq0' (poly), 'ineq' (poly, op), 'abs' (poly, bound, op), 'z3' (expr)"""
    __slots__ = ('kind', 'a', 'neg')

    def __init__(self, kind, a, neg=False):
        self.kind, self.a, self.neg = kind, a, neg

    @staticmethod
    def eq0(p):
        return SymBool('eq0', (p,))

    @staticmethod
    def ineq(p, op):
        return SymBool('ineq', (p, op))

    @staticmethod
    def absineq(p, bound, op):
        return SymBool('abs', (p, bound, op))

    @staticmethod
    def expr(e):
        return SymBool('z3', (e,))

    def negate(self):
        return SymBool(self.kind, self.a, not self.neg)

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __invert__(self):
        return self.negate()

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def all(self):
        return bool(self)

    def __repr__(self):
        return 'SymBool(%s%s,%s)' % ('not ' if self.neg else '', self.kind, self.a)


# ------------------------------------------------------------------ elementary functions
def sym_round(x, n=None):
    x = lift(x)
    if x.is_const():
        return round(x.const_value().real, n) if n is not None else round(x.const_value().real)
    if x.isint:
        return x
    if n is not None and n >= 9:
        return x
    return ctx().rounding(x, n)


def sym_exp(z):
    """exp(z) for z = real constant + i * (real linear/polynomial form without phases)."""
    z = lift(z)
    if z.is_const():
        return cmath.exp(z.const_value())
    phase = {}
    const = 0j
    for (m, p), c in z.t.items():
        if p:
            raise Unsupported("exp of a trigonometric expression")
        if not m:
            const += c
            continue
        if abs(c.real) > DROP:
            raise Unsupported("real exponential of a symbolic value")
        y = c.imag
        if _is_int_mono(m):
            e = _frac(y / PI)
        else:
            e = _frac(y)
        phase[m] = phase.get(m, 0) + e
    ph = _norm_phase(tuple(phase.items()))
    return Sym({(E0, ph): cmath.exp(const)})


def sym_cos(x):
    x = lift(x)
    if x.is_const():
        return math.cos(x.const_value().real)
    e = ctx().trig_of(x)
    if e is not None:
        return e[0]
    u = sym_exp(1j * x)
    return (u + u.conjugate()) * 0.5


def sym_sin(x):
    x = lift(x)
    if x.is_const():
        return math.sin(x.const_value().real)
    e = ctx().trig_of(x)
    if e is not None:
        return e[1]
    u = sym_exp(1j * x)
    return (u - u.conjugate()) * (-0.5j)


def sym_sqrt(x):
    x = lift(x)
    if x.is_const():
        c = x.const_value()
        return math.sqrt(c.real) if abs(c.imag) < DROP and c.real >= 0 else cmath.sqrt(c)
    return ctx().define_sqrt(x)


def _lead(p, gens):
    """leading term of p in the lexicographic order given by gens (phase monomials, then variables)"""
    def key(k):
        d, ph = dict(k[0]), dict(k[1])
        return tuple(ph.get(g, 0) if isinstance(g, tuple) else d.get(g, 0) for g in gens)
    k = max(p.t, key=key)
    return k, p.t[k]


def _gens(*ps):
    out = []
    for p in ps:
        for m, ph in p.t:
            for mm, _ in ph:
                if mm not in out:
                    if _is_int_mono(mm):
                        return None
                    out.append(mm)
    vs = []
    for p in ps:
        for m, ph in p.t:
            for v, _ in m:
                if v not in vs:
                    vs.append(v)
    return out + vs


def _clean(p, scale):
    return Sym({k: c for k, c in p.t.items() if abs(c) > 1e-12 * scale})


def poly_div(a, b, limit=24):
    """q with q * b == a exactly (as exponential polynomials), or None"""
    gens = _gens(a, b)
    if gens is None or len(a.t) > 64 or len(b.t) > 16 or len(b.t) < 2:
        return None
    (bm, bp), bc = _lead(b, gens)
    scale = max(abs(c) for c in a.t.values())
    q, r = Sym({}), a
    for _ in range(limit):
        if not r.t:
            return q
        (m, ph), c = _lead(r, gens)
        d = dict(m)
        for v, e in bm:
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = Sym({(tuple(sorted(((v, e) for v, e in d.items() if e), key=lambda x: x[0].idx)), _padd(ph, tuple((mm, -e) for mm, e in bp))): c / bc})
        q = q + t
        r = _clean(r - t * b, scale)
    return None


def poly_sqrt(x, limit=16):
    """a real q with q * q == x exactly, or None"""
    gens = _gens(x)
    if gens is None or len(x.t) > 64:
        return None
    (m, ph), c = _lead(x, gens)
    if any(e % 2 for _, e in m):
        return None
    lm, lp, lc = tuple((v, e // 2) for v, e in m), tuple((mm, e / 2) for mm, e in ph), cmath.sqrt(c)
    scale = max(abs(v) for v in x.t.values())
    q = Sym({(lm, lp): lc})
    l = q
    r = _clean(x - q * q, scale)
    for _ in range(limit):
        if not r.t:
            break
        (m, ph), c = _lead(r, gens)
        d = dict(m)
        for v, e in lm:
            d[v] = d.get(v, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = Sym({(tuple(sorted(((v, e) for v, e in d.items() if e), key=lambda z: z[0].idx)), _padd(ph, tuple((mm, -e) for mm, e in lp))): c / (2 * lc)})
        q = q + t
        r = _clean(x - q * q, scale)
    if r.t or not q.is_real():
        return None
    return q
