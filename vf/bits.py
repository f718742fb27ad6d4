"""Symbolic non-float integers as bit vectors of sufficient width (Python integer semantics, no overflow)."""
import z3

from .sym import SymBool, Unsupported, ctx


def _bl(k):
    """signed width of a constant"""
    return (k if k >= 0 else ~k).bit_length() + 1


class Bits:
    """integer whose value is the signed bit vector z; nn: known to be non-negative"""
    __slots__ = ('z', 'nn')
    isint = True

    def __init__(self, z, nn=False):
        self.z, self.nn = z, nn

    @classmethod
    def var(cls, z, n):
        return cls(z3.ZeroExt(1, z), True)

    @property
    def w(self):
        return self.z.size()

    def ext(self, w):
        d = w - self.z.size()
        return z3.SignExt(d, self.z) if d > 0 else self.z

    @staticmethod
    def lift(x):
        if isinstance(x, Bits):
            return x
        if isinstance(x, SymBool):
            return Bits(z3.If(x_expr(x), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), True)
        if isinstance(x, (bool, int)):
            x = int(x)
            return Bits(z3.BitVecVal(x, _bl(x)), x >= 0)
        if hasattr(x, '__index__') and type(x).__module__ == 'numpy':
            return Bits.lift(int(x))
        return None

    @staticmethod
    def make(z, nn):
        z = z3.simplify(z)
        if z3.is_bv_value(z):
            return z.as_signed_long()
        return Bits(z, nn)

    def shrink(self, hi):
        """known to be in [0, hi]"""
        w = hi.bit_length() + 1
        return Bits(z3.Extract(w - 1, 0, self.z), True) if w < self.w else Bits(self.z, True)

    def _bin(self, o, f, extra=0, nn=None):
        o = Bits.lift(o)
        if o is None:
            return NotImplemented
        w = max(self.w, o.w) + extra
        return Bits.make(f(self.ext(w), o.ext(w)), nn(self, o) if nn else False)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, 1, lambda a, b: a.nn and b.nn)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, 1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, 1)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.nn or bool(self >= 0) else -self

    def __mul__(self, o):
        o = Bits.lift(o)
        if o is None:
            return NotImplemented
        w = self.w + o.w
        return Bits.make(self.ext(w) * o.ext(w), self.nn and o.nn)

    __rmul__ = __mul__

    def _divmod(self, a, b):
        if bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        b = Bits.lift(b)
        w = max(a.w, b.w) + 1
        x, y = a.ext(w), b.ext(w)
        if a.nn and b.nn:
            return Bits.make(z3.UDiv(x, y), True), Bits.make(z3.URem(x, y), True)
        q, r = x / y, z3.SRem(x, y)
        fix = z3.And(r != 0, (r < 0) != (y < 0))
        return (Bits.make(z3.If(fix, q - 1, q), False), Bits.make(z3.If(fix, r + y, r), b.nn))

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __rdivmod__(self, o):
        return self._divmod(Bits.lift(o), self)

    def __floordiv__(self, o):
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return self._divmod(Bits.lift(o), self)[0]

    def __mod__(self, o):
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        return self._divmod(Bits.lift(o), self)[1]

    def __truediv__(self, o):
        return Quotient(self, o)

    def __rtruediv__(self, o):
        return Quotient(o, self)

    def __pow__(self, o, m=None):
        o = o if isinstance(o, int) else Bits.lift(o).__index__()
        r = 1
        for _ in range(o):
            r = r * self
            if m is not None:
                r = r % m
        return r if m is None or o else 1 % m

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o.bit_length() + 1 < self.w:
            w = o.bit_length() + 1
            return Bits.make(z3.Extract(w - 1, 0, self.z) & z3.BitVecVal(o, w), True)
        return self._bin(o, lambda a, b: a & b, 0, lambda a, b: a.nn or b.nn)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, 0, lambda a, b: a.nn and b.nn)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b, 0, lambda a, b: a.nn and b.nn)

    __rxor__ = __xor__

    def __invert__(self):
        return Bits.make(~self.z, False)

    def __lshift__(self, k):
        k = k if isinstance(k, int) else k.__index__()
        if k < 0:
            raise ValueError('negative shift count')
        return Bits.make(self.ext(self.w + k) << k, self.nn)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, k):
        k = k if isinstance(k, int) else k.__index__()
        if k < 0:
            raise ValueError('negative shift count')
        if k >= self.w:
            k = self.w - 1
        return Bits.make(z3.Extract(self.w - 1, k, self.z), self.nn)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _cmp(self, o, f):
        if isinstance(o, float):
            if o != int(o):
                raise Unsupported('integer compared with a fraction')
            o = int(o)
        o = Bits.lift(o)
        if o is None:
            return NotImplemented
        w = max(self.w, o.w)
        e = z3.simplify(f(self.ext(w), o.ext(w)))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool.expr(e)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        """the value, chosen per path (smallest feasible first)"""
        c = ctx()
        for _ in range(c.opts.get('max_concretize', 600)):
            v = c.min_bits(self.z)
            e = self == v
            if bool(e):
                return v
        raise Unsupported('integer with too many values')

    def bit_length(self):
        x = abs(self)
        n = 0
        while bool(x >= (1 << n)):
            n += 1
        return n

    def bit(self, i):
        """bit i as a z3 truth value"""
        i = min(i, self.w - 1)
        return z3.Extract(i, i, self.z) == 1

    def __repr__(self):
        return 'Bits(%s)' % self.z

    def __format__(self, spec):
        return '<bits>'

    def __str__(self):
        return '<bits>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class Quotient:
    """exact a / b of integers"""

    def __init__(self, a, b):
        if bool(b == 0):
            raise ZeroDivisionError('division by zero')
        self.a, self.b = a, b

    def trunc(self):
        a, b = self.a, self.b
        q = abs(a) // abs(b)
        return q if bool(a >= 0) == bool(b > 0) else -q

    def floor(self):
        return self.a // self.b


class Digits:
    """text of the binary digits: only its length can be used"""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        if isinstance(s, slice):
            return Digits(len(range(*s.indices(self.n))))
        raise Unsupported('digits of a symbolic integer')

    def __iter__(self):
        raise Unsupported('digits of a symbolic integer')

    def zfill(self, n):
        return Digits(max(n, self.n))


def sym_bin(x):
    neg = 0 if x.nn or bool(x >= 0) else 1
    return Digits(2 + neg + max(x.bit_length(), 1))


def x_expr(b):
    e = ctx().to_z3_bool(b)
    return e


def gcd(a, b=0, *rest):
    a, b = abs(a), abs(b)
    while bool(b != 0):
        a, b = b, a % b
    return gcd(a, *rest) if rest else a


def from_bits(bs):
    """integer from z3 truth values / bools, least significant first"""
    bs = [z3.BoolVal(b) if isinstance(b, bool) else b for b in bs]
    if not bs:
        return 0
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    parts = [zero] + [z3.If(b, one, zero) for b in reversed(bs)]
    return Bits.make(z3.Concat(*parts), True)


def bit_of(x, i):
    """bit i of an int / Bits as bool / z3 truth value"""
    if isinstance(x, Bits):
        return x.bit(i)
    return bool((x >> i) & 1)
