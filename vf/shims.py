"""Symbolic-aware stand-ins for math, cmath, numpy and random (only at the boundary of the code under test)."""
import cmath
import math
import random
import types

import numpy as np

from . import bits
from . import sym as S
from .sym import AbsSym, Sym, SymBool, Unsupported, lift

SY = (Sym, AbsSym, SymBool)


def issym(x):
    return isinstance(x, SY)


def has_sym(x):
    if isinstance(x, SY):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class Mod(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def lin_angle(x):
    """x as a phase-free polynomial or None"""
    return x if isinstance(x, Sym) and all(not p for _, p in x.t) else None


def as_trig_arg(z):
    """z == u or conj-pair forms: return angle a if z = cos(a), and b if z = sin(b)."""
    return None


def acos(x):
    if not issym(x):
        return math.acos(x)
    x = S.ctx().apply_subst(lift(x))
    if x.is_const():
        return math.acos(x.const_value().real)
    a = match_cos(x)
    if a is not None:
        return wrap_angle(a, True)
    c = S.ctx()
    key = ('acos', repr(x))
    if key not in c.def_cache:
        from .engine import evaluate
        c.def_cache[key] = c.define_angle('acos', x, None, 0.0, math.pi,
                                          lambda env, x=x: math.acos(max(-1.0, min(1.0, evaluate(x, env).real))))
    return c.def_cache[key]


def match_cos(x):
    """angle form a with x == cos(a), or None"""
    if len(x.t) != 2:
        return None
    (k1, c1), (k2, c2) = x.t.items()
    if k1[0] or k2[0] or not k1[1] or not k2[1]:
        return None
    if abs(abs(c1) - 0.5) > 1e-12 or abs(c2 - c1.conjugate()) > 1e-12:
        return None
    if S._norm_phase(tuple((m, -e) for m, e in k1[1])) != k2[1]:
        return None
    a = phase_arg(k1[1])
    return a + cmath.phase(c1)


def phase_arg(ph):
    a = Sym({})
    for m, e in ph:
        k = math.pi if S._is_int_mono(m) else 1.0
        a = a + Sym({(m, S.E0): complex(float(e) * k)})
    return a


def wrap_angle(a, fold):
    """a reduced to (-pi, pi]; if fold, |.| of it (the value of acos(cos(a)))"""
    c = S.ctx()
    if not fold:
        # phase in (-pi, pi]:  a - 2 pi * ceil((a - pi) / 2pi)
        if not isinstance(a, Sym) or a.is_const():
            v = lift(a).const_value().real
            return cmath.phase(cmath.exp(1j * v))
        z = c.to_z3(c.apply_subst(a))
        from .engine import rvs, z3
        if c.entails(z3.And(z <= rvs(math.pi), z > rvs(-math.pi))):
            return a
        k = -c.floordiv(lift(math.pi) - a, 2 * math.pi)
        return a - k * (2 * math.pi)
    r = wrap_angle(a, False)
    if not isinstance(r, Sym):
        return abs(r)
    return r if bool(r >= 0) else -r


def asin(x):
    if not issym(x):
        return math.asin(x)
    return math.pi / 2 - acos(x)


def phase(z):
    if not issym(z):
        return cmath.phase(z)
    c = S.ctx()
    z = c.apply_subst(lift(z))
    if z.is_const():
        return cmath.phase(z.const_value())
    f = S.common_phase(z) if len(z.t) > 1 else None
    if f is not None:
        arg, rho = f
        if bool(rho == 0):
            return 0.0
        return wrap_angle(arg + (0.0 if bool(rho > 0) else math.pi), False)
    if len(z.t) == 1:
        ((m, p), co), = z.t.items()
        sign = 0.0
        if m:
            r = Sym({(m, S.E0): 1 + 0j})
            if bool(r == 0):
                return 0.0
            if not bool(r > 0):
                sign = math.pi
        if not p:
            return cmath.phase(co * cmath.exp(1j * sign))
        return wrap_angle(phase_arg(p) + (cmath.phase(co) + sign), False)
    return atan2(z.imag, z.real)


def atan2(y, x):
    if not issym(y) and not issym(x):
        return math.atan2(y, x)
    c = S.ctx()
    y, x = c.apply_subst(lift(y)), c.apply_subst(lift(x))
    z = x + 1j * y
    if len(z.t) <= 1 or not z.is_real() and S.common_phase(z) is not None:
        return phase(z)
    key = ('atan2', repr(y), repr(x))
    if key in c.def_cache:
        return c.def_cache[key]
    if z.is_real():
        r = 0.0 if bool(x >= 0) else math.pi
        c.def_cache[key] = r
        return r
    from .engine import evaluate
    r2 = lift((z * z.conjugate()).real)
    if r2.is_const():
        inv = 1 / math.sqrt(r2.const_value().real)
    else:
        if bool(r2 == 0):
            return 0.0
        rr = lift(S.sym_sqrt(r2))
        inv = rr.inverse()
    cosv, sinv = lift(x * inv), lift(y * inv)
    c.def_cache[key] = c.define_angle('arg', cosv, sinv, -math.pi, math.pi,
                                      lambda env, y=y, x=x: math.atan2(evaluate(y, env).real, evaluate(x, env).real))
    return c.def_cache[key]


def _floor(x):
    if isinstance(x, (bits.Bits, bits.Quotient)):
        return x if isinstance(x, bits.Bits) else x.floor()
    return S.ctx().floordiv(lift(x), 1) if issym(x) else math.floor(x)


def _ceil(x):
    return -S.ctx().floordiv(-lift(x), 1) if issym(x) else math.ceil(x)


def sqrt(x):
    return S.sym_sqrt(lift(x)) if issym(x) else math.sqrt(x)


def csqrt(x):
    return S.sym_sqrt(lift(x)) if issym(x) else cmath.sqrt(x)


def msqrt(x):
    if issym(x):
        x = lift(x)
        return S.sym_sqrt(x)
    return math.sqrt(x)


def cexp(x):
    return S.sym_exp(x) if issym(x) else cmath.exp(x)


def mexp(x):
    return S.sym_exp(x) if issym(x) else math.exp(x)


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not issym(a) and not issym(b):
        return cmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = lift(a) - lift(b)
    d = S.ctx().apply_subst(d)
    if d.is_const() and abs(d.const_value()) < 1e-13:
        return True
    # tolerances below 1e-8 are treated as equality
    if max(rel_tol, abs_tol) <= 1e-8:
        bound = max(rel_tol, abs_tol, 1e-12)
        return bool(abs(d) <= bound) if not d.is_const() else abs(d.const_value()) <= bound * 2
    aa, bb = abs(lift(a)), abs(lift(b))
    if bool(abs(d) <= abs_tol):
        return True
    for o in (aa, bb):
        o2 = o.sq() if isinstance(o, AbsSym) else lift(o * o)
        d2 = lift((d * d.conjugate()).real)
        if bool(d2 <= o2 * (rel_tol ** 2)):
            return True
    return False


def polar(z):
    return (abs(z), phase(z)) if issym(z) else cmath.polar(z)


def rect(r, p):
    if issym(r) or issym(p):
        return r * S.sym_exp(1j * lift(p))
    return cmath.rect(r, p)


def dispatch(symf, realf):
    def f(x, *a, **k):
        if issym(x):
            return symf(x)
        return realf(x, *a, **k)
    return f


def vectorised(symf, npf):
    def f(x, *a, **k):
        if issym(x):
            return symf(x)
        if isinstance(x, (list, tuple)) and has_sym(x):
            x = np.array(x, dtype=object)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                v = x[i]
                out[i] = symf(v) if issym(v) else npf(v)
            return out.view(type(x)) if isinstance(x, np.matrix) else out
        return npf(x, *a, **k)
    return f


def _abs1(v):
    return abs(v)


def np_isclose1(a, b, rtol, atol):
    """|a-b| <= atol + rtol*|b|"""
    if not issym(a) and not issym(b):
        return abs(complex(a) - complex(b)) <= atol + rtol * abs(complex(b))
    d = S.ctx().apply_subst(lift(lift(a) - lift(b)))
    if d.is_const() and abs(d.const_value()) < 1e-13:
        return True
    if not issym(b) or lift(b).is_const():
        bound = atol + rtol * abs(lift(b).const_value())
        return bool(abs(d) <= bound)
    if rtol <= 1e-7 and atol <= 1e-7:
        return bool(abs(d) <= atol + rtol)
    bb = abs(lift(b))
    bb = bb.force() if isinstance(bb, AbsSym) else bb
    dd = abs(d)
    dd = dd.force() if isinstance(dd, AbsSym) else dd
    return bool(dd <= atol + rtol * bb)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(np.asarray(a).astype(complex) if getattr(a, 'dtype', None) == object else a,
                           np.asarray(b).astype(complex) if getattr(b, 'dtype', None) == object else b,
                           rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
    for x, y in zip(A.flat, B.flat):
        if not np_isclose1(x, y, rtol, atol):
            return False
    return True


def npisclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not has_sym(a) and not has_sym(b):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
    out = np.empty(A.shape, dtype=bool)
    for i in np.ndindex(A.shape):
        out[i] = np_isclose1(A[i], B[i], rtol, atol)
    return out if out.shape else bool(out)


def det(m):
    m = np.asarray(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        r = r + (-1) ** j * m[0, j] * det(minor)
    return r


def npdet(m):
    if has_sym(np.asarray(m)) or np.asarray(m).dtype == object:
        return det(m)
    return np.linalg.det(m)


def npinv(m):
    a = np.asarray(m)
    if a.dtype != object:
        return np.linalg.inv(m)
    if not any(issym(x) for x in a.flat):
        r = np.linalg.inv(a.astype(complex))
        return np.matrix(r) if isinstance(m, np.matrix) else r
    n = a.shape[0]
    d = det(a)
    if not issym(d):
        inv = 1 / d
    else:
        d = lift(d)
        inv = d.conjugate() if (d * d.conjugate() - 1).is_const() and abs((d * d.conjugate() - 1).const_value()) < 1e-9 else d.inverse()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = ((-1) ** (i + j)) * (det(minor) if n > 1 else 1) * inv
    return np.matrix(out) if isinstance(m, np.matrix) else out


def npnorm(x, *a, **k):
    arr = np.asarray(x)
    if arr.dtype != object:
        return np.linalg.norm(x, *a, **k)
    s = 0
    for v in arr.flat:
        v = lift(v)
        s = s + (v * v.conjugate()).real
    return S.sym_sqrt(lift(s))


class _MMeta(type(np.matrix)):
    def __instancecheck__(cls, x):
        return isinstance(x, np.matrix)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.matrix)


class SMatrix(np.matrix, metaclass=_MMeta):
    """np.matrix whose Hermitian conjugate also conjugates object entries"""

    def getH(self):
        t = self.transpose()
        if t.dtype == object:
            out = t.copy()
            for i in np.ndindex(t.shape):
                v = t[i]
                out[i] = v.conjugate()
            return out
        return np.conjugate(t)

    @property
    def H(self):
        return self.getH()



def _odtype(dtype):
    """complex/float storage becomes object storage in symbolic mode"""
    if dtype is None:
        return None
    try:
        d = np.dtype(dtype) if not isinstance(dtype, type) or issubclass(dtype, (np.generic,)) or dtype in (float, complex, int, bool, object) else None
    except TypeError:
        d = None
    if d is None:
        n = getattr(dtype, '__name__', '')
        if n in ('float', 'complex'):
            return object
        if n == 'int':
            return int
        return dtype
    if d.kind in 'cf':
        return object
    return dtype


def _creator(f, default_float):
    def g(*a, **k):
        a = list(a)
        if 'dtype' in k:
            k['dtype'] = _odtype(k['dtype'])
        elif len(a) > 1 and f in (np.zeros, np.ones, np.empty):
            a[1] = _odtype(a[1])
        elif default_float:
            k['dtype'] = object
        r = f(*a, **k)
        return r
    return g


def nparray(x, dtype=None, **k):
    if dtype is not None:
        dtype = _odtype(dtype)
    if has_sym(x) and (dtype is None):
        dtype = object
    return np.array(x, dtype=dtype, **k)


def npasarray(x, dtype=None, **k):
    if dtype is not None:
        dtype = _odtype(dtype)
    if isinstance(x, np.ndarray) and (dtype is None or x.dtype == dtype):
        return x
    return np.asarray(x, dtype=dtype, **k)


def nparange(*a, **k):
    a = [x.__index__() if isinstance(x, Sym) and x.isint else x for x in a]
    return np.arange(*a, **k)


choice_hook = None


def np_random_choice(seq, size=None, replace=True, p=None):
    if choice_hook is not None:
        return choice_hook(seq, size, replace, p)
    if size is not None:
        raise Unsupported('numpy.random.choice with size')
    seq = list(range(seq)) if isinstance(seq, int) else list(seq)
    r = S.ctx().unit_random()
    acc = 0
    p = [1.0 / len(seq)] * len(seq) if p is None else list(p)
    for i in range(len(seq) - 1):
        acc = acc + p[i]
        if bool(r < acc):
            return np.asarray(seq)[i]
    return np.asarray(seq)[-1]


def rnd_choices(pop, weights=None, k=1, **kw):
    if k != 1 or weights is None:
        raise Unsupported('random.choices')
    tot = sum(weights)
    r = S.ctx().unit_random() * tot
    acc = 0
    pop = list(pop)
    for i in range(len(pop) - 1):
        acc = acc + weights[i]
        if bool(r < acc):
            return [pop[i]]
    return [pop[-1]]


random_hook = None


def sym_random():
    if random_hook is not None:
        return random_hook()
    if S._CTX[0] is None:
        return random.random()
    return S.ctx().unit_random()


def make():
    m = Mod(math, dict(
        sqrt=msqrt, cos=dispatch(S.sym_cos, math.cos), sin=dispatch(S.sym_sin, math.sin),
        acos=acos, asin=asin, atan2=atan2, exp=mexp, floor=_floor, ceil=_ceil, isclose=isclose,
        fabs=lambda x: abs(x) if issym(x) else math.fabs(x),
        tan=lambda x: S.sym_sin(x) / S.sym_cos(x) if issym(x) else math.tan(x),
        trunc=lambda x: S.ctx().trunc(x) if issym(x) else (x.trunc() if isinstance(x, bits.Quotient) else math.trunc(x)),
        fmod=lambda x, y: _fmod(x, y),
        isnan=lambda x: False if issym(x) else math.isnan(x),
        isinf=lambda x: False if issym(x) else math.isinf(x),
        pow=lambda x, y: x ** y if issym(x) or issym(y) else math.pow(x, y),
        copysign=lambda x, y: _copysign(x, y),
        gcd=lambda *a: bits.gcd(*a) if any(isinstance(x, bits.Bits) for x in a) else math.gcd(*[x.__index__() if issym(x) else x for x in a]),
    ))
    cm = Mod(cmath, dict(exp=cexp, phase=phase, sqrt=csqrt, polar=polar, rect=rect, isclose=isclose,
                         cos=dispatch(S.sym_cos, cmath.cos), sin=dispatch(S.sym_sin, cmath.sin)))
    linalg = Mod(np.linalg, dict(det=npdet, inv=npinv, norm=npnorm))
    nprand = Mod(np.random, dict(choice=np_random_choice, rand=lambda *a: sym_random() if not a else _uns('np.random.rand'),
                                 random=lambda *a: sym_random() if not a else _uns('np.random.random'),
                                 uniform=lambda lo=0.0, hi=1.0: lo + (hi - lo) * sym_random()))
    n = Mod(np, dict(
        exp=vectorised(lambda v: S.sym_exp(v), np.exp), cos=vectorised(S.sym_cos, np.cos), sin=vectorised(S.sym_sin, np.sin),
        sqrt=vectorised(lambda v: S.sym_sqrt(lift(v)), np.sqrt),
        abs=vectorised(abs, np.abs), absolute=vectorised(abs, np.absolute),
        angle=vectorised(phase, np.angle), arctan2=lambda y, x: atan2(y, x) if issym(y) or issym(x) else np.arctan2(y, x),
        arccos=vectorised(acos, np.arccos),
        real=lambda x: _reim(x, 'real'), imag=lambda x: _reim(x, 'imag'),
        conj=vectorised(lambda v: lift(v).conjugate(), np.conj), conjugate=vectorised(lambda v: lift(v).conjugate(), np.conjugate),
        allclose=allclose, isclose=npisclose, linalg=linalg, random=nprand,
        round=vectorised(lambda v: v, np.round), around=vectorised(lambda v: v, np.around),
        zeros=_creator(np.zeros, True), ones=_creator(np.ones, True), empty=_creator(np.empty, True),
        eye=_creator(np.eye, True), identity=_creator(np.identity, True), full=_full,
        matrix=SMatrix, array=nparray, asarray=npasarray, arange=nparange,
        zeros_like=lambda a, dtype=None, **k: np.zeros_like(a, dtype=_odtype(dtype) if dtype is not None else (object if np.asarray(a).dtype.kind in 'cf' else None), **k),
        isreal=lambda x: (lift(x).is_real() if issym(x) else np.isreal(x)),
        iscomplexobj=lambda x: np.iscomplexobj(x),
        floor=vectorised(_floor, np.floor), ceil=vectorised(_ceil, np.ceil),
        mod=lambda a, b: a % b if issym(a) or issym(b) else np.mod(a, b),
    ))
    r = Mod(random, dict(random=sym_random, choices=rnd_choices, uniform=lambda a, b: a + (b - a) * sym_random()))
    return dict(math=m, cmath=cm, numpy=n, random=r)


def _full(shape, v, dtype=None, **k):
    return np.full(shape, v, dtype=object if (issym(v) or dtype is None or _odtype(dtype) is object) else dtype, **k)


def _uns(w):
    raise Unsupported(w)


def _copysign(x, y):
    if not issym(x) and not issym(y):
        return math.copysign(x, y)
    ax = abs(x)
    ax = ax.force() if isinstance(ax, AbsSym) else ax
    return ax if (bool(y >= 0) if issym(y) else math.copysign(1, y) > 0) else -ax


def _fmod(x, y):
    if not issym(x) and not issym(y):
        return math.fmod(x, y)
    return x % y if bool(x >= 0) else -((-x) % y)


def _reim(x, which):
    if issym(x):
        return getattr(lift(x), which)
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = getattr(x[i], which)
        return out
    return getattr(np, which)(x)
