"""callbacks of the symbolic build of the compiled simulator (cpp/symd.hpp)"""
import random as _random

from . import shims
from . import sym as S
from .sym import AbsSym, Sym, lift

hook = None


def random():
    return hook() if hook is not None else _random.random()


def _norm(x):
    if isinstance(x, Sym):
        c = x.simplify_const()
        if not isinstance(c, Sym):
            c = complex(c)
            return c.real if c.imag == 0 else c
    return x


def as_real(x):
    if isinstance(x, AbsSym):
        x = x.force()
    if isinstance(x, Sym):
        if not x.is_real():
            raise TypeError('not a real number')
        return _norm(x)
    return float(x)


def as_pair(x):
    if isinstance(x, AbsSym):
        x = x.force()
    if isinstance(x, Sym):
        return _norm(x.real), _norm(x.imag)
    z = complex(x)
    return z.real, z.imag


def from_pair(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return complex(a, b)
    if isinstance(b, float) and b == 0.0:
        return a
    return a + 1j * b


def whole(x):
    r = S.ctx().trunc(x)
    return S.ctx().concretize_int(r) if isinstance(r, Sym) else int(r)


def _force(r):
    return r.force() if isinstance(r, AbsSym) else r


def sqrt(x):
    return _force(shims.sqrt(x))


def abs(x):
    return _force(x.__abs__())


fabs = abs


def exp(x):
    return shims.mexp(x)


def _trig(x, which):
    z = shims.cexp(1j * x)
    return z.real if which else z.imag


def cos(x):
    return _trig(x, True)


def sin(x):
    return _trig(x, False)
