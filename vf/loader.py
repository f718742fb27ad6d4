"""Import projectq from /repo, optionally with symbolic stand-ins at the library boundary.

load(symbolic=True): modules named projectq.* are executed from the current source with their own __builtins__ in which
float/int/complex/round/abs/... and the modules math, cmath, numpy, random understand symbolic values.
"""
import builtins
import cmath
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import numbers
import os
import random
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
_real_import = builtins.__import__


def _patched_builtins(shims):
    from . import sym as S
    from .bits import Bits, Quotient, sym_bin
    from .sym import AbsSym, Sym, SymBool, lift

    def mk(base, name, test, conv):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, base) or test(x)

            def __subclasscheck__(cls, c):
                return issubclass(c, base)

            def __call__(cls, *a, **k):
                if a and isinstance(a[0], (Sym, AbsSym, SymBool, Bits, Quotient)):
                    return conv(*a, **k)
                if len(a) > 1 and isinstance(a[1], (Sym, AbsSym)):
                    return conv(*a, **k)
                return base(*a, **k)

            def __eq__(cls, o):
                return o is cls or o is base

            def __hash__(cls):
                return hash(base)
        # numpy asks a type for its element type (astype(int), dtype=complex)
        import numpy
        ns = {'dtype': numpy.dtype(base if base in (int, bool, str) else object)}
        for n in ('fromhex', 'is_integer', 'from_bytes'):
            if hasattr(base, n):
                ns[n] = getattr(base, n)
        return Meta(name, (), ns)

    def to_float(x):
        if isinstance(x, (Bits, Quotient)):
            raise S.Unsupported('float of a symbolic bit vector')
        if isinstance(x, AbsSym):
            return x.force()
        if isinstance(x, SymBool):
            return float(bool(x))
        c = x.simplify_const()
        if not isinstance(c, Sym):
            return float(c)
        if x.isint:
            r = Sym(dict(x.t), False)
            return r
        if not x.is_real():
            raise TypeError("can't convert complex to float")
        return x

    def to_int(x, *a):
        if isinstance(x, Bits):
            return x
        if isinstance(x, Quotient):
            return x.trunc()
        if isinstance(x, AbsSym):
            x = x.force()
        if isinstance(x, SymBool):
            return int(bool(x))
        return S.ctx().trunc(x)

    def to_complex(x, im=0):
        x = x.force() if isinstance(x, AbsSym) else x
        im = im.force() if isinstance(im, AbsSym) else im
        return x + 1j * im if not (isinstance(im, (int, float)) and im == 0) else x

    isrealsym = lambda x: isinstance(x, AbsSym) or (isinstance(x, Sym) and not x.isint and x.is_real())  # noqa: E731
    isintsym = lambda x: isinstance(x, Bits) or isinstance(x, Sym) and x.isint  # noqa: E731
    iscsym = lambda x: isinstance(x, Sym) and not x.isint and not x.is_real()  # noqa: E731

    b = dict(builtins.__dict__)
    b['float'] = mk(float, 'float', isrealsym, to_float)
    b['int'] = mk(int, 'int', isintsym, to_int)
    b['complex'] = mk(complex, 'complex', iscsym, to_complex)

    b['bin'] = lambda x: sym_bin(x) if isinstance(x, Bits) else bin(x)

    def sym_round(x, n=None):
        if isinstance(x, (Sym, AbsSym)):
            return S.sym_round(x, n)
        return round(x, n) if n is not None else round(x)

    b['round'] = sym_round

    def sym_type(*a):
        if len(a) == 1 and isinstance(a[0], (Sym, AbsSym)):
            return b['int'] if isintsym(a[0]) else (b['complex'] if iscsym(a[0]) else b['float'])
        return type(*a)

    class TypeMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, type)

        def __call__(cls, *a, **k):
            if len(a) == 1 and not k:
                return sym_type(*a)
            return type(*a, **k)
    # 'type' itself is left alone: modules only use it for gate classes
    shim_names = {'math', 'cmath', 'numpy', 'random'}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split('.')[0]
            if root in shim_names and root in shims:
                _real_import(name, globals, locals, fromlist, level)
                if '.' not in name or not fromlist:
                    return shims[root]
                m = shims[root]
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
                return m
        return _real_import(name, globals, locals, fromlist, level)

    b['__import__'] = imp
    return b


class _Loader(importlib.machinery.SourceFileLoader):
    bdict = None

    def exec_module(self, module):
        src = self.get_source(module.__name__)
        code = compile(src, self.path, 'exec', dont_inherit=True)
        if self.bdict is not None:
            module.__dict__['__builtins__'] = self.bdict
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, bdict, overrides):
        self.bdict, self.overrides = bdict, overrides

    def find_spec(self, name, path, target=None):
        if name != 'projectq' and not name.startswith('projectq.'):
            return None
        if name in self.overrides:
            ov = self.overrides[name]
            if ov is None:
                raise ImportError('blocked: ' + name)
            if isinstance(ov, str):
                return importlib.util.spec_from_file_location(name, ov)
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            ld = _Loader(name, f)
            ld.bdict = self.bdict
            return importlib.util.spec_from_file_location(name, f, loader=ld, submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            ld = _Loader(name, f)
            ld.bdict = self.bdict
            return importlib.util.spec_from_file_location(name, f, loader=ld)
        return None


def load(symbolic, overrides=None):
    """(Re)load projectq.  overrides: {module name: path of an extension | None (import fails)}."""
    sys.dont_write_bytecode = True
    for m in [m for m in sys.modules if m == 'projectq' or m.startswith('projectq.')]:
        del sys.modules[m]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, _Finder)]
    bdict = None
    if symbolic:
        from . import shims
        bdict = _patched_builtins(shims.make())
    sys.meta_path.insert(0, _Finder(bdict, overrides or {}))
    return importlib.import_module('projectq')
