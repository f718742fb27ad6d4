"""Path exploration of real code on symbolic values, decided by z3."""
import cmath
import gc
import itertools
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from . import sym as S  # noqa: E402
from .sym import E0, AbsSym, Sym, SymBool, Unsupported, Var, lift  # noqa: E402

TOL = 1e-6


def _key(x):
    return x._poly() if isinstance(x, Sym) else repr(x)


class PathAbort(BaseException):
    """This path is infeasible / cut off (not a verdict)."""


class Budget(BaseException):
    """Path budget exceeded."""


class Violation(BaseException):      # the code under test must not catch it
    def __init__(self, label, detail=''):
        super().__init__(label + (': ' + detail if detail else ''))
        self.label, self.detail = label, detail


def rv(x):
    return z3.RealVal(Fraction(float(x)))


def rvs(x):
    """short rational for a float coefficient"""
    f = Fraction(float(x))
    g = f.limit_denominator(10 ** 6)
    if abs(float(g) - float(x)) < 1e-15 * max(1.0, abs(float(x))):
        return z3.Q(g.numerator, g.denominator)
    return z3.Q(f.numerator, f.denominator)


class Ctx:
    """One path of one exploration (symbolic mode)."""

    symbolic = True

    def __init__(self, prefix, opts, rng):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # decisions taken on this path
        self.alts = []           # alternative prefixes discovered
        self.opts = opts
        self.rng = rng
        self.vars = {}
        self.order = []
        self.subst = {}
        self.zv = {}
        self.trig = {}
        self.parity = {}
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', opts.get('branch_ms', 3000))
        self.linear = True
        self.choices = {}
        self.stats = dict(queries=0, solver_s=0.0, branches=0, thin_skipped=0, obligations=0, discharged=0,
                          relaxed=0, full=0, unknown=0, fallback=0)
        self.failures = []       # (label, detail, candidate env)
        self.inconclusive = []
        self.thin_eq_left = opts.get('thin_eq', 6)
        self.near = opts.get('near', 1e-7)      # smaller tolerances than this are exact equality
        self.thin_wrap_left = opts.get('thin_wrap', 0)
        self.mod_cache = {}
        self.def_cache = {}
        self.radicand = {}       # square-root variable -> what it is the root of
        self.range = {}          # variable -> bounds narrowed by the path
        self.trig_alias = {}
        self.conds = []
        self.pool = None
        self.nopool = False
        self.lazy = []
        self.lazyp = []
        self.snapped = False
        self.rems = []
        self.fresh_n = 0
        self.deadline = opts.get('deadline')
        self.assumptions = set()

    # ------------------------------------------------------------- variables
    def new_var(self, name, kind, lo=None, hi=None, is_input=False):
        if name in self.vars:
            name = name + "'" + str(len(self.order))
        v = Var(name, kind, len(self.order))
        v.lo, v.hi, v.is_input = lo, hi, is_input
        self.vars[name] = v
        self.order.append(v)
        if kind == 'bits':
            self.zv[v] = z3.BitVec(name, int(hi).bit_length())
            return v
        z = z3.Real(name) if kind == 'real' else z3.Int(name)
        self.zv[v] = z
        if lo is not None:
            self.solver.add(z >= rvs(lo) if kind == 'real' else z >= int(lo))
        if hi is not None:
            self.solver.add(z <= rvs(hi) if kind == 'real' else z <= int(hi))
        return v

    def fresh(self, base, kind, lo=None, hi=None):
        self.fresh_n += 1
        return self.new_var('%s!%d' % (base, self.fresh_n), kind, lo, hi)

    # ------------------------------------------------------------- harness API
    def angle(self, name, lo=-40.0, hi=40.0):
        return Sym.var(self.new_var(name, 'real', lo, hi, True))

    def real(self, name, lo=-1.0, hi=1.0):
        return Sym.var(self.new_var(name, 'real', lo, hi, True))

    def cplx(self, name, bound=1.0):
        return self.real(name + '.re', -bound, bound) + 1j * self.real(name + '.im', -bound, bound)

    def int(self, name, lo, hi):
        return Sym.var(self.new_var(name, 'int', lo, hi, True))

    def bits(self, name, n):
        """an arbitrary n-bit number"""
        from .bits import Bits
        if n == 0:
            return 0
        v = self.new_var(name, 'bits', 0, (1 << n) - 1, True)
        return Bits.var(self.zv[v], n)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            i = 0
        else:
            i = self.decide_n(len(options))
        self.choices[name] = i
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add_cond(cond)
            if self.check() == z3.unsat:
                raise PathAbort()
        elif not cond:
            raise PathAbort()

    def unit_random(self, name='rnd'):
        v = self.new_var(name, 'real', 0, None, True)
        self.solver.add(self.zv[v] < 1)
        v.hi = 1.0 - 2.0 ** -40
        return Sym.var(v)

    # ------------------------------------------------------------- decisions
    def decide_n(self, n):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.trace + [k])
        self.pos += 1
        self.trace.append(d)
        return d

    def check(self, *extra):
        t = time.perf_counter()
        self.stats['queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def apply_subst(self, p):
        if not self.subst:
            return p
        for _ in range(20):
            vs = [v for v in p.variables() if v in self.subst]
            if not vs:
                return p
            p = substitute(p, {v: self.subst[v] for v in vs})
        return p

    def branch(self, b):
        self.stats['branches'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        kind = b.kind
        if kind != 'z3':
            p = self.apply_subst(b.a[0])
            if p.is_const():
                c = p.const_value()
                return self._const_truth(b, c)
            b = SymBool(kind, (p,) + tuple(b.a[1:]), b.neg)
        if kind == 'abs' and all(not m for m, _ in b.a[0].t) and sum(abs(c) for c in b.a[0].t.values()) < b.a[1]:
            return (b.a[2] in ('<', '<=')) != b.neg
        if kind == 'ineq':
            b = self.one_variable(b)
            if isinstance(b, bool):
                return b
        e = self.to_z3_bool(b)
        ne = z3.Not(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            taken = bool(d & 1)
            if not d & 4:
                self.commit(b, taken, bool(d & 2))
            return taken
        st, sf = self.pool_sides(b)
        tiny = kind in ('eq0', 'abs') and not b.a[0].isint and (kind == 'eq0' or b.a[1] <= self.near)
        if tiny and self.opts.get('fastthin'):
            thick = (kind == 'eq0' or b.a[2] in ('<', '<=')) == b.neg     # truth value of the side "not (nearly) zero"
            if (st if thick else sf):
                if self.thin_eq_left <= 0:
                    self.stats['thin_skipped'] += 1
                else:
                    self.alts.append(self.trace + [int(not thick) | 2])
                self.pos += 1
                self.trace.append(int(thick))
                self.commit(b, thick, False)
                return thick
        rel = self.related(b)
        rt = z3.sat if st else self.check(e, *rel)
        rf = z3.sat if sf else self.check(ne, *rel)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort()
        if rt == z3.unsat or rf == z3.unsat:
            self.pos += 1
            self.trace.append(4 | int(rf == z3.unsat))
            return rf == z3.unsat
        # both feasible: thin sides?
        thin_t = thin_f = False
        if kind != 'z3' and b.a[0].isint:
            pass
        elif kind == 'eq0':
            thin_t = not b.neg
            thin_f = b.neg
        elif kind == 'abs' and b.a[1] <= self.near:
            small_true = (b.a[2] in ('<', '<=')) != b.neg
            thin_t, thin_f = small_true, not small_true
        elif kind == 'ineq' and not any(ph for _, ph in b.a[0].t):
            pz = self.to_z3(b.a[0])
            pos_true = (b.a[1] in ('>', '>=')) != b.neg
            big = pz > rvs(self.near) if pos_true else pz < rvs(-self.near)
            if self.check(big) == z3.unsat:
                thin_t = True
            else:
                big = pz < rvs(-self.near) if pos_true else pz > rvs(self.near)
                if self.check(big) == z3.unsat:
                    thin_f = True
        take, alt = True, True
        if thin_t or thin_f:
            wrap = kind == 'ineq'
            left = self.thin_wrap_left if wrap else self.thin_eq_left
            thick = not thin_t
            if left <= 0:
                self.stats['thin_skipped'] += 1
                self.pos += 1
                self.trace.append(int(thick))
                self.commit(b, thick, False)
                return thick
            # explore thick first, thin as alternative
            self.alts.append(self.trace + [int(not thick) | 2])
            self.pos += 1
            self.trace.append(int(thick))
            self.commit(b, thick, False)
            return thick
        self.alts.append(self.trace + [0])
        self.pos += 1
        self.trace.append(1)
        self.commit(b, True, False)
        return True

    def one_variable(self, b):
        """a polynomial inequality in one bounded variable: decided by interval bounds, or rewritten as a bound on the variable where the polynomial is monotone"""
        p, op = b.a[0], b.a[1]
        if p.isint or any(ph for _, ph in p.t) or any(abs(c.imag) > S.DROP for c in p.t.values()):
            return b
        vs = set(v for m, _ in p.t for v, _ in m)
        if len(vs) != 1:
            return b
        v, = vs
        if v in self.radicand and max(q for m, _ in p.t for _, q in m) == 1:
            a = p.t[(((v, 1),), E0)].real
            c = -p.t.get((E0, E0), 0j).real / a
            up = (op[0] == '>') == (a > 0)
            if c < 0:
                return up != b.neg
            return self.one_variable(SymBool('ineq', (self.radicand[v] - c * c, '>' if up else '<'), b.neg))
        lo, hi = self.range.get(v, (v.lo, v.hi))
        deg = max((q for m, _ in p.t for _, q in m), default=0)
        if v.kind != 'real' or lo is None or hi is None or deg < 2:
            return b
        co = [0.0] * (deg + 1)
        for (m, _), c in p.t.items():
            co[m[0][1] if m else 0] = c.real
        l, h = _poly_range(co, lo, hi)
        eps = 1e-13 * max(abs(c) * max(abs(lo), abs(hi)) ** i for i, c in enumerate(co[1:], 1))
        if l > eps or h < -eps:
            return ((op[0] == '>') == (l > 0)) != b.neg
        l, h = _poly_range([i * c for i, c in enumerate(co)][1:], lo, hi)
        if not (l > 0 or h < 0):
            return b
        up = (l > 0) == (op[0] == '>')
        x, y = lo, hi
        for _ in range(200):
            m = (x + y) / 2
            if (_poly_at(co, m) > 0) == (l > 0):
                y = m
            else:
                x = m
        return SymBool('ineq', (Sym.var(v) - (x + y) / 2, ('>' if up else '<') + op[1:]), b.neg)

    def narrow(self, b, taken):
        m = [k for k in b.a[0].t if k != (E0, E0)]
        if len(m) != 1 or m[0][1] or len(m[0][0]) != 1 or m[0][0][0][1] != 1:
            return
        v = m[0][0][0][0]
        lo, hi = self.range.get(v, (v.lo, v.hi))
        if lo is None or hi is None:
            return
        a = b.a[0].t[m[0]].real
        x = -b.a[0].t.get((E0, E0), 0j).real / a
        above = ((b.a[1][0] == '>') == (a > 0)) == (taken != b.neg)
        x = min(max(x, lo), hi)
        self.range[v] = (x, hi) if above else (lo, x)

    def related(self, b):
        """postponed facts "p is not zero" about multiples and factors of the expression of b"""
        if not self.lazy or b.kind == 'z3' or b.a[0].isint or _is_linear(b.a[0]):
            return []
        q = b.a[0]
        out = []
        for p, e in zip(self.lazyp, self.lazy):
            if S._ratio(p, q) is not None or S.poly_div(p, q) is not None or S.poly_div(q, p) is not None:
                out.append(e)
        return out

    # ------------------------------------------------------------- sample pool (proves feasibility without the solver)
    def holds(self, b, env):
        """truth value of b under env, None when too close to call"""
        try:
            x = evaluate(b.a[0], self.filled(env))
        except (KeyError, ZeroDivisionError, OverflowError, TypeError):
            return None
        if b.kind == 'eq0':
            a = abs(x)
            r = None if 1e-9 < a < 1e-6 else a <= 1e-9
        elif b.kind == 'ineq':
            if b.a[0].isint:
                x = complex(round(x.real))
            elif abs(x.real) < 1e-9:
                return None
            r = {'<': x.real < 0, '<=': x.real <= 0, '>': x.real > 0, '>=': x.real >= 0}[b.a[1]]
        elif b.kind == 'abs':
            a, t = abs(x), b.a[1]
            if abs(a - t) < max(1e-6 if t <= 1e-7 else 1e-9, 1e-9):
                return None
            r = (a < t) == (b.a[2] in ('<', '<='))
        else:
            return None
        return r != b.neg

    def filled(self, env):
        for v in self.order[env.get('#', 0):]:
            if v in env:
                continue
            if v in self.subst:
                env[v] = evaluate(self.subst[v], env).real
            elif v.definition is not None:
                env[v] = v.definition(env)
            else:
                env[v] = self._default(v)
        env['#'] = len(self.order)
        return env

    def pool_sides(self, b):
        if b.kind == 'z3' or b.a[0].isint or self.nopool or not self.opts.get('pool'):
            return False, False
        if self.pool is None:
            self.pool = []
            for _ in range(self.opts['pool']):
                env = {}
                free = [v for v in self.order if v not in self.subst and v.definition is None]
                for v in free:
                    env[v] = self._default(v)
                try:
                    env = self.complete(env)
                    if any(abs(evaluate(self.subst[v], env).real - env[v]) > 1e-9 or env[v] < (v.lo or -1e300) or
                           (v.hi is not None and env[v] > v.hi) for v in self.subst):
                        continue
                except Exception:
                    continue
                env['#'] = len(self.order)
                if all(self.holds(c, env) is t or self.snapped and c.kind == 'ineq' and self.holds(c, env) is None for c, t in self.conds):
                    self.pool.append(env)
            if not self.pool:
                self.nopool = True
        t = f = False
        for env in self.pool:
            r = self.holds(b, env)
            t |= r is True
            f |= r is False
            if t and f:
                break
        return t, f

    def _const_truth(self, b, c):
        if b.kind == 'eq0':
            r = abs(c) < 1e-11
        elif b.kind == 'ineq':
            x = c.real if abs(c.real) >= 1e-11 else 0.0
            r = {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0}[b.a[1]]
        else:
            x = abs(c)
            r = {'<': x < b.a[1], '<=': x <= b.a[1], '>': x > b.a[1], '>=': x >= b.a[1]}[b.a[2]]
        return r != b.neg

    def commit(self, b, taken, thin):
        if thin:
            if b.kind == 'ineq':
                self.thin_wrap_left -= 1
            else:
                self.thin_eq_left -= 1
            p = b.a[0]
            # within 1e-7 of zero: treated as zero
            self.pool, self.nopool = None, False
            q = snap(p) if self.near == 1e-7 else p
            if q is not p:
                if not self.add_equality(q, False):
                    raise PathAbort()
                self.snapped = True
                z = self.to_z3(p)
                self.solver.add(z <= rvs(2e-7), z >= rvs(-2e-7))
                if self.check(*self.lazy) == z3.unsat:
                    raise PathAbort()
                self.squeeze()
                return
            if not self.add_equality(p):
                self.solver.add(self.to_z3_eq0(p))
                self.conds.append((SymBool('eq0', (p,)), True))
            if self.check(*self.lazy) == z3.unsat:
                raise PathAbort()
            self.squeeze()
            return
        self.conds.append((b, taken))
        if self.pool:
            self.pool = [x for x in self.pool if self.holds(b, x) is taken]
        if b.kind in ('eq0', 'abs') and not b.a[0].isint and not _is_linear(b.a[0]) and (b.kind == 'eq0' or b.a[1] <= self.near) \
                and taken != ((b.kind == 'eq0' or b.a[2] in ('<', '<=')) != b.neg):
            e = self.to_z3_bool(b)
            self.lazy.append(e if taken else z3.Not(e))
            self.lazyp.append(b.a[0])
            return      # "a trigonometric expression is not (nearly) zero": kept out of the solver
        e = self.to_z3_bool(b)
        self.solver.add(e if taken else z3.Not(e))
        if b.kind == 'ineq' and not b.a[0].isint and len(b.a[0].t) <= 2:
            self.narrow(b, taken)
        if b.kind == 'eq0' and taken != b.neg:
            self.add_equality(b.a[0])

    def squeeze(self):
        """remainders forced to zero by the linear constraints become equalities (known to the trigonometric terms too)"""
        for r in list(self.rems):
            d = self.apply_subst(r)
            if d.is_const():
                self.rems = [x for x in self.rems if x is not r]
            elif self.check(self.to_z3(d) > 0) == z3.unsat:
                self.rems = [x for x in self.rems if x is not r]
                self.add_equality(d)
        for v in self.order:
            if v.kind != 'int' or v.is_input or v in self.subst:
                continue
            if self.check() != z3.sat:
                return
            x = _znum(self.solver.model().eval(self.zv[v]))
            if x is not None and self.check(self.zv[v] != x) == z3.unsat:
                self.add_equality(Sym.var(v) - x)

    def add_cond(self, b):
        if b.kind != 'z3':
            p = self.apply_subst(b.a[0])
            b = SymBool(b.kind, (p,) + tuple(b.a[1:]), b.neg)
        self.conds.append((b, True))
        self.pool = None
        self.solver.add(self.to_z3_bool(b))
        if b.kind == 'eq0' and not b.neg and not b.a[0].is_const():
            self.add_equality(b.a[0])

    def add_equality(self, p, solver=True):
        """p == 0 on this path; eliminate a variable when p is linear."""
        if p.is_const():
            return True
        for q in self.lazyp if not _is_linear(p) else ():
            d = S.poly_div(p, self.apply_subst(q))
            if d is not None and not d.is_const():
                return self.add_equality(d, solver)     # a factor known not to vanish
        if not p.is_real():
            v = self.trig_root(p)
            if v is not None:
                return self.add_equality(v)
            a = self.add_equality(lift(p.real))
            return self.add_equality(self.apply_subst(lift(p.imag))) and a
        if solver:
            self.solver.add(self.to_z3_eq0(p))
        lin = _is_linear(p)
        occ = {}
        if not lin:
            v = self.trig_root(p)
            if v is not None:
                return self.add_equality(v)
            self.linear = False
            for m, ph in p.t:
                for v in {v for v, _ in m} | {v for mm, _ in ph for v, _ in mm}:
                    occ[v] = occ.get(v, 0) + 1
        best = None
        for (m, ph), c in p.t.items():
            if not m:
                continue
            if not lin and (ph or len(m) != 1 or m[0][1] != 1 or occ[m[0][0]] != 1):
                continue
            v = m[0][0]
            if abs(c.imag) > S.DROP:
                return False
            if v.kind == 'int':
                continue
            k = (0 if v.is_input else 1, -v.idx)
            if best is None or k < best[0]:
                best = (k, v, c.real)
        if best is None and not lin:
            return False
        if best is None:
            # only integers: solve if coefficient +-1
            for (m, _), c in p.t.items():
                if m and abs(abs(c.real) - 1) < 1e-12:
                    best = (None, m[0][0], c.real)
            if best is None:
                return True
        _, v, c = best
        rest = p - Sym({(((v, 1),), E0): complex(c)})
        repl = rest * (-1.0 / c)
        repl.isint = v.kind == 'int'
        self.subst[v] = repl
        for w in list(self.subst):
            if w is not v:
                self.subst[w] = substitute(self.subst[w], {v: repl})
        return True

    def trig_root(self, p):
        """v - x0 when p = c cos(e v + const) vanishes exactly once within the bounds of v"""
        if len(p.t) != 2:
            return None
        (k1, c1), (k2, c2) = p.t.items()
        if k1[0] != k2[0] or k1[0] or abs(abs(c1) - abs(c2)) > 1e-12 * abs(c1):
            return None
        d = dict(k1[1])
        for m, e in k2[1]:
            d[m] = d.get(m, 0) - e
        d = {m: e for m, e in d.items() if e}
        if len(d) != 1:
            return None
        (m, e), = d.items()
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'real':
            return None
        v = m[0][0]
        if v.lo is None or v.hi is None or v in self.subst or v.hi - v.lo > 100:
            return None
        # c1 e^{i e v} + c2 = 0
        x0 = cmath.phase(-c2 / c1) / float(e)
        step = 2 * math.pi / abs(float(e))
        k = math.ceil((v.lo - 1e-6 - x0) / step)
        cand = []
        while x0 + k * step <= v.hi + 1e-6:
            cand.append(x0 + k * step)
            k += 1
        if not cand:
            raise PathAbort()
        if len(cand) > 1 and not self.opts.get('pin_root') and v.hi - v.lo > 30:
            return None
        if len(cand) == 1:
            return Sym.var(v) - (cand[0] if abs(cand[0]) > 1e-12 else 0.0)
        n = round((cand[-1] - cand[0]) / step)
        k = self.fresh('root', 'int')
        k.definition = lambda env, a=cand[0], v=v: int(round((env.get(v, a) - a) / step))
        self.solver.add(self.zv[k] >= 0, self.zv[k] <= n)
        if not self.opts.get('pin_root'):
            return self.apply_subst(Sym.var(v) - cand[0] - Sym.var(k) * step)
        kk, m = Sym.var(k), n + 1
        if n > 3:                     # k = 4 j + r: only r matters to the phases that occur
            j = self.fresh('root4', 'int')
            j.definition = lambda env, k=k: k.definition(env) // 4
            r = self.fresh('rootr', 'int')
            r.definition = lambda env, k=k: k.definition(env) % 4
            self.solver.add(self.zv[k] == 4 * self.zv[j] + self.zv[r], self.zv[r] >= 0, self.zv[r] <= 3)
            kk, m = Sym.var(j) * 4 + Sym.var(r), 4
            pin = r
        else:
            pin = k
        for i in range(m - 1):
            d = Sym.var(pin) - i
            d.isint = True
            if self.branch(SymBool.eq0(d)):
                break
        else:
            d = Sym.var(pin) - (m - 1)
            d.isint = True
            self.add_equality(d)
        return self.apply_subst(Sym.var(v) - cand[0] - kk * step)

    # ------------------------------------------------------------- z3 translation
    def trig_base(self, mono, den):
        """(c, s, D): z3 vars for cos(m/D), sin(m/D) with den | D"""
        key = mono
        cur = self.trig.get(key)
        isint = S._is_int_mono(mono)
        if cur is None:
            D = math.lcm(2, den)
            cur = self._new_trig(key, D, isint)
        elif cur[2] % den:
            D = math.lcm(cur[2], den)
            old = cur
            cur = self._new_trig(key, D, isint)
            re, im = _zpow(cur[0], cur[1], D // old[2])
            self.solver.add(re == old[0], im == old[1])
        return cur

    def _new_trig(self, key, D, isint):
        nm = '*'.join(v.name for v, _ in key) + '/%d' % D
        c, s = z3.Real('c[%s]' % nm), z3.Real('s[%s]' % nm)
        self.solver.add(c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1)
        v0 = key[0][0]
        if len(key) == 1 and key[0][1] == 1 and not isint and v0.lo is not None and v0.hi is not None:
            lo, hi = v0.lo, v0.hi
            a, b = lo / D, hi / D
            if -math.pi / 2 <= a and b <= math.pi / 2:
                sl = lambda x, d: rvs(x + d if abs(x) > 1e-9 else 0.0)
                self.solver.add(c >= sl(min(math.cos(a), math.cos(b)), -1e-12))
                self.solver.add(s >= sl(math.sin(a), -1e-12), s <= sl(math.sin(b), 1e-12))
            elif 0 <= a and b <= math.pi:
                self.solver.add(s >= 0)
            if -math.pi <= a and b <= math.pi:
                # sin lies between the line through the origin and (on the inner half) the chord
                z = self.zv[v0] / D
                self.solver.add(z3.Implies(z >= 0, s <= z), z3.Implies(z <= 0, s >= z))
                if -math.pi / 2 <= a and b <= math.pi / 2:
                    q = rvs(0.63661)
                    self.solver.add(z3.Implies(z >= 0, z3.And(s >= q * z, c >= 1 - q * z)), z3.Implies(z <= 0, z3.And(s <= q * z, c >= 1 + q * z)))
        self.trig[key] = (c, s, D)
        self.linear = False
        return self.trig[key]

    def _phase_z3(self, ph):
        re, im = z3.RealVal(1), z3.RealVal(0)
        first = True
        par = tuple((mono, Fraction(e)) for mono, e in ph if S._is_int_mono(mono) and len(mono) == 1 and mono[0][1] == 1 and Fraction(e).denominator <= 4)
        if par:
            # e^{i pi k / D} for an integer combination k: one of 2 D constants
            if par not in self.parity:
                D = math.lcm(*[e.denominator for _, e in par])
                w, b = z3.Int('par%d' % len(self.parity)), z3.Int('odd%d' % len(self.parity))
                self.solver.add(z3.Sum([self.zv[m[0][0]] * int(e * D) for m, e in par] + [z3.IntVal(0)]) == 2 * D * w + b, b >= 0, b < 2 * D)
                pr, pi = z3.RealVal(1), z3.RealVal(0)
                for j in range(1, 2 * D):
                    x = cmath.exp(1j * math.pi * j / D)
                    pr = z3.If(b == j, rvs(round(x.real, 15)), pr)
                    pi = z3.If(b == j, rvs(round(x.imag, 15)), pi)
                self.parity[par] = (pr, pi)
            (re, im), first = self.parity[par], False
        done = {m for m, _ in par}
        for mono, e in ph:
            if mono in done:
                continue
            e = Fraction(e)
            c, s, D = self.trig_base(mono, e.denominator)
            n = int(e * D)
            r2, i2 = _zpow(c, s if n >= 0 else -s, abs(n))
            if first:
                re, im, first = r2, i2, False
            else:
                re, im = re * r2 - im * i2, re * i2 + im * r2
        return re, im

    def _mono_z3(self, m):
        r = None
        for v, p in m:
            z = self.zv[v]
            if v.kind == 'int':
                z = z3.ToReal(z)
            for _ in range(p):
                r = z if r is None else r * z
        return r

    def to_z3c(self, p):
        """(re, im) z3 terms"""
        res, ims = [], []
        phs = {}
        for (m, ph), c in p.t.items():
            mz = self._mono_z3(m)
            if ph:
                if ph not in phs:
                    phs[ph] = self._phase_z3(ph)
                pr, pi = phs[ph]
                parts = ((c.real, pr, c.imag, pi), (c.real, pi, -c.imag, pr))
                out = []
                for (a, x, b, y) in parts:
                    t = []
                    if abs(a) > S.DROP:
                        t.append(rvs(a) * x)
                    if abs(b) > S.DROP:
                        t.append(-(rvs(b) * y))
                    out.append(z3.Sum(t) if len(t) > 1 else (t[0] if t else None))
                for lst, x in ((res, out[0]), (ims, out[1])):
                    if x is not None:
                        lst.append(x if mz is None else x * mz)
            else:
                if abs(c.real) > S.DROP:
                    lst = rvs(c.real)
                    res.append(lst if mz is None else lst * mz)
                if abs(c.imag) > S.DROP:
                    lst = rvs(c.imag)
                    ims.append(lst if mz is None else lst * mz)
        f = lambda L: z3.Sum(L) if len(L) > 1 else (L[0] if L else z3.RealVal(0))  # noqa: E731
        return f(res), f(ims)

    def to_z3(self, p):
        if p.isint and all(not ph for _, ph in p.t):
            terms = []
            for (m, _), c in p.t.items():
                z = None
                for v, q in m:
                    for _ in range(q):
                        z = self.zv[v] if z is None else z * self.zv[v]
                k = int(round(c.real))
                terms.append(z3.IntVal(k) if z is None else k * z)
            return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.IntVal(0))
        return self.to_z3c(p)[0]

    def to_z3_eq0(self, p):
        if p.isint:
            return self.to_z3(p) == 0
        re, im = self.to_z3c(p)
        if p.is_real():
            return re == 0
        return z3.And(re == 0, im == 0)

    def to_z3_bool(self, b):
        k = b.kind
        if k == 'z3':
            e = b.a[0]
        elif k == 'eq0':
            e = self.to_z3_eq0(b.a[0])
        elif k == 'ineq':
            z = self.to_z3(b.a[0])
            e = {'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[b.a[1]]
        elif k == 'abs':
            t = rvs(b.a[1])
            op = b.a[2]
            if not b.a[0].is_real():
                re, im = self.to_z3c(b.a[0])
                e = z3.And(re <= t, re >= -t, im <= t, im >= -t)
                e = e if op in ('<', '<=') else z3.Not(e)
                return z3.Not(e) if b.neg else e
            z = self.to_z3(b.a[0])
            if op == '<':
                e = z3.And(z < t, z > -t)
            elif op == '<=':
                e = z3.And(z <= t, z >= -t)
            elif op == '>':
                e = z3.Or(z > t, z < -t)
            else:
                e = z3.Or(z >= t, z <= -t)
        else:
            raise AssertionError(k)
        return z3.Not(e) if b.neg else e

    # ------------------------------------------------------------- modelled library operations
    def entails(self, e):
        return self.check(z3.Not(e)) == z3.unsat

    def modulo(self, x, o):
        x = lift(x)
        o = lift(o)
        if o is None:
            raise TypeError('unsupported operand for %')
        if not o.is_const():
            o = Sym.const(o.__index__())
        if x.is_const():
            r = x.const_value().real % o.const_value().real
            return int(r) if x.isint else r
        m = o.const_value().real
        if m == 0:
            raise ZeroDivisionError('modulo by zero')
        x = self.apply_subst(x)
        if x.is_const():
            return x.const_value().real % m
        if m < 0:
            raise Unsupported('negative modulus')
        isint = x.isint and m == int(m)
        z = self.to_z3(x)
        if self.entails(z3.And(z >= 0, z < (int(m) if isint else rvs(m)))):
            return x
        k = self.quotient(x, m, isint)
        r = x - k * m
        r.isint = isint
        return r

    def floordiv(self, x, o):
        x, o = lift(x), lift(o)
        if not o.is_const():
            o = Sym.const(o.__index__())
        m = o.const_value().real
        x = self.apply_subst(x)
        if x.is_const():
            r = x.const_value().real // m
            return int(r) if x.isint else r
        if m < 0:
            x, m = -x, -m
        isint = x.isint and m == int(m)
        return self.quotient(x, m, isint)

    def quotient(self, x, m, isint):
        key = (_key(x), m)
        if key in self.mod_cache:
            return self.mod_cache[key]
        v = self.fresh('q', 'int')
        z = self.to_z3(x)
        kz = self.zv[v]
        if isint:
            self.solver.add(z - int(m) * kz >= 0, z - int(m) * kz < int(m))
        else:
            d = z - rvs(m) * z3.ToReal(kz)
            self.solver.add(d >= 0, d < rvs(m))
        v.definition = lambda env, x=x, m=m: math.floor(evaluate(x, env).real / m + (1e-9 if isint else 0))
        r = Sym.var(v)
        if self.opts.get('split_q') and not isint:
            r = Sym.const(self.concretize_int(r))
            r.isint = True
        self.mod_cache[key] = r
        if not isint and _is_linear(x):
            self.rems.append(x - m * r)
        return r

    def trunc(self, x):
        x = lift(x)
        if x.isint:
            return x
        if x.is_const():
            return int(x.const_value().real)
        r = self.floordiv(x, 1) if bool(x >= 0) else -self.floordiv(-x, 1)
        if self.opts.get('concrete_trunc') and not isinstance(r, int):
            r = self.concretize_int(lift(r))
        return r

    def rounding(self, x, n):
        key = ('round', _key(x), n)
        if key in self.mod_cache:
            return self.mod_cache[key]
        h = 0.5 * 10.0 ** (-(n or 0))
        d = self.fresh('dround', 'real', -h, h)
        d.definition = lambda env, x=x, n=n: round(evaluate(x, env).real, n or 0) - evaluate(x, env).real
        r = x + Sym.var(d)
        self.mod_cache[key] = r
        return r

    def concretize_int(self, x):
        x = self.apply_subst(x)
        if x.is_const():
            return int(round(x.const_value().real))
        for _ in range(self.opts.get('max_concretize', 600)):
            if self.pos < len(self.prefix):
                # value was chosen deterministically: smallest feasible value first
                pass
            v = self.min_value(x)
            if bool(SymBool('eq0', (x - v,))):
                return v
        raise Unsupported('integer with too many values')

    def min_value(self, x):
        z = self.to_z3(x)
        key = ('min', _key(x), len(self.conds))
        if self.check() != z3.sat:
            raise PathAbort()
        v = self.solver.model().eval(z, model_completion=True).as_long()
        # descend to the minimum so that re-execution is deterministic
        while True:
            r = self.check(z < v)
            if r != z3.sat:
                return v
            v = self.solver.model().eval(z, model_completion=True).as_long()

    def min_bits(self, z):
        r = self.check()
        if r == z3.unsat:
            raise PathAbort()
        if r != z3.sat:
            raise Unsupported('no value found')
        v = self.solver.model().eval(z, model_completion=True).as_signed_long()
        while self.check(z < v) == z3.sat:
            v = self.solver.model().eval(z, model_completion=True).as_signed_long()
        return v

    def require_nonzero(self, d):
        if bool(SymBool.eq0(d)):
            raise ZeroDivisionError('division by (symbolic) zero')

    def define_inverse(self, d):
        if not d.is_real():
            n = (d * d.conjugate()).real
            return d.conjugate() * lift(n).inverse()
        d = self.apply_subst(d)
        if d.is_const():
            return d.inverse()
        key = ('inv', _key(d))
        if key in self.def_cache:
            return self.def_cache[key]
        self.require_nonzero(d)
        if len(d.t) == 1:
            ((m, ph), c), = d.t.items()
            if not ph and (len(m) > 1 or m[0][1] > 1 or c != 1 or m[0][0].recip is not None):
                r = Sym.const(1 / c)
                for u, q in m:
                    for _ in range(q):
                        r = r * (Sym.var(u.recip) if u.recip is not None else self.define_inverse(Sym.var(u)))
                self.def_cache[key] = r
                return r
        v = self.fresh('inv', 'real')
        if len(d.t) == 1 and not ph:
            v.recip, m[0][0].recip = m[0][0], v
        self.solver.add(self.zv[v] * self.to_z3(d) == 1)
        v.definition = lambda env, d=d: 1.0 / evaluate(d, env).real
        self.linear = False
        r = Sym.var(v)
        self.def_cache[key] = r
        return r

    def define_sqrt(self, x):
        x = self.apply_subst(x)
        if x.is_const():
            return S.sym_sqrt(x)
        if not x.is_real():
            raise Unsupported('complex square root')
        if len(x.t) == 1:
            ((m, p), c), = x.t.items()
            if not p and c.real > 0 and all(q % 2 == 0 for _, q in m):
                r = Sym({(tuple((v, q // 2) for v, q in m), E0): complex(math.sqrt(c.real))})
                return r if bool(r >= 0) else -r
        q = S.poly_sqrt(x)
        if q is not None:
            return q if bool(q >= 0) else -q
        key = ('sqrt', _key(x))
        if key in self.def_cache:
            return self.def_cache[key]
        v = self.fresh('sqrt', 'real', 0)
        self.radicand[v] = x
        if not (len(set(u for m, _ in x.t for u, _ in m)) == 1 and max(sum(q for _, q in m) for m, _ in x.t) > 8 and not any(ph for _, ph in x.t)):
            self.solver.add(self.zv[v] * self.zv[v] == self.to_z3(x))
        v.definition = lambda env, x=x: math.sqrt(max(0.0, evaluate(x, env).real))
        self.linear = False
        r = Sym.var(v)
        self.def_cache[key] = r
        return r

    def define_angle(self, base, cosv, sinv, lo, hi, definition):
        """angle variable with given cosine and sine (Syms or numbers)"""
        v = self.fresh(base, 'real', lo, hi)
        v.definition = definition
        mono = ((v, 1),)
        c, s, D = self.trig_base(mono, 1)
        re, im = _zpow(c, s, D)
        if cosv is not None:
            self.solver.add(re == self.to_z3(lift(cosv)))
        if sinv is not None:
            self.solver.add(im == self.to_z3(lift(sinv)))
        self.linear = False
        return Sym.var(v)

    def trig_of(self, x):
        return None

    # ------------------------------------------------------------- obligations
    def refute(self, e):
        """unsat if e holds for every value on this path (bit-vector solver), else a counterexample"""
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.opts.get('full_ms', 60000))
        s.add(self.solver.assertions())
        s.add(z3.Not(e))
        t = time.perf_counter()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return s.model() if r == z3.sat else r

    def true(self, label, cond, detail=''):
        self.stats['obligations'] += 1
        if isinstance(cond, SymBool):
            if cond.kind == 'z3' or not self.apply_subst(cond.a[0]).is_const():
                if cond.kind != 'z3':
                    cond = SymBool(cond.kind, (self.apply_subst(cond.a[0]),) + tuple(cond.a[1:]), cond.neg)
                e = self.to_z3_bool(cond)
                r = self.refute(e) if cond.kind == 'z3' and all(v.kind == 'bits' for v in self.order) else self.check(z3.Not(e))
                if r == z3.unsat:
                    self.stats['discharged'] += 1
                    return
                if r == z3.unknown:
                    self.inconclusive.append(label)
                    self.failures.append((label, detail, self.sample_env()))
                    return
                env = self.env_from_model(r if isinstance(r, z3.ModelRef) else self.solver.model())
                self.failures.append((label, detail, env))
                return
            cond = self._const_truth(cond, self.apply_subst(cond.a[0]).const_value())
        if cond:
            self.stats['discharged'] += 1
        else:
            raise Violation(label, str(detail))

    def fail(self, label, detail=''):
        raise Violation(label, str(detail))

    def raises(self, label, excs, fn):
        self.stats['obligations'] += 1
        try:
            fn()
        except excs:
            self.stats['discharged'] += 1
            return
        raise Violation(label, 'no exception')

    def zero(self, label, values, tol=TOL, detail=''):
        """all values are 0 for every value of the symbolic variables on this path"""
        self.stats['obligations'] += 1
        vals = []
        worst = 0.0
        for v in _flatten(values):
            v = lift(v)
            v = self.apply_subst(v)
            if v.is_const():
                worst = max(worst, abs(v.const_value()))
                continue
            vals.append(v)
        if worst > tol:
            raise Violation(label, 'residual %g %s' % (worst, detail))
        if self.relaxed_zero(vals, tol):
            self.stats['discharged'] += 1
            self.stats['relaxed'] += 1
            return
        free = all(v.definition is None for p in vals for v in p.variables())
        envs = []
        if free:
            envs = self.sample_envs(6)
            hit = [e for e in envs if max(abs(evaluate(p, e)) for p in vals) > tol]
            if hit:
                self.failures.append((label, detail, hit[0]))
                return
        # full nonlinear query
        r, model = self.full_query(vals, tol)
        self.stats['full'] += 1
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return
        if not free:
            envs = self.sample_envs(6)
        if r == z3.sat:
            envs.insert(0, self.env_from_model(model))
        hit = [e for e in envs if _safe_max(vals, e) > tol]
        if hit:
            self.failures.append((label, detail, hit[0]))
        else:
            self.inconclusive.append(label)

    def same(self, label, a, b, tol=TOL, detail=''):
        """the values a and b, encoded independently of each other, agree for every value of the symbolic variables on this path"""
        a, b = list(_flatten(a)), list(_flatten(b))
        if len(a) != len(b):
            raise Violation(label, '%d values instead of %d' % (len(a), len(b)))
        diff = []
        disj = []
        t = rvs(tol)
        for x, y in zip(a, b):
            x, y = self.apply_subst(lift(x)), self.apply_subst(lift(y))
            d = x - y
            if isinstance(d, Sym) and d.is_const() and abs(d.const_value()) <= tol and not (x.is_const() and y.is_const()):
                for u, v in zip(self.to_z3c(x), self.to_z3c(y)):
                    if not (z3.is_rational_value(u) and z3.is_rational_value(v)):
                        disj += [u - v > t, v - u > t]
            diff.append(d)
        if disj:
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', self.opts.get('full_ms', 10000))
            s.add(z3.Or(disj))
            t0 = time.perf_counter()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.perf_counter() - t0
            if r != z3.unsat:
                self.stats['unknown'] += 1
                self.inconclusive.append(label)
        self.zero(label, diff, tol, detail)

    def relaxed_zero(self, vals, tol):
        """Linear relaxation: every monomial*phase term is an independent variable within its bounds."""
        if not vals:
            return True
        w = {}
        s = z3.SimpleSolver()
        disj = []
        for p in vals:
            re, im = [], []
            for (m, ph), c in p.t.items():
                b = 1.0
                for v, q in m:
                    if v.lo is None or v.hi is None:
                        b = None
                        break
                    b *= max(abs(v.lo), abs(v.hi)) ** q
                if b is None:
                    return False
                if abs(c) * b > tol:
                    return False
                # (re + i im) of c * unit: bounded by |c|*b in both components
                k = (m, ph)
                if k not in w:
                    a, d = z3.Real('wr%d' % len(w)), z3.Real('wi%d' % len(w))
                    w[k] = (a, d)
                    bb = rvs(b)
                    s.add(a <= bb, a >= -bb, d <= bb, d >= -bb)
                a, d = w[k]
                re.append(rv(c.real) * a - rv(c.imag) * d)
                im.append(rv(c.real) * d + rv(c.imag) * a)
            t = rvs(tol)
            re, im = z3.Sum(re), z3.Sum(im)
            disj += [re > t, re < -t, im > t, im < -t]
        s.add(z3.Or(disj))
        t0 = time.perf_counter()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t0
        return r == z3.unsat

    def full_query(self, vals, tol):
        disj = []
        for p in vals:
            re, im = self.to_z3c(p)
            t = rvs(tol)
            disj += [re > t, re < -t]
            if not p.is_real():
                disj += [im > t, im < -t]
        s = z3.Solver()
        s.set('timeout', self.opts.get('full_ms', 10000))
        s.add(self.solver.assertions())
        s.add(self.lazy)
        s.add(z3.Or(disj))
        t0 = time.perf_counter()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.perf_counter() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, (s.model() if r == z3.sat else None)

    # ------------------------------------------------------------- concrete witnesses
    def env_from_model(self, m):
        env = {}
        for v in self.order:
            if v in self.subst:
                continue
            if v.definition is not None:
                continue
            z = m.eval(self.zv[v], model_completion=False)
            val = _znum(z)
            if val is None:
                val = self._default(v)
            # angle determined through its trig variables?
            t = self.trig.get(((v, 1),))
            if t is not None and v.kind == 'real':
                c, s = _znum(m.eval(t[0], model_completion=True)), _znum(m.eval(t[1], model_completion=True))
                if c is not None and s is not None:
                    val = math.atan2(s, c) * t[2]
            env[v] = val
        return self.complete(env)

    def _default(self, v):
        lo = v.lo if v.lo is not None else -3
        hi = v.hi if v.hi is not None else 3
        if v.kind in ('int', 'bits'):
            return self.rng.randint(int(lo), int(hi))
        return round(self.rng.uniform(lo, hi), 3)

    def complete(self, env):
        for v in self.order:
            if v in env:
                continue
            if v in self.subst:
                continue
            if v.definition is not None:
                try:
                    env[v] = v.definition(env)
                except Exception:
                    env[v] = 0
            else:
                env[v] = self._default(v)
        for _ in range(4):
            for v in self.order:
                if v in self.subst:
                    x = evaluate(self.subst[v], env, partial=True).real
                    env[v] = int(round(x)) if v.kind == 'int' else x
            for v in self.order:
                if v.definition is not None and v not in self.subst:
                    try:
                        env[v] = v.definition(env)
                    except Exception:
                        pass
        return env

    def sample_env(self):
        e = self.sample_envs(1)
        return e[0] if e else None

    def sample_envs(self, n):
        out = []
        inputs = [v for v in self.order if v.definition is None and v not in self.subst]
        if not self.conds and not self.subst and all(True for _ in inputs):
            for _ in range(n):
                out.append(self.complete({v: self._default(v) for v in inputs}))
            return out
        sol = z3.SimpleSolver()
        sol.set('timeout', 2000)
        sol.add(self.solver.assertions())
        for _ in range(n):
            pts = []
            vs = inputs[:]
            self.rng.shuffle(vs)
            for v in vs:
                for _try in range(2):
                    x = self._default(v)
                    e = self.zv[v] == (int(x) if v.kind != 'real' else rvs(x))
                    t0 = time.perf_counter()
                    r = sol.check(*(pts + [e]))
                    self.stats['queries'] += 1
                    self.stats['solver_s'] += time.perf_counter() - t0
                    if r == z3.sat:
                        pts.append(e)
                        break
            if sol.check(*pts) == z3.sat:
                m = sol.model()
                env = {}
                for v in inputs:
                    val = _znum(m.eval(self.zv[v], model_completion=True))
                    env[v] = val if val is not None else self._default(v)
                out.append(self.complete(env))
            else:
                out.append(self.complete({}))
        return out


def _safe_max(vals, e):
    try:
        return max(abs(evaluate(p, e)) for p in vals)
    except Exception:
        return 0.0


def _znum(z):
    try:
        if z3.is_int_value(z) or z3.is_bv_value(z):
            return z.as_long()
        if z3.is_rational_value(z):
            return float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
        if z3.is_algebraic_value(z):
            a = z.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        pass
    return None


def _zpow(c, s, n):
    if n == 0:
        return z3.RealVal(1), z3.RealVal(0)
    re, im = c, s
    for _ in range(n - 1):
        re, im = re * c - im * s, re * s + im * c
    return re, im


def snap(p):
    """p with its constant moved to the multiple of pi/8 (or 0) it is within 1e-7 of: the exact boundary of a thin branch"""
    c = p.t.get((E0, E0))
    if c is None or abs(c.imag) > S.DROP or not _is_linear(p):
        return p
    k = round(c.real / (math.pi / 8))
    x = k * math.pi / 8
    if abs(x - c.real) < 1e-7 and x != c.real:
        return p + (x - c.real)
    return p


def _poly_at(co, x):
    r = 0.0
    for c in reversed(co):
        r = r * x + c
    return r


def _poly_range(co, lo, hi, pieces=512):
    """bounds of a polynomial on an interval (interval Horner scheme on the shifted polynomial of every piece)"""
    rl, rh = math.inf, -math.inf
    w = (hi - lo) / pieces / 2
    n = len(co)
    for k in range(pieces):
        x = lo + (2 * k + 1) * w
        sh = list(co)
        for i in range(n):
            for j in range(n - 2, i - 1, -1):
                sh[j] += x * sh[j + 1]
        r = sum(abs(c) * w ** i for i, c in enumerate(sh) if i)
        rl, rh = min(rl, sh[0] - r), max(rh, sh[0] + r)
    return rl, rh


def _is_linear(p):
    for m, ph in p.t:
        if ph:
            return False
        if m and not (len(m) == 1 and m[0][1] == 1):
            return False
    return True


def _flatten(x):
    if isinstance(x, np.ndarray):
        for y in np.asarray(x).flat:
            yield from _flatten(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _flatten(y)
    else:
        yield x


def substitute(p, mp):
    """replace variables by Syms"""
    out = Sym({})
    for (m, ph), c in p.t.items():
        t = Sym({(E0, E0): c})
        if any(v in mp for v, _ in m):
            for v, q in m:
                t = t * ((mp[v] if v in mp else Sym.var(v)) ** q)
        else:
            t = Sym({(m, E0): c})
        rest = []
        for mono, e in ph:
            if any(v in mp for v, _ in mono):
                f = Sym.const(1)
                for v, q in mono:
                    f = f * ((mp[v] if v in mp else Sym.var(v)) ** q)
                k = math.pi if S._is_int_mono(mono) else 1.0
                t = t * S.sym_exp(1j * float(e) * k * f)
            else:
                rest.append((mono, e))
        if rest:
            t = t * Sym({(E0, tuple(rest)): 1 + 0j})
        out = out + t
    out.isint = p.isint and all(getattr(x, 'isint', False) or S._ii(x) for x in mp.values())
    return out


def evaluate(p, env, partial=False):
    if not isinstance(p, Sym):
        return complex(p)
    r = 0j
    for (m, ph), c in p.t.items():
        x = c
        for v, q in m:
            x *= env.get(v, 0.0) ** q if partial else env[v] ** q
        a = 0.0
        for mono, e in ph:
            y = float(e)
            for v, q in mono:
                y *= (env.get(v, 0.0) if partial else env[v]) ** q
            if S._is_int_mono(mono):
                y *= math.pi
            a += y
        if ph:
            x *= cmath.exp(1j * a)
        r += x
    return r


class Concrete:
    """Harness API with concrete values (runs on the unmodified code)."""

    symbolic = False

    def __init__(self, values, choices, seed=0):
        self.values, self.chosen = values, choices
        self.rng = random.Random(seed)
        self.rnd = []

    def _get(self, name, lo, hi, integer=False):
        if name in self.values and self.values[name] is not None:
            return self.values[name]
        return self.rng.randint(lo, hi) if integer else self.rng.uniform(lo, hi)

    def angle(self, name, lo=-40.0, hi=40.0):
        return float(self._get(name, lo, hi))

    def real(self, name, lo=-1.0, hi=1.0):
        return float(self._get(name, lo, hi))

    def cplx(self, name, bound=1.0):
        return complex(self.real(name + '.re', -bound, bound), self.real(name + '.im', -bound, bound))

    def int(self, name, lo, hi):
        return int(self._get(name, lo, hi, True))

    def bits(self, name, n):
        return int(self._get(name, 0, (1 << n) - 1, True))

    def choice(self, name, options):
        return list(options)[self.chosen.get(name, 0)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def unit_random(self, name='rnd'):
        return float(min(max(self._get(name, 0.0, 1.0), 0.0), 1 - 2.0 ** -53))

    def true(self, label, cond, detail=''):
        if not cond:
            raise Violation(label, str(detail))

    def fail(self, label, detail=''):
        raise Violation(label, str(detail))

    def raises(self, label, excs, fn):
        try:
            fn()
        except excs:
            return
        raise Violation(label, 'no exception')

    def same(self, label, a, b, tol=TOL, detail=''):
        a, b = list(_flatten(a)), list(_flatten(b))
        if len(a) != len(b):
            raise Violation(label, '%d values instead of %d' % (len(a), len(b)))
        self.zero(label, [complex(x) - complex(y) for x, y in zip(a, b)], tol, detail)

    def zero(self, label, values, tol=TOL, detail=''):
        for v in _flatten(values):
            if not (abs(complex(v)) <= tol):
                raise Violation(label, 'residual %r %s' % (v, detail))


def explore(fn, params, opts, on_fail, on_path=None):
    """Run harness fn(h, **params) on every feasible path.  on_fail(kind, label, detail, values, choices) -> None.
    Returns statistics."""
    tot = dict(paths=0, aborted=0, queries=0, solver_s=0.0, branches=0, thin_skipped=0, obligations=0, discharged=0,
               relaxed=0, full=0, unknown=0, unsupported=0, inconclusive=0, truncated=0)
    rng = random.Random(opts.get('seed', 1))
    stack = [[]]
    maxp = opts.get('max_paths', 4000)
    deadline = opts.get('deadline')
    while stack:
        if tot['paths'] >= maxp or (deadline and time.time() > deadline):
            tot['truncated'] = len(stack)
            break
        prefix = stack.pop()
        c = Ctx(prefix, opts, rng)
        S.set_ctx(c)
        gc.disable()
        try:
            err = None
            fn(c, **params)
        except PathAbort:
            tot['aborted'] += 1
            stack.extend(c.alts)
            _acc(tot, c)
            err = 'abort'
        except Budget:
            tot['truncated'] += len(stack) + 1
            _acc(tot, c)
            err = 'budget'
        except Violation as e:
            err = ('violation', e.label, e.detail)
        except Unsupported as e:
            err = ('unsupported', 'unsupported', str(e) + ' @ ' + _where(e))
        except RecursionError as e:
            err = ('exception', 'exception:RecursionError', str(e)[:200])
        except Exception as e:  # the code under test (or the model) raised
            err = ('exception', 'exception:' + type(e).__name__, str(e)[:300] + ' @ ' + _where(e))
        S.set_ctx(None)
        quiet_cleanup()
        if err == 'abort':
            continue
        if err == 'budget':
            break
        S.set_ctx(c)
        tot['paths'] += 1
        try:
            if err is not None:
                if err[0] == 'unsupported':
                    tot['unsupported'] += 1
                env = c.sample_env()
                on_fail(err[0], err[1], err[2], _values(c, env), dict(c.choices))
            for label, detail, env in c.failures:
                on_fail('residual', label, detail, _values(c, env), dict(c.choices))
            tot['inconclusive'] += len(c.inconclusive)
            if on_path is not None:
                on_path(tot['paths'], c)
        except PathAbort:
            pass
        stack.extend(c.alts)
        _acc(tot, c)
    S.set_ctx(None)
    return tot


def quiet_cleanup():
    """Destroy the engines and qubits of a finished path without executing their clean-up code."""
    qm, mm = sys.modules.get('projectq.types._qubit'), sys.modules.get('projectq.cengines._main')
    saved = []
    for mod, cls in ((qm, 'Qubit'), (mm, 'MainEngine')):
        k = getattr(mod, cls, None)
        if k is not None and '__del__' in k.__dict__:
            saved.append((k, k.__dict__['__del__']))
            k.__del__ = lambda self: None
    gc.collect()
    for k, f in saved:
        k.__del__ = f


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/repo/' in f.filename or '/projectq/' in f.filename] or tb
    return ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-3:][::-1])


def _values(c, env):
    if env is None:
        return {}
    return {v.name: env[v] for v in c.order if v.is_input and v in env}


def _acc(tot, c):
    for k in ('queries', 'solver_s', 'branches', 'thin_skipped', 'obligations', 'discharged', 'relaxed', 'full', 'unknown'):
        tot[k] += c.stats[k]
