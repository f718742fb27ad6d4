"""Reference execution of reversible circuits on symbolic classical bits: every wire is a truth value (bool or z3 expression)."""
import z3

from . import bits as B
from . import quantum as Q
from .sym import SymBool


def land(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def lnot(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def lxor(a, b):
    if isinstance(a, bool):
        return lnot(b) if a else b
    if isinstance(b, bool):
        return lnot(a) if b else a
    return z3.Xor(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    A = z3.BoolVal(a) if isinstance(a, bool) else a
    D = z3.BoolVal(b) if isinstance(b, bool) else b
    return z3.If(c, A, D)


def same(a, b):
    return lnot(lxor(a, b))


def truth(e):
    """what a harness assertion accepts"""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool.expr(e)


def expr(x):
    """bool / SymBool / z3 -> bool or z3"""
    return B.x_expr(x) if isinstance(x, SymBool) else x


class Wires:
    def __init__(self, h):
        self.h, self.v = h, {}

    def set(self, ids, value):
        for i, q in enumerate(ids):
            self.v[q] = B.bit_of(value, i)

    def get(self, ids):
        bs = [self.v[q] for q in ids]
        if all(isinstance(b, bool) for b in bs):
            return sum(b << i for i, b in enumerate(bs))
        return B.from_bits(bs)

    def cond(self, ctr, cs):
        return land(*[self.v[q] if s == '1' else lnot(self.v[q]) for q, s in zip(ctr, cs)])

    def run(self, cmds, prims=(), on_measure=None):
        """executes X, Swap, allocation and release; prims: {gate class: f(wires, gate, registers, condition)}"""
        from projectq import ops
        prims = dict(prims)
        for cmd in cmds:
            g, regs, ctr, cs = Q.cmd_info(cmd)
            t = type(g)
            if isinstance(g, ops.FlushGate):
                continue
            if t.__name__ in ('AllocateQubitGate', 'AllocateDirtyQubitGate'):
                self.v[regs[0][0]] = False
                continue
            if t.__name__ == 'DeallocateQubitGate':
                self.h.true('released helper qubit is 0', truth(lnot(self.v.pop(regs[0][0]))))
                continue
            c = self.cond(ctr, cs)
            if isinstance(g, ops.XGate):
                q = regs[0][0]
                if q in ctr:
                    self.h.fail('target qubit is its own control', str(cmd))
                self.v[q] = lxor(self.v[q], c)
            elif isinstance(g, ops.SwapGate):
                a, b = regs[0][0], regs[1][0]
                x, y = self.v[a], self.v[b]
                self.v[a], self.v[b] = ite(c, y, x), ite(c, x, y)
            elif t in prims:
                prims[t](self, g, regs, c)
            else:
                self.h.fail('unexpected gate', str(cmd))


def conditional(w, regs, c, f):
    """registers <- f(values) (modulo their sizes) where c holds"""
    old = [w.get(r) for r in regs]
    new = f(*old)
    for r, x in zip(regs, new):
        for i, q in enumerate(r):
            w.v[q] = ite(c, B.bit_of(x, i), w.v[q])


def equals(h, label, w, ids, want, detail=''):
    e = land(*[same(w.v[q], B.bit_of(want, i)) for i, q in enumerate(ids)])
    h.true(label, truth(e), detail)
