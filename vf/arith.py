"""Harness for the arithmetic library: compile a gate with its rules, run the reversible circuit on symbolic registers, compare with the integers."""
from . import bits as B
from . import quantum as Q
from . import revsim as V
from .engine import PathAbort


def ite(c, a, b):
    """integer choice"""
    if isinstance(c, bool):
        return a if c else b
    import z3
    a, b = B.Bits.lift(a), B.Bits.lift(b)
    w = max(a.w, b.w)
    return B.Bits.make(z3.If(V.expr(c), a.ext(w), b.ext(w)), a.nn and b.nn)


def lt(a, b):
    return V.expr(a < b)


def gates():
    """name -> (gate, registers as functions of n, specification: values -> (new values), precondition or None, inverse specification)
    values are numbers; '0' in a register description: it has to hold 0"""
    from projectq.libs import math as M
    d = {}

    def carry(a, b, n):
        return V.lnot(V.expr((a + b) < (1 << n)))
    d['add'] = dict(gate=M.AddQuantum, regs=lambda n: [n, n], f=lambda n, a, b: (a, a + b), inv=lambda n, a, b: (a, b - a))
    d['add carry'] = dict(gate=M.AddQuantum, regs=lambda n: [n, n, 1], f=lambda n, a, b, c: (a, a + b, c ^ ite(carry(a, b, n), 1, 0)),
                          inv=lambda n, a, b, c: (a, b - a, c ^ ite(lt(b, a), 1, 0)))
    d['add carry2'] = dict(gate=M.AddQuantum, regs=lambda n: [n, n, 2], f=lambda n, a, b, c: (a, a + b, c ^ ite(carry(a, b, n), 1, 0)),
                           inv=lambda n, a, b, c: (a, b - a, c ^ ite(lt(b, a), 1, 0)), pre=lambda n, a, b, c: (c >> 1) == 0)
    d['subtract'] = dict(gate=M.SubtractQuantum, regs=lambda n: [n, n], f=lambda n, a, b: (a, b - a), inv=lambda n, a, b: (a, b + a))
    d['compare'] = dict(gate=M.ComparatorQuantum, regs=lambda n: [n, n, 1], f=lambda n, a, b, c: (a, b, c ^ ite(lt(b, a), 1, 0)),
                        inv=lambda n, a, b, c: (a, b, c ^ ite(lt(b, a), 1, 0)))
    d['multiply'] = dict(gate=M.MultiplyQuantum, regs=lambda n: [n, n, 2 * n + 1], f=lambda n, a, b, c: (a, b, a * b), pre=lambda n, a, b, c: c == 0,
                         inv=lambda n, a, b, c: (a, b, 0), ipre=lambda n, a, b, c: c == a * b)
    d['divide'] = dict(gate=M.DivideQuantum, regs=lambda n: [n, n, n], f=lambda n, a, r, d: (a % d, a // d, d),
                       pre=lambda n, a, r, d: [r == 0, d > 0, d <= a],
                       inv=lambda n, r, q, d: (q * d + r, 0, d), ipre=lambda n, r, q, d: [d > 0, r < d, q * d + r < (1 << n), q > 0])
    return d


def assume(h, x):
    for c in x if isinstance(x, list) else [x]:
        h.assume(c)


def rules():
    import projectq.libs.math
    import projectq.setups.decompositions
    from projectq.cengines import DecompositionRuleSet
    return DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])


def plain(cmd):
    from projectq import ops
    return isinstance(cmd.gate, (ops.XGate, ops.SwapGate, ops.FlushGate)) or cmd.gate in (ops.Allocate, ops.Deallocate, ops.Measure)


def compile_gate(h, sizes, nc, cstate, use, accept=plain, extra=()):
    """commands of use(registers), registers' ids, control ids"""
    from projectq.cengines import AutoReplacer
    from projectq.meta import Control
    eng, rec = Q.engine([AutoReplacer(rules())] + list(extra), accept)
    regs = [eng.allocate_qureg(k) for k in sizes]
    ctr = eng.allocate_qureg(nc)
    ids = [[q.id for q in r] for r in regs]
    cid = [q.id for q in ctr]
    start = len(rec.cmds)
    if nc:
        with Control(eng, ctr, cstate):
            use(eng, regs)
    else:
        use(eng, regs)
    eng.flush()
    h.true('registers keep their qubits', [[q.id for q in r] for r in regs] == ids)
    cmds = list(rec.cmds)[start:]
    return cmds, ids, cid


def run(h, name, n, nc, cstate, how):
    """how: gate | inverse | dagger | inverse of inverse"""
    from projectq.meta import Dagger
    from projectq.ops import get_inverse
    g = gates()[name]
    gate, sizes = g['gate'], g['regs'](n)

    def use(eng, regs):
        t = tuple(regs)
        if how == 'gate':
            gate | t
        elif how == 'inverse':
            get_inverse(gate) | t
        elif how == 'dagger':
            with Dagger(eng):
                gate | t
        elif how == 'double':
            with Dagger(eng):
                with Dagger(eng):
                    gate | t
        elif how == 'dagger inverse':
            with Dagger(eng):
                get_inverse(gate) | t
    try:
        cmds, ids, cid = compile_gate(h, sizes, nc, cstate, use)
    except ValueError:
        # more controls than the conditional adders take: refused
        if nc + (name in ('multiply', 'divide')) > 1:
            return
        raise
    inverse = how in ('inverse', 'dagger')
    w = V.Wires(h)
    vals = [h.bits('r%d' % i, k) for i, k in enumerate(sizes)]
    cv = h.bits('controls', nc)
    pre = g.get('ipre' if inverse and 'ipre' in g else 'pre')
    if pre and not (inverse and 'ipre' not in g and False):
        assume(h, pre(n, *vals))
    for r, x in zip(ids, vals):
        w.set(r, x)
    w.set(cid, cv)
    on = w.cond(cid, cstate)
    want = (g['inv'] if inverse else g['f'])(n, *vals)
    want = [ite(on, y, x) for x, y in zip(vals, want)] if nc else list(want)
    w.run(cmds)
    for i, (r, x) in enumerate(zip(ids, want)):
        V.equals(h, 'register %d' % i, w, r, x)
    V.equals(h, 'controls', w, cid, cv)
    h.true('no leftovers', set(w.v) == set(q for r in ids + [cid] for q in r))


# ------------------------------------------------------------------ constants
def only_math(*names):
    """accepts plain reversible gates and the named arithmetic gates"""
    from projectq.libs import math as M
    cl = tuple(getattr(M, n) for n in names)
    return lambda cmd: plain(cmd) or isinstance(cmd.gate, cl)


def prim_add(w, g, regs, c):
    V.conditional(w, regs, c, lambda x: (x + g.a,))


def prim_addmod(w, g, regs, c):
    x, a, N = w.get(regs[0]), g.a, g.N
    ok = V.land(*[V.expr(e) for e in (x < N, a >= 0, a < N)])
    w.h.true('modular addition is used within its precondition', V.truth(ok if c is True else (True if c is False else V.lnot(V.land(c, V.lnot(ok))))))
    V.conditional(w, regs, c, lambda x: ((x + a) % N,))


def add_constant(h, n, nc, cstate, how):
    """|x> -> |x + c mod 2^n> for every c in [-2^n, 2^n) and every superposition of the x, through the Fourier-space circuit"""
    from projectq.libs import math as M
    from projectq.meta import Dagger
    from projectq.ops import get_inverse
    from projectq.ops import QFT, DaggeredGate
    c = h.bits('c', n + 1) - (1 << n)
    g = M.AddConstant(c)

    def use(eng, regs):
        if how == 'dagger':
            with Dagger(eng):
                g | regs[0]
        else:
            (get_inverse(g) if how == 'inverse' else M.SubConstant(c) if how == 'sub' else g) | regs[0]
    cmds, ids, cid = compile_gate(h, [n], nc, cstate, use, accept=lambda cmd: not isinstance(cmd.gate, (M.AddConstant, type(QFT))) and not isinstance(cmd.gate, DaggeredGate))
    wires = ids[0] + cid
    amps = [h.cplx('x%d' % i) for i in range(1 << len(wires))]
    s = Q.State.symbolic(wires, amps)
    Q.Runner(h, s).run(cmds)
    c = c.__index__()
    k = -c if how != 'gate' else c
    want = [0.0] * len(amps)
    for i, a in enumerate(amps):
        x, y = i & ((1 << n) - 1), i >> n
        on = all(((y >> j) & 1) == int(b) for j, b in enumerate(cstate))
        want[((x + k) % (1 << n) if on else x) | y << n] = a
    ref = Q.State.symbolic(wires, want)
    h.zero('sum', Q.residual(ref, s))


def add_far(h, n, nc, cstate, how):
    """wider registers, constants with at most two one bits and their negatives; every superposition (the circuit is linear)"""
    from projectq.libs import math as M
    from projectq.meta import Dagger
    from projectq.ops import get_inverse, QFT, DaggeredGate
    j = h.choice('bit', range(n))
    k = h.choice('other bit', [None] + list(range(j)))
    c = (1 << j) + (0 if k is None else 1 << k)
    if h.choice('negative', [0, 1]):
        c = -c
    g = M.AddConstant(c)

    def use(eng, regs):
        if how == 'dagger':
            with Dagger(eng):
                g | regs[0]
        else:
            (get_inverse(g) if how == 'inverse' else M.SubConstant(c) if how == 'sub' else g) | regs[0]
    cmds, ids, cid = compile_gate(h, [n], nc, cstate, use, accept=lambda cmd: not isinstance(cmd.gate, (M.AddConstant, type(QFT))) and not isinstance(cmd.gate, DaggeredGate))
    wires = ids[0] + cid
    s, want = Q.State(wires), Q.State(wires)
    Q.Runner(h, s).run(cmds)
    want.permute(lambda v: [(v[0] + (c if how == 'gate' else -c)) % (1 << n)], [ids[0]], cid, cstate)
    h.zero('sum', Q.residual(want, s))


def add_mod(h, n, nc, cstate, how):
    """|x> -> |x + a mod N> for every N that fits the register, 0 <= a < N and x < N"""
    from projectq.libs import math as M
    from projectq.meta import Dagger
    from projectq.ops import get_inverse
    N, a, x = h.bits('N', n + 1), h.bits('a', n), h.bits('x', n)
    assume(h, [N <= (1 << n), a < N, x < N])
    g = M.AddConstantModN(a, N)

    def use(eng, regs):
        if how == 'dagger':
            with Dagger(eng):
                g | regs[0]
        else:
            (get_inverse(g) if how == 'inverse' else M.SubConstantModN(a, N) if how == 'sub' else g) | regs[0]
    cmds, ids, cid = compile_gate(h, [n], nc, cstate, use, accept=only_math('AddConstant'))
    _modular(h, cmds, ids, cid, cstate, x, (lambda: (x + a) % N) if how == 'gate' else (lambda: (x - a) % N), {M.AddConstant: prim_add})


def _modular(h, cmds, ids, cid, cstate, x, f, prims, verify=None):
    w = V.Wires(h)
    cv = h.bits('controls', len(cid))
    w.set(ids[0], x)
    w.set(cid, cv)
    on = w.cond(cid, cstate)
    w.run(cmds, prims)
    if verify is not None:
        verify(w, on)
    else:
        V.equals(h, 'result', w, ids[0], ite(on, f(), x) if cid else f())
    V.equals(h, 'controls', w, cid, cv)
    h.true('no leftovers', set(w.v) == set(ids[0] + cid))


def coprime(n):
    import math
    return [(N, a) for N in range(2, (1 << n) + 1) for a in range(1, N) if math.gcd(a, N) == 1]


def mul_mod(h, n, nc, cstate, how, fixed=None):
    """|x> -> |a x mod N> for every N that fits the register, a coprime to it and x < N"""
    from projectq.libs import math as M
    from projectq.meta import Dagger
    from projectq.ops import get_inverse
    N, a = h.choice('N, a', fixed or coprime(n))
    x = h.bits('x', n)
    assume(h, x < N)
    g = M.MultiplyByConstantModN(a, N)

    def use(eng, regs):
        if how == 'dagger':
            with Dagger(eng):
                g | regs[0]
        else:
            (get_inverse(g) if how == 'inverse' else g) | regs[0]
    cmds, ids, cid = compile_gate(h, [n], nc, cstate, use, accept=only_math('AddConstantModN'))

    def undone(w, on):
        y = w.get(ids[0])
        ok = V.land(*[V.expr(e) for e in (y < N, (a * y) % N == x)])
        h.true('result', V.truth(ok if on is True else V.land(V.lnot(V.land(on, V.lnot(ok))), V.lnot(V.land(V.lnot(on), V.lnot(V.expr(y == x)))))))
    _modular(h, cmds, ids, cid, cstate, x, lambda: (a * x) % N, {M.AddConstantModN: prim_addmod}, undone if how != 'gate' else None)


def inverse_number(h, n):
    """inv_mod_N is the modular inverse"""
    from projectq.libs.math._constantmath import inv_mod_N
    N, a = h.choice('N', range(2, 1 << n)), h.bits('a', n)
    assume(h, [a > 0, a < N])
    assume(h, B.gcd(a, N) == 1)
    r = inv_mod_N(a, N)
    h.true('in range', V.truth(V.land(V.expr(r >= 0), V.expr(r < N))))
    h.true('inverse', (a * r) % N == 1)


def inverse_wide(h, pairs):
    """the same for numbers a register of realistic width holds"""
    from projectq.libs.math._constantmath import inv_mod_N
    N, a = h.choice('N, a', pairs)
    d = h.choice('offset', range(8))
    import math
    a = a + d
    h.assume(math.gcd(a, N) == 1)
    r = inv_mod_N(a, N)
    h.true('inverse', (a * r) % N == 1)


def refuse(h, which, n):
    """arguments outside the range are rejected before anything is executed"""
    from projectq.libs import math as M
    N, a = h.bits('N', n + 1), h.bits('a', n + 2) - (1 << n)
    assume(h, [N <= (1 << n), N > 1])
    E = ValueError
    if which == 'add range':
        if not bool(a < 0) and not bool(a > N):
            return
        g = M.AddConstantModN(a, N)
    elif which == 'mul range':
        if not bool(a < 0) and not bool(a > N):
            return
        g = M.MultiplyByConstantModN(a, N)
    else:
        if not bool(a > 0) or not bool(a < N) or bool(B.gcd(a, N) == 1):
            return
        g = M.MultiplyByConstantModN(a, N)
    h.raises('rejected', E, lambda: compile_gate(h, [n], 0, '', lambda eng, r: g | r[0], accept=only_math('AddConstant', 'AddConstantModN') if which == 'gcd' else plain))
