"""Harness for the integer functions attached to the arithmetic gates and their execution by the state-vector simulators."""
import itertools

from . import arith as A
from . import bits as B
from . import revsim as V
from . import simcases as C
from . import simlib as L


def _qubits(sizes):
    from projectq.types import Qureg, WeakQubitRef
    ids = itertools.count()
    return tuple(Qureg([WeakQubitRef(None, next(ids)) for _ in range(k)]) for k in sizes)


def _call(gate, sizes, vals):
    """the values the registers get (modulo their sizes, as the simulators write them)"""
    out = gate.get_math_function(_qubits(sizes))(list(vals))
    out = list(out)
    return out


def function(h, name, n, how):
    """the attached function is the documented one, undone by that of the inverse, and different contents stay different"""
    from projectq.ops import BasicMathGate, get_inverse
    g = A.gates()[name]
    sizes = g['regs'](n)
    gate = g['gate'] if how == 'gate' else get_inverse(g['gate'])
    h.true('inverse can be emulated', isinstance(gate, BasicMathGate))
    inverse = how == 'inverse'
    f = g['inv'] if inverse else g['f']
    pre = g.get('ipre' if inverse and 'ipre' in g else 'pre')
    vals = [h.bits('r%d' % i, k) for i, k in enumerate(sizes)]
    if pre:
        A.assume(h, pre(n, *vals))
    got = _call(gate, sizes, vals)
    h.true('number of registers', len(got) == len(sizes))
    for i, (x, y, k) in enumerate(zip(got, f(n, *vals), sizes)):
        m = (1 << k) - 1
        h.true('register %d' % i, (x & m) == (y & m))
    back = get_inverse(gate) if not inverse else g['gate']
    masked = [x & ((1 << k) - 1) for x, k in zip(got, sizes)]
    again = _call(back, sizes, masked)
    for i, (x, y, k) in enumerate(zip(again, vals, sizes)):
        h.true('inverse restores register %d' % i, (x & ((1 << k) - 1)) == y)


def constant(h, which, n):
    """the same for the gates with constants; constants symbolic"""
    from projectq.libs import math as M
    x, a, N = h.bits('x', n), h.bits('a', n + 1), h.bits('N', n + 1)
    y = h.bits('y', n)
    if which in ('AddConstant', 'SubConstant'):
        a = a - (1 << n)
        g = getattr(M, which)(a)
        m = 1 << n
        want = (x + a if which == 'AddConstant' else x - a) & (m - 1)
    else:
        A.assume(h, [N > 1, N <= (1 << n), a >= 0, a < N, x < N, y < N])
        if which == 'MultiplyByConstantModN':
            A.assume(h, B.gcd(a, N) == 1)
        g = getattr(M, which)(a, N)
        want = {'AddConstantModN': lambda: (x + a) % N, 'SubConstantModN': lambda: (x - a) % N, 'MultiplyByConstantModN': lambda: (a * x) % N}[which]()
    r = _call(g, [n], [x])[0]
    r = r & ((1 << n) - 1)
    h.true('result', r == want)
    if which != 'MultiplyByConstantModN':
        from projectq.ops import get_inverse
        h.true('inverse restores', (_call(get_inverse(g), [n], [r])[0] & ((1 << n) - 1)) == x)
    s = _call(g, [n], [y])[0] & ((1 << n) - 1)
    h.true('different contents stay different', V.truth(V.land(V.lnot(V.land(V.expr(r == s), V.lnot(V.expr(x == y)))))))


def permuted(amp, f, regs, mask):
    """reference: amplitudes after the map of register contents (positions of the registers' bits)"""
    out = [0] * len(amp)
    for i, v in enumerate(amp):
        j = i
        if i & mask == mask:
            vals = [sum(((i >> p) & 1) << k for k, p in enumerate(r)) for r in regs]
            new = f(*vals)
            for r, x in zip(regs, new):
                for k, p in enumerate(r):
                    j = j & ~(1 << p) | (((x >> k) & 1) << p)
        out[j] = out[j] + v
    return out


def emulate(h, backend, n, widths, nc, kind, place):
    """the simulators execute a function on any placement of its registers"""
    order = h.choice('order', [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n)) + (0,)])
    k = sum(widths)
    tg = list(place)
    ct = h.choice('controls', list(itertools.combinations([p for p in range(n) if p not in tg], nc)))
    if nc > 1 and h.bool('reverse the controls'):
        ct = ct[::-1]
    regs, i = [], 0
    for w in widths:
        regs.append(tg[i:i + w])
        i += w
    sim = L.make(h, backend)
    ids = list(C.IDS[:n])
    for q in ids:
        sim.allocate_qubit(q)
    bits = [ids[p] for p in order]
    amp = L.amplitudes(h, n)
    m = 1 << k
    N = a = None
    if kind == 'add':
        a = h.choice('a', range(-m, m + 2))
        f = lambda x: (x + a,)
    elif kind in ('addmod', 'mulmod'):
        N = h.choice('N', range(1, m + 1))
        import math
        a = h.choice('a', [c for c in range(N) if kind == 'addmod' or math.gcd(c, N) == 1] or [0])
        f = (lambda x: ((x + a) % N,)) if kind == 'addmod' else (lambda x: ((x * a) % N,))
        mask = sum(1 << p for p in ct)
        # contents outside the documented range do not occur
        amp = [0.0 if sum(((i >> p) & 1) << j for j, p in enumerate(regs[0])) >= N else v for i, v in enumerate(amp)]
    else:
        f = FUNCS[kind]
    sim.set_wavefunction(amp, bits)
    if h.bool('gate pending'):
        # a gate still waiting to be executed comes first
        x = [[0.0, 1.0], [1.0, 0.0]] if kind not in ('addmod', 'mulmod') else [[1.0, 0.0], [0.0, 1.0j]]
        sim.apply_controlled_gate(x, [bits[tg[0]]], [])
        amp = L.apply(amp, x, [tg[0]], 0)
    qr = [[bits[p] for p in r] for r in regs]
    cc = [bits[p] for p in ct]
    if backend != 'py' and kind == 'add':
        sim.emulate_math_addConstant(a, qr, cc)
    elif backend != 'py' and kind == 'addmod':
        sim.emulate_math_addConstantModN(a, N, qr, cc)
    elif backend != 'py' and kind == 'mulmod':
        sim.emulate_math_multiplyByConstantModN(a, N, qr, cc)
    else:
        sim.emulate_math(lambda v: list(f(*v)), qr, cc)
    want = permuted(amp, f, regs, sum(1 << p for p in ct))
    C.finish(h, sim, ids, bits, want)


FUNCS = {
    'swap': lambda a, b: (b, a),
    'sum': lambda a, b: (a, b - a),
    'affine': lambda a, b: (a + 2 * b - 7, b ^ 1),
    'three': lambda a, b, c: (b, c, a),
    'minus': lambda a: (-1 - a,),
}
