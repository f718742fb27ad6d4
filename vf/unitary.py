"""Harness for the unitary simulator: programs with symbolic gates against the product of their matrices."""
import itertools
import math

from . import shims
from . import simcases as C
from . import simlib as L
from . import simmeasure as SM
from .engine import PathAbort


def numbers(h, out, total=None):
    def rnd():
        r = h.unit_random('rnd%d' % len(out))
        out.append(r)
        if total is not None:
            h.assume(r < total())          # the state is normalised and the number is below one; a longer state changes nothing
        return r
    if h.symbolic:
        shims.random_hook = rnd
    else:
        import random
        random.random = rnd


class Ref:
    def __init__(self):
        self.order, self.cols, self.amp, self.history, self.valid = [], [[1.0]], [1.0], [], True

    def restart(self):
        if not self.valid:
            self.history.append(self.cols)
            d = 1 << len(self.order)
            self.cols = [[1.0 if i == j else 0.0 for i in range(d)] for j in range(d)]
            self.valid = True

    def alloc(self, q):
        self.restart()
        d = len(self.cols)
        self.order.append(q)
        self.cols = [c + [0.0] * d for c in self.cols] + [[0.0] * d + c for c in self.cols]
        if self.amp is not None:
            self.amp = self.amp + [0.0] * len(self.amp)

    def gate(self, m, tg, ct, cs):
        self.restart()
        pos = [self.order.index(q) for q in tg]
        mask = sum(1 << self.order.index(q) for q in ct)
        flip = sum(1 << self.order.index(q) for q, s in zip(ct, cs) if s == '0')

        def act(v):
            v = [v[i ^ flip] for i in range(len(v))]
            v = L.apply(v, m, pos, mask)
            return [v[i ^ flip] for i in range(len(v))]
        self.cols = [act(c) for c in self.cols]
        if self.amp is not None:
            self.amp = act(self.amp)


def rows(x):
    """any matrix as nested lists, column by column"""
    n = len(x)
    return [[x[i][j] for i in range(n)] for j in range(n)]


FIXED4 = [[0.6, 0.0, -0.8, 0.0], [0.0, 0.8, 0.0, 0.6], [0.0, -0.6, 0.0, 0.8], [0.8, 0.0, 0.6, 0.0]]


def program(h, steps, unitary_gates=False, replacer=False, release_any=False):
    """a: allocate, d: release, g: gate, t: two-qubit gate, u: three-qubit gate, c: controlled gate, C: two controls, e: controlled two-qubit gate, x: NOT, f: flush, m: flush and measure"""
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.meta import Control
    from projectq.ops import Deallocate, MatrixGate, Measure, X
    import warnings
    warnings.simplefilter('ignore')
    drawn, amount = [], []
    ref, qs, definite = Ref(), {}, {}
    numbers(h, drawn, lambda: SM.total(SM.prob(a) if not isinstance(a, float) else a * a for a in ref.amp) if unitary_gates and not release_any else (amount[0] if amount else 1.0))
    sim = UnitarySimulator()
    engines = []
    if replacer:
        from . import arith as A
        from projectq.cengines import AutoReplacer
        engines = [AutoReplacer(A.rules())]
    eng = MainEngine(sim, engines)
    keep, free = [], []
    for s, step in enumerate(steps):
        if step == 'a':
            q = eng.allocate_qubit()
            keep.append(q)
            qs[q[0].id] = q[0]
            ref.alloc(q[0].id)
            definite[q[0].id] = True
        elif step == 'f':
            eng.flush()
        elif step == 'd':
            cand = [q for q in ref.order if definite.get(q) or release_any]
            if not cand:
                raise PathAbort()
            q = h.choice('s%d' % s, cand)
            qubit = qs.pop(q)
            Deallocate | qubit
            qubit.id = -1
            p = ref.order.index(q)
            ref.order.remove(q)
            if ref.amp is not None and not release_any:
                # the qubit is in a definite state
                half = [[x for i, x in enumerate(ref.amp) if (i >> p) & 1 == b] for b in (0, 1)]
                ref.amp = half[0] if not definite[q] is not True and _nonzero(half[0]) else (half[1] if not _nonzero(half[0]) else half[0])
            else:
                ref.amp = None
            ref.valid = False
        elif step == 'm':
            eng.flush()
            k = h.choice('how many %d' % s, (1, 2) if len(ref.order) > 1 else (1,))
            which = list(h.choice('s%d' % s, list(itertools.permutations(ref.order, k)))) if k == 1 else h.choice('s%d' % s, [list(ref.order[:2]), list(ref.order[:2])[::-1]])
            before = len(drawn)
            if k == 2 and h.bool('at once %d' % s):
                got = [bool(x) for x in sim.measure_qubits([qs[q].id for q in which])]
                _check_measured(h, s, ref, which, got, drawn[before:])
                for q in which:
                    definite[q] = True
                continue
            for q in which:
                Measure | qs[q]
                _check_measured(h, s, ref, [q], [bool(qs[q])], drawn[before:])
                before = len(drawn)
                definite[q] = True
            ref.valid = False
        else:
            k, nc = {'g': (1, 0), 't': (2, 0), 'u': (3, 0), 'c': (1, 1), 'C': (1, 2), 'e': (2, 1), 'x': (1, 0), 'X': (1, 1)}[step]
            if k + nc > len(ref.order):
                raise PathAbort()
            tg = h.choice('s%d' % s, list(itertools.permutations(ref.order, k)))
            ct = h.choice('c%d' % s, list(itertools.combinations([q for q in ref.order if q not in tg], nc)))
            cs = h.choice('p%d' % s, [''.join(x) for x in itertools.product('10', repeat=nc)]) if nc else ''
            if nc == 2 and h.bool('reverse controls %d' % s):
                ct = ct[::-1]
            if step in 'xX':
                m, gate = [[0.0, 1.0], [1.0, 0.0]], X
                if step == 'X' and not definite.get(ct[0]):
                    definite.pop(tg[0], None)
            else:
                if unitary_gates:
                    # a scaled rotation with symbolic entries first, fixed ones afterwards
                    if k == 2:
                        m = FIXED4
                    elif not free:
                        free.append(s)
                        x, y = h.real('x'), h.real('y')
                        h.assume(x * x + y * y > 0.01)
                        amount.append(x * x + y * y)
                        m = [[x, -y], [y, x]]
                    else:
                        m = [[0.6, -0.8], [0.8, 0.6]]
                else:
                    m = L.matrix(h, k, 'm%d_' % s, real=k > 1)
                gate = MatrixGate(m)
                for q in tg:
                    definite.pop(q, None)
            target = tuple(qs[q] for q in tg)
            if nc:
                with Control(eng, [qs[q] for q in ct], cs):
                    gate | target
            else:
                gate | target
            ref.gate(m, tg, ct, cs)
    eng.flush()
    u = sim.unitary
    h.true('size', len(u) == len(ref.cols), '%d for %d' % (len(u), len(ref.cols)))
    if len(ref.cols) > 1:
        h.same('unitary', rows(u), ref.cols)
    hist = sim.history
    h.true('length of the history', len(hist) == len(ref.history), '%d for %d' % (len(hist), len(ref.history)))
    for i, (a, b) in enumerate(zip(hist, ref.history)):
        h.true('size %d' % i, len(a) == len(b))
        h.same('history %d' % i, rows(a), b)
    # what is handed out is a copy
    if len(ref.cols) > 1:
        u[0][0] = 17.0
        h.same('unitary is not changed from outside', rows(sim.unitary), ref.cols)
    for q in list(qs):
        qs[q].id = -1


def _nonzero(v):
    return any(not (isinstance(x, (int, float, complex)) and abs(x) == 0) for x in v)


def _check_measured(h, s, ref, which, res, drawn):
    h.true('step %d: one random number' % s, len(drawn) == 1)
    r = drawn[0]
    p = [SM.prob(a) if not isinstance(a, float) else a * a for a in ref.amp]
    tot = SM.total(p)

    def agrees(i):
        return all(((i >> ref.order.index(q)) & 1) == int(x) for q, x in zip(which, res))
    P = SM.total(p[i] for i in range(len(p)) if agrees(i))
    h.true('step %d: outcome is possible' % s, P > 0.0, 'result %r' % (res,))
    acc, hit = 0.0, None
    for i in range(len(p)):
        acc = acc + p[i]
        if bool(r < acc):
            hit = i
            break
    h.true('step %d: according to the squared amplitudes' % s, hit is not None and agrees(hit), 'result %r for entry %r' % (res, hit))
    inv = 1.0 / SM.root(h, P)
    ref.amp = [a * inv if agrees(i) else 0.0 for i, a in enumerate(ref.amp)]


def zero_number(h, n):
    """the random number 0 picks an outcome that can occur"""
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.ops import Measure, X, H
    shims_rnd = lambda: 0.0    # noqa: E731
    if h.symbolic:
        shims.random_hook = shims_rnd
    else:
        import random
        random.random = shims_rnd
    sim = UnitarySimulator()
    eng = MainEngine(sim, [])
    q = eng.allocate_qureg(n)
    want = []
    for i in range(n):
        kind = h.choice('q%d' % i, ['0', '1', '+'])
        want.append(kind)
        if kind == '1':
            X | q[i]
        elif kind == '+':
            H | q[i]
    eng.flush()
    for i in range(n):
        Measure | q[i]
    for i in range(n):
        if want[i] != '+':
            h.true('possible outcome', int(q[i]) == int(want[i]))


def available(h):
    """what is declared available is executed"""
    from projectq.backends import UnitarySimulator
    from projectq.ops import Allocate, BasicGate, Command, Deallocate, H, Measure, QFT, Rx, X
    from projectq.types import WeakQubitRef
    sim = UnitarySimulator()
    q = [WeakQubitRef(None, i) for i in range(3)]
    for g in (Allocate, Deallocate, Measure, X, H, Rx(h.angle('t', 0.1, 1.0))):
        h.true('available %s' % type(g).__name__, sim.is_available(Command(None, g, ([q[0]],))))
    for g in (BasicGate(), QFT):
        h.true('declined %s' % type(g).__name__, not sim.is_available(Command(None, g, ([q[0]],))))


def mapped(h):
    """results of mapped qubits go to the program's qubits"""
    from projectq import MainEngine
    from projectq.backends import UnitarySimulator
    from projectq.cengines import ManualMapper
    from projectq.ops import Measure, X
    drawn = []
    numbers(h, drawn)
    perm = h.choice('mapping', list(itertools.permutations(range(3))))
    eng = MainEngine(UnitarySimulator(), [ManualMapper(lambda i: perm[i])])
    q = eng.allocate_qureg(3)
    bits = [h.bool('b%d' % i) for i in range(3)]
    for b, x in zip(bits, q):
        if b:
            X | x
    eng.flush()
    for x in q:
        Measure | x
    eng.flush()
    h.true('results', [bool(x) for x in q] == bits)
