"""Harness for the classical simulator: operations on an arbitrary bit state against a per-qubit reference."""
from . import bits as B
from . import revsim as V
from .engine import PathAbort


class Machine:
    """a program on the real simulator and, in step, on one truth value per qubit"""

    def __init__(self, h, n, layout='plain', pipe='bare'):
        from projectq import MainEngine
        from projectq.backends import ClassicalSimulator
        from projectq.cengines import AutoReplacer, LocalOptimizer, ManualMapper, TagRemover
        from projectq.ops import Deallocate
        self.h = h
        self.sim = ClassicalSimulator()
        engines = []
        if pipe in ('replacer', 'full'):
            from . import arith as A
            engines.append(AutoReplacer(A.rules()))
        if pipe == 'full':
            engines += [TagRemover(), LocalOptimizer(3)]
        if pipe == 'mapper':
            engines.append(ManualMapper(lambda i: {0: 4, 1: 2, 2: 0, 3: 5, 4: 1}.get(i, i + 7)))
        self.eng = MainEngine(self.sim, engines)
        self.q = []
        if layout == 'holes':
            # earlier qubits of the simulator are gone: positions have moved
            a = self.eng.allocate_qubit()
            self.q += self.eng.allocate_qubit()
            b = self.eng.allocate_qureg(2)
            self.q += self.eng.allocate_qubit()
            self.eng.flush()
            Deallocate | a
            self.eng.flush()
            self.q += self.eng.allocate_qureg(n - 2)
            Deallocate | b[1]
            Deallocate | b[0]
            self.eng.flush()
            a[0].id = b[0].id = b[1].id = -1
        else:
            self.q += self.eng.allocate_qureg(n)
        self.eng.flush()
        self.alive = list(self.q)
        n = len(self.q)
        x = h.bits('state', n)
        if type(getattr(self.sim, '_state', None)) is int and layout != 'written':
            self.sim._state = x
        else:
            self.sim.write_register(self.q, x)
        self.v = {q.id: self.expr(self.sim.read_bit(q)) for q in self.q}

    def expr(self, b):
        e = (b == 1)
        return V.expr(e)

    def get(self, qs):
        return B.from_bits([self.v[q.id] for q in qs]) if not all(isinstance(self.v[q.id], bool) for q in qs) else sum(self.v[q.id] << i for i, q in enumerate(qs))

    def put(self, qs, x, on=True):
        for i, q in enumerate(qs):
            self.v[q.id] = V.ite(on, B.bit_of(x, i), self.v[q.id])

    def cond(self, ctr, cs):
        return V.land(*[self.v[q.id] if s == '1' else V.lnot(self.v[q.id]) for q, s in zip(ctr, cs)])

    def compare(self, label):
        for i, q in enumerate(self.alive):
            self.h.true('%s: qubit %d' % (label, i), V.truth(V.same(self.expr(self.sim.read_bit(q)), self.v[q.id])))

    # ---------------------------------------------------------------- operations
    def controls(self, step, nc):
        h = self.h
        cs = ''.join(h.choice('pattern %d.%d' % (step, i), '10') for i in range(nc))
        return cs

    def do(self, step, op):
        from projectq.libs import math as M
        from projectq.meta import Control
        from projectq.ops import BasicMathGate, Deallocate, Measure, X
        h, q = self.h, self.alive
        kind, nc = op
        need = dict(x=1, add=2, user=3, quantum=2, write=1, register=2, measure=1, release=1, new=0, addmod=2, compare=3, many=2)[kind]
        if need + nc > len(q):
            raise PathAbort()
        # rotate / reflect the qubits: targets and controls in any position
        rot = h.choice('rotation %d' % step, range(len(q)))
        rev = h.bool('reversed %d' % step) if self.wide else step % 2 == 1
        order = q[rot:] + q[:rot]
        if rev:
            order = order[::-1]
        t, ctr = order[:need], order[need:need + nc]
        cs = self.controls(step, nc)
        on = self.cond(ctr, cs)

        def apply(gate, target):
            if nc:
                with Control(self.eng, ctr, cs):
                    gate | target
            else:
                gate | target
            self.eng.flush()
        if kind == 'x':
            apply(X, t[0])
            self.v[t[0].id] = V.lxor(self.v[t[0].id], on)
        elif kind == 'add':
            a = h.choice('constant %d' % step, (1, -3) if self.wide else (-3, 1)[step % 2:][:1])
            apply(M.AddConstant(a), t)
            self.put(t, self.get(t) + a, on)
        elif kind == 'addmod':
            h.assume(self.get(t) < 3)
            apply(M.AddConstantModN(2, 3), t)
            self.put(t, (self.get(t) + 2) % 3, on)
        elif kind == 'quantum':
            apply(M.AddQuantum, (t[:1], t[1:]))
            self.put(t[1:], self.get(t[:1]) + self.get(t[1:]), on)
        elif kind == 'compare':
            apply(M.ComparatorQuantum, (t[:1], t[1:2], t[2:]))
            a, b, c = self.get(t[:1]), self.get(t[1:2]), self.v[t[2].id]
            self.v[t[2].id] = V.lxor(c, V.land(on, V.expr(b < a)))
        elif kind == 'user':
            apply(BasicMathGate(lambda a, b: (a - 2 * b - 1, 5 - b)), (t[:2], t[2:]))
            a, b = self.get(t[:2]), self.get(t[2:])
            self.put(t[:2], a - 2 * b - 1, on)
            self.put(t[2:], 5 - b, on)
        elif kind == 'many':
            # the same function sees and writes registers of different widths in the order given
            apply(BasicMathGate(lambda a, b: [b, a]), (t[:1], t[1:]))
            a, b = self.get(t[:1]), self.get(t[1:])
            self.put(t[:1], b, on)
            self.put(t[1:], a, on)
        elif kind == 'write':
            self.eng.flush()
            b = h.choice('written %d' % step, (0, 1, True, False)[:4 if self.wide else 2])
            self.sim.write_bit(t[0], b)
            self.v[t[0].id] = bool(b)
        elif kind == 'register':
            self.eng.flush()
            b = h.choice('written %d' % step, range(4))
            self.sim.write_register(t, b)
            self.put(t, b)
        elif kind == 'measure':
            Measure | t[0]
            self.eng.flush()
            r = int(t[0])
            h.true('step %d: measurement result' % step, V.truth(V.same(bool(r), self.v[t[0].id])))
        elif kind == 'release':
            self.alive = [p for p in q if p is not t[0]]
            Deallocate | t[0]
            self.eng.flush()
            del self.v[t[0].id]
            t[0].id = -1
        elif kind == 'new':
            n = self.eng.allocate_qubit()
            self.eng.flush()
            # an allocated qubit reads 0
            self.v[n[0].id] = False
            self.alive = q + [n[0]]
            self.keep = getattr(self, 'keep', []) + [n]


def program(h, n, ops, layout='plain', pipe='bare', wide=False):
    m = Machine(h, n, layout, pipe)
    m.wide = wide or len(ops) == 1
    for i, op in enumerate(ops):
        m.do(i, op)
    m.compare('end')
    # registers in every rotation
    r = h.choice('read rotation', range(2))
    order = m.alive[r:] + m.alive[:r]
    if order:
        got = m.sim.read_register(order[::-1])
        h.true('read register', V.truth(V.expr(m.get(order[::-1]) == got)))


def write(h, n, layout, perm):
    """writing and reading registers and bits"""
    m = Machine(h, n, layout)
    k = h.choice('width', range(1, n + 1))
    qs = [m.q[i] for i in perm][:k]
    x = h.bits('value', k + 1) - h.choice('offset', (0, 1 << k))
    bad = V.lnot(V.land(V.expr(x >= 0), V.expr(x < (1 << k))))
    try:
        m.sim.write_register(qs, x)
    except ValueError:
        h.true('only numbers that do not fit are refused', V.truth(bad))
        m.compare('refused write changes nothing')
        return
    h.true('numbers that do not fit are refused', V.truth(V.lnot(bad)))
    m.put(qs, x)
    m.compare('written')
    h.true('reads back', V.truth(V.expr(m.sim.read_register(qs) == x)))


def refuse(h, which):
    """operations that cannot be executed"""
    from projectq.meta import Control
    from projectq.ops import CNOT, H, QFT, R, Swap, X, Z, BasicGate, Command
    from projectq.types import WeakQubitRef
    m = Machine(h, 3)
    q = m.q
    g = dict(h=H, z=Z, r=R(1.5), swap=Swap, qft=QFT)
    if which in g:
        def run():
            gate = g[which]
            gate | ((q[0], q[1]) if which == 'swap' else (q[:2] if which == 'qft' else q[0]))
            m.eng.flush()
        h.raises('gate is refused', ValueError, run)
        cmd = Command(m.eng, g[which], ([q[0]], [q[1]]) if which == 'swap' else ([q[0]],))
        h.true('declined', not m.sim.is_available(cmd))
        m.compare('state unchanged')
    elif which == 'wide x':
        h.raises('x on a register', ValueError, lambda: (X | q[:2], m.eng.flush()))
        m.compare('state unchanged')
    elif which == 'unknown':
        for f in (lambda: m.sim.read_bit(WeakQubitRef(m.eng, 99)), lambda: m.sim.write_bit(WeakQubitRef(m.eng, 99), 1), lambda: m.sim.read_register([q[0], WeakQubitRef(m.eng, 99)])):
            h.raises('unknown qubit', Exception, f)
        m.compare('state unchanged')
    elif which == 'forward':
        pass


def forwards(h):
    """in front of another back-end everything is passed on, in order"""
    from projectq import MainEngine
    from projectq.backends import ClassicalSimulator
    from projectq.cengines import DummyEngine
    from projectq.ops import CNOT, Measure, X
    rec = DummyEngine(save_commands=True)
    rec.is_available = lambda cmd: True
    sim = ClassicalSimulator()
    eng = MainEngine(rec, [sim])
    a, b = eng.allocate_qureg(2)
    x = h.bits('state', 2)
    sim.write_register([a, b], x)
    CNOT | (a, b)
    X | a
    eng.flush()
    names = [type(c.gate).__name__ for c in rec.received_commands]
    h.true('passed on in order', names == ['AllocateQubitGate', 'AllocateQubitGate', 'XGate', 'XGate', 'FlushGate'], str(names))
    x0, x1 = B.bit_of(x, 0), B.bit_of(x, 1)
    h.true('first', V.truth(V.same(V.expr(sim.read_bit(a) == 1), V.lnot(x0))))
    h.true('second', V.truth(V.same(V.expr(sim.read_bit(b) == 1), V.lxor(x0, x1))))
