"""Harness for the simulator back-end: programs and queries in terms of the program's qubits."""
import itertools

from . import mathfun
from . import shims
from . import simcases as C
from . import simlib as L
from . import simmeasure as SM

PERMS = [None, (0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0), (5, 1, 7, 2)]


class Machine:
    def __init__(self, h, kernel, n, perm=None, fusion=False, order=None, support=None, replacer=False, real=False):
        import projectq.backends._sim._simulator as S
        from projectq import MainEngine
        from projectq.backends import Simulator
        from projectq.cengines import AutoReplacer, ManualMapper
        self.h = h
        self.drawn = []
        L.make(h, 'py' if kernel == 'py' else 'cpp')
        if kernel == 'py':
            from projectq.backends._sim._pysim import Simulator as K
        else:
            from projectq.backends._sim._cppsim import Simulator as K
        S.SimulatorBackend, S.FALLBACK_TO_PYSIM = K, kernel == 'py'
        engines = []
        if replacer:
            from . import arith as A
            engines.append(AutoReplacer(A.rules()))
        if perm:
            engines.append(ManualMapper(lambda i: perm[i] if i < len(perm) else i + 10))
        self.sim = Simulator(gate_fusion=fusion, rnd_seed=1)
        self.eng = MainEngine(self.sim, engines)
        self.q = list(self.eng.allocate_qureg(n))
        self.eng.flush()
        self.order = list(order or range(n))
        self.qs = [self.q[i] for i in self.order]           # bit k of the state is qs[k]
        self.amp = [(h.real('a%d' % i) if real else h.cplx('a%d' % i)) if support is None or i in support else 0.0 for i in range(1 << n)]
        self.sim.set_wavefunction(self.amp, self.qs)

    def numbers(self, total):
        def rnd():
            r = self.h.unit_random('rnd%d' % len(self.drawn))
            self.drawn.append(r)
            self.h.assume(r < total())
            return r
        from . import cppglue
        cppglue.hook = rnd
        if self.h.symbolic:
            shims.random_hook = rnd
        else:
            import random
            random.random = rnd

    def bit(self, q):
        return self.qs.index(q)

    def apply(self, m, tg, ct=(), cs=''):
        flip = sum(1 << self.bit(q) for q, s in zip(ct, cs) if s == '0')
        v = [self.amp[i ^ flip] for i in range(len(self.amp))]
        v = L.apply(v, m, [self.bit(q) for q in tg], sum(1 << self.bit(q) for q in ct))
        self.amp = [v[i ^ flip] for i in range(len(v))]

    def amplitudes(self, order=None):
        """through the public query, in the order of the given qubits"""
        qs = order or self.qs
        n = len(qs)
        return [self.sim.get_amplitude([(i >> k) & 1 for k in range(n)], qs) for i in range(1 << n)]

    def reordered(self, order):
        out = []
        for i in range(len(self.amp)):
            j = sum(((i >> k) & 1) << self.bit(q) for k, q in enumerate(order))
            out.append(self.amp[j])
        return out

    def finish(self, label='state'):
        self.eng.flush()
        self.h.same(label, self.amplitudes(), self.amp)
        for q in self.q:
            q.id = -1


def gates(h, kernel, n, ops, perm=None, fusion=False, replacer=False):
    """operations with controls of either polarity on any qubits"""
    from projectq.libs import math as M
    from projectq.meta import Control
    from projectq import ops as O
    from . import quantum as Q
    orders = [tuple(range(n)), tuple(reversed(range(n)))]
    m = Machine(h, kernel, n, perm, fusion, h.choice('order', orders), replacer=replacer)
    for s, op in enumerate(ops):
        kind, nc = op
        k = dict(one=1, two=2, x=1, rx=1, swap=2, add=2, user=3, three=3, ph=1, mod=2)[kind]
        cand = list(itertools.permutations(range(n), k))
        if len(ops) > 1 or k == 3:
            cand = cand[::max(1, len(cand) // 4)]
        tg = h.choice('t%d' % s, cand)
        ct = h.choice('c%d' % s, list(itertools.combinations([i for i in range(n) if i not in tg], nc)))
        cs = h.choice('p%d' % s, [''.join(x) for x in itertools.product('10', repeat=nc)]) if nc else ''
        if nc == 2 and h.bool('reverse %d' % s):
            ct = ct[::-1]
        T, K = [m.q[i] for i in tg], [m.q[i] for i in ct]
        cm = sum(1 << m.bit(q) for q in K)
        cv = sum(1 << m.bit(q) for q, b in zip(K, cs) if b == '1')
        f = None
        if kind in ('one', 'two', 'three'):
            mat = L.matrix(h, k, 'm%d_' % s, real=k > 1) if k < 3 else [[1.0 if j == (i * 3 + 1) % 8 else 0.0 for j in range(8)] for i in range(8)]
            g, target = O.MatrixGate(mat), tuple(T)
        elif kind == 'x':
            mat, g, target = [[0.0, 1.0], [1.0, 0.0]], O.X, T[0]
        elif kind == 'rx':
            a = h.angle('a%d' % s)
            mat, g, target = Q.from_any(Q.rot(Q.PAULI['X'], a)), O.Rx(a), T[0]
        elif kind == 'ph':
            a = h.angle('a%d' % s)
            mat, g, target = [[Q.cexp(a), 0.0], [0.0, Q.cexp(a)]], O.Ph(a), T[0]
        elif kind == 'swap':
            mat, g, target = [[1.0, 0, 0, 0], [0, 0, 1.0, 0], [0, 1.0, 0, 0], [0, 0, 0, 1.0]], O.Swap, (T[0], T[1])
        elif kind == 'add':
            a = h.choice('k%d' % s, (1, 3, -2))
            f, g, target, regs = (lambda x: (x + a,)), M.AddConstant(a), T, [T]
        elif kind == 'mod':
            f, g, target, regs = (lambda x: ((x + 1) % 4,)), M.AddConstantModN(1, 4), T, [T]
        elif kind == 'user':
            f, regs = (lambda a, b: (a + b, b ^ 1)), [T[:2], T[2:]]
            g, target = O.BasicMathGate(lambda a, b: (a + b, b ^ 1)), (T[:2], T[2:])
        if K:
            with Control(m.eng, K, cs):
                g | target
        else:
            g | target
        if f is None:
            m.apply(mat, T, K, cs)
        else:
            flip = cm & ~cv
            v = [m.amp[i ^ flip] for i in range(len(m.amp))]
            v = mathfun.permuted(v, f, [[m.bit(q) for q in r] for r in regs], cm)
            m.amp = [v[i ^ flip] for i in range(len(v))]
    m.finish()


def queries(h, kernel, n, perm, fusion=False):
    """probability, amplitude, expectation value of any register in the order given; nothing changes the state"""
    from projectq.ops import QubitOperator
    m = Machine(h, kernel, n, perm, fusion)
    if fusion:
        from projectq.ops import X
        X | m.q[0]
        m.eng.flush()
        m.apply([[0.0, 1.0], [1.0, 0.0]], [m.q[0]])
    r = h.choice('register', [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)])
    reg = [m.q[i] for i in r]
    for v in range(1 << len(reg)):
        want = SM.total(SM.prob(a) for i, a in enumerate(m.amp) if all(((i >> m.bit(q)) & 1) == ((v >> k) & 1) for k, q in enumerate(reg)))
        bits = [(v >> k) & 1 for k in range(len(reg))]
        form = h.choice('form', ['list', 'text', 'bool']) if v == 1 else 'list'
        arg = dict(list=bits, text=''.join(map(str, bits)), bool=[bool(b) for b in bits])[form]
        h.same('probability %d' % v, m.sim.get_probability(arg, reg), want)
    if len(reg) == n:
        h.same('amplitudes in the order given', m.amplitudes(reg), m.reordered(reg))
    op = QubitOperator('X0', 0.5) + QubitOperator('Z%d' % (len(reg) - 1), -1.5) + QubitOperator('', 0.25)
    X, Z = [[0.0, 1.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, -1.0]]

    def ev(mat, q):
        b = L.apply(m.amp, mat, [m.bit(q)], 0)
        return SM.total((x.conjugate() * y).real for x, y in zip(m.amp, b))
    want = 0.5 * ev(X, reg[0]) - 1.5 * ev(Z, reg[-1]) + 0.25 * SM.total(SM.prob(a) for a in m.amp)
    h.same('expectation value', m.sim.get_expectation_value(op, reg), want)
    h.raises('operator larger than the register', Exception, lambda: m.sim.get_expectation_value(QubitOperator('X%d' % len(reg)), reg))
    h.raises('operator larger than the register', Exception, lambda: m.sim.apply_qubit_operator(QubitOperator('X0 Z%d' % len(reg)), reg))
    m.finish('state after the queries')


def change(h, kernel, n, perm, what):
    """queries that change the state act on the qubits named"""
    from projectq.ops import QubitOperator
    m = Machine(h, kernel, n, perm, real=what == 'collapse')
    r = h.choice('register', list(itertools.permutations(range(n), 2 if what != 'set' else n)))
    reg = [m.q[i] for i in r]
    if what == 'operator':
        m.sim.apply_qubit_operator(QubitOperator('X0 Z1', 2.0), reg)
        m.apply([[0.0, 2.0], [2.0, 0.0]], [reg[0]])
        m.apply([[1.0, 0.0], [0.0, -1.0]], [reg[1]])
        m.finish()
    elif what == 'set':
        new = [h.cplx('b%d' % i) for i in range(1 << n)]
        m.sim.set_wavefunction(new, reg)
        m.qs, m.amp = reg, new
        m.finish()
    else:
        v = h.choice('value', [(0, 0), (0, 1), (1, 0), (1, 1)])
        form = h.choice('form', ['list', 'text'])
        keep = [i for i in range(1 << n) if all(((i >> m.bit(q)) & 1) == b for q, b in zip(reg, v))]
        P = SM.total(SM.prob(m.amp[i]) for i in keep)
        h.assume(P > 1e-3)
        m.sim.collapse_wavefunction(reg, list(v) if form == 'list' else ''.join(map(str, v)))
        SM.projected(h, 'collapsed', m.amplitudes(), m.amp, keep, P)
        for q in m.q:
            q.id = -1


def measure(h, kernel, n, perm, real=True, support=None):
    """results are stored under the program's qubits, in any order of measuring"""
    from projectq.ops import All, Measure
    m = Machine(h, kernel, n, perm, real=real, support=support)
    order = h.choice('measured', [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)])
    p = [SM.prob(a) if not isinstance(a, float) else 0.0 for a in m.amp]
    tot = [SM.total(p)]
    h.assume(tot[0] > 0.01)
    alive = list(range(1 << n))
    m.numbers(lambda: tot[0])
    for s, i in enumerate(order):
        before = len(m.drawn)
        Measure | m.q[i]
        m.eng.flush()
        b = int(m.q[i])
        r = m.drawn[before]
        h.true('one random number', len(m.drawn) == before + 1)
        if s == 0:
            acc, hit = 0.0, None
            for j in alive:
                acc = acc + p[j]
                if bool(r < acc):
                    hit = j
                    break
            h.true('result of qubit %d' % i, hit is not None and (hit >> m.bit(m.q[i])) & 1 == b)
        alive = [j for j in alive if (j >> m.bit(m.q[i])) & 1 == b]
        h.true('outcome %d is possible' % s, SM.total(p[j] for j in alive) > 0.0)
        tot[0] = 1.0
    SM.projected(h, 'after measurement', m.amplitudes(), m.amp, alive, SM.total(p[j] for j in alive))
    for s, i in enumerate(order):
        h.same('measured again %d' % i, m.sim.get_probability([int(m.q[i])], [m.q[i]]), 1.0)
    for q in m.q:
        q.id = -1


def unknown(h, kernel, perm):
    """qubits that are not known are refused and nothing changes"""
    from projectq.types import WeakQubitRef
    m = Machine(h, kernel, 2, perm)
    bad = WeakQubitRef(m.eng, 77)
    reg = h.choice('register', [[bad], [m.q[0], bad], [bad, m.q[1]]])
    k = len(reg)
    f = h.choice('query', ['probability', 'amplitude', 'collapse', 'set'])
    h.raises('unknown qubit', RuntimeError, dict(
        probability=lambda: m.sim.get_probability([0] * k, reg), amplitude=lambda: m.sim.get_amplitude([0] * k, reg),
        collapse=lambda: m.sim.collapse_wavefunction(reg, [0] * k), set=lambda: m.sim.set_wavefunction([1.0] + [0.0] * ((1 << k) - 1), reg))[f])
    m.finish('state')


def available(h, kernel):
    """what is declared available is what can be executed"""
    import numpy as np
    from projectq import ops as O
    from projectq.types import WeakQubitRef
    m = Machine(h, kernel, 1)
    q = [WeakQubitRef(m.eng, i) for i in range(9)]
    t = h.angle('t', 0.1, 1.0)
    yes = [(O.X, 1), (O.Rx(t), 1), (O.Swap, 2), (O.Rxx(t), 2), (O.BasicMathGate(lambda x: (x,)), 1), (O.MatrixGate(np.eye(32)), 5), (O.TimeEvolution(t, O.QubitOperator('X0')), 1), (O.Measure, 1), (O.Allocate, 1),
           (O.Deallocate, 1)]
    no = [(O.MatrixGate(np.eye(64)), 6), (O.QFT, 3)]
    for j, (g, k) in enumerate(yes + no):
        args = tuple([x] for x in q[:k]) if isinstance(g, (O.SwapGate, O.Rxx)) else (q[:k],)
        cmd = O.Command(m.eng, g, args)
        h.true('%s %s' % (type(g).__name__, k), m.sim.is_available(cmd) == (j < len(yes)))
    for cs, ok in (('1', True), ('11', True), ('0', False), ('10', False), ('01', False)):
        cmd = O.Command(m.eng, O.X, ([q[8]],), controls=q[:len(cs)], control_state=cs)
        h.true('controls ' + cs, m.sim.is_available(cmd) == ok)
    m.finish()


def refuse(h, kernel, which):
    """operations that cannot be executed raise and leave the state alone"""
    import numpy as np
    from projectq import ops as O
    from projectq.meta import Control
    m = Machine(h, kernel, 2)
    extra = list(m.eng.allocate_qureg(4)) if which == 'wide' else []

    def run():
        if which == 'wide':
            O.MatrixGate(np.eye(64)) | (m.q + extra)
        elif which == 'size':
            O.MatrixGate(np.eye(4)) | m.q[0]
        elif which == 'nomatrix':
            O.QFT | m.q
        elif which == 'controlled measure':
            m.eng.receive([O.Command(m.eng, O.Measure, ([m.q[0]],), controls=[m.q[1]])])
        elif which == 'negatively controlled measure':
            m.eng.receive([O.Command(m.eng, O.Measure, ([m.q[0]],), controls=[m.q[1]], control_state='0')])
        m.eng.flush()
    h.raises('refused', Exception, run)
    for q in extra:
        m.eng.deallocate_qubit(q)
    m.finish('state')
