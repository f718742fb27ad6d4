"""The shipped compilation setups: programs compiled with a setup keep their effect and end up inside the gate set."""
import math

from projectq.cengines._replacer import NoGateDecompositionError
from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
from projectq.setups import default, grid, linear, restrictedgateset, trapped_ion_decomposer
from projectq.types import WeakQubitRef

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='11 gate sets / setups; every gate family with symbolic angles under 0-2 controls of either sign; two-gate programs over 12 gates on up to 3 '
                    'qubits with symbolic angles; nested control/inverse/compute blocks; mid-circuit measurement with either outcome; the chain and grid setups '
                    'on 3-4 qubits; equality up to a global phase for every state',
              thorough='3 controls, three-gate programs')
OUTSIDE = 'larger programs; gate sets other than those listed; parameter values within the library tolerance of a special angle'

G = ops
ONE = dict(any=None)
SETS = {
    # one-qubit gates, two-qubit gates, other gates
    'any+CNOT': ('any', (G.CNOT,), ()),
    'any+any': ('any', 'any', ()),
    'RzRx+CNOT': ((G.Rz, G.Rx), (G.CNOT,), ()),
    'RzH+CNOT': ((G.Rz, G.H), (G.CNOT,), ()),
    'RzRyRxH+CNOT': ((G.Rz, G.Ry, G.Rx, G.H), (G.CNOT,), ()),
    'ibm': ((G.Rx, G.Ry, G.Rz, G.H), (G.CNOT,), (G.Barrier,)),
    'aqt': ((G.Rx, G.Ry), (G.Rxx,), (G.Barrier,)),
    'ionq': ((G.X, G.Y, G.Z, G.Rx, G.Ry, G.Rz, G.H, G.S, G.Sdag, G.T, G.Tdag, G.SqrtX), (G.Swap, G.Rxx, G.Ryy, G.Rzz), (G.Barrier,)),
    'braket': ((G.R, G.H, G.Rx, G.Ry, G.Rz, G.S, G.Sdag, G.T, G.Tdag, G.X, G.Y, G.Z, G.SqrtX), (G.Swap,), (G.Barrier,)),
    'any+CNOT+evolution': ('any', (G.CNOT,), (G.TimeEvolution, G.QFT)),
    'any+SwapCNOT': ('any', (G.CNOT, G.Swap), ()),
}
CONST = (G.Entangle,)


def allowed(spec_):
    """independent reading of a gate set"""
    one, two, other = spec_

    def member(g, nctrl, lst):
        for a in lst:
            if isinstance(a, type):
                if isinstance(g, a):
                    return True
            elif isinstance(a, ops.ControlledGate):
                if nctrl == 1 and type(g) is type(a._gate) and (type(g).__name__ == 'XGate'):
                    return True
            elif type(g) is type(a) and nctrl == 0 and (not isinstance(g, ops.DaggeredGate) or g == a):
                return True
        return False

    def ok(cmd):
        g = cmd.gate
        if isinstance(g, (ops.ClassicalInstructionGate, ops.MeasureGate)):
            return True
        n = sum(len(r) for r in cmd.all_qubits)
        nc = len(cmd.control_qubits)
        neg = '0' in (cmd.control_state if isinstance(cmd.control_state, str) else '')
        if n == 1 and (one == 'any' or member(g, nc, one)):
            return True
        if n == 2 and two == 'any':
            return True
        if any(isinstance(a, type) and isinstance(g, a) for a in other):    # every instance of such a class
            return True
        if member(g, nc, other) and not neg:
            return True
        return n == 2 and two != 'any' and not neg and member(g, nc, two)
    return ok


def build(name):
    """(engine list, oracle for the allowed commands, capability of the back-end, number of physical qubits or None, couplings)"""
    if name in SETS:
        s = SETS[name]
        return restrictedgateset.get_engine_list(*s), allowed(s), allowed(s)
    if name == 'trapped ion':
        ok = allowed(((G.Rx, G.Ry), (G.Rxx,), ()))
        return trapped_ion_decomposer.get_engine_list(), ok, ok
    if name == 'default':
        ok = allowed(('any', (G.CNOT,), ()))
        return default.get_engine_list(), ok, ok
    if name == 'default+1control':
        def ok(cmd):
            return allowed(('any', 'any', ()))(cmd)
        return default.get_engine_list(), ok, ok
    if name.startswith(('chain', 'ring', 'grid')):
        s = (('any', (G.CNOT, G.Swap), ()) if name.endswith('any') else ((G.Rz, G.Ry, G.Rx, G.H), (G.CNOT,), ()))
        base = allowed(s)
        if name.startswith('grid'):
            pairs = {(0, 1), (2, 3), (0, 2), (1, 3)}
            lst = grid.get_engine_list(2, 2, s[0], s[1])
        elif name.startswith('ring'):
            pairs = {(0, 1), (1, 2), (2, 3), (0, 3)}
            lst = linear.get_engine_list(4, True, s[0], s[1])
        else:
            pairs = {(0, 1), (1, 2), (2, 3)}
            lst = linear.get_engine_list(4, False, s[0], s[1])

        def ok(cmd):
            ids = sorted(x.id for r in cmd.all_qubits for x in r)
            return base(cmd) and (len(ids) < 2 or tuple(ids) in pairs or isinstance(cmd.gate, ops.ClassicalInstructionGate))
        return lst, ok, base
    raise AssertionError(name)


class Run:
    """runs one program through a setup; a second engine without compilation records the source program"""

    def __init__(self, h, setup, n):
        self.h, self.setup = h, setup
        lst, self.ok, cap = build(setup)
        self.outcome = {}
        self.eng, self.rec = Q.engine(lst, cap)
        self.src, self.srec = Q.engine([])
        self.n = n
        self.columns = None

    def execute(self, prog):
        h = self.h
        res = []
        for eng, rec in ((self.src, self.srec), (self.eng, self.rec)):
            q = [eng.allocate_qubit()[0] for _ in range(self.n)]
            for x in q:
                rec.outcomes[x.id] = self.outcome.get(x.id, 0)
            prog(eng, q)
            eng.flush()
            res.append([x.id for x in q])
            res[-1] = (res[-1], list(rec.cmds))     # the release of the qubits is not part of the program
        (i0, c0), (i1, c1) = res
        for c in c1:
            h.true('gate set', self.ok(c), str(c))
        a, b = start(i0, self.columns), start(i1, self.columns)
        self.apply(a, c0, i0, {})
        mp = {}
        if self.eng.mapper is not None:
            mp = {v: k for k, v in self.eng.mapper.current_mapping.items()}
        self.apply(b, c1, i1, mp)
        got = b.copy()
        if mp:
            got.wires = [mp.get(w, w) for w in b.wires]
        return a, got

    def apply(self, s, cmds, ids, mp):
        h = self.h
        live = set()
        meas = []

        def extra(st, cmd, g, regs, ctr, cs):
            if isinstance(g, ops.MeasureGate):
                for r in cmd.qubits:
                    for x in r:
                        lid = x.id
                        for t in cmd.tags:
                            if hasattr(t, 'logical_qubit_id'):
                                lid = t.logical_qubit_id
                        st.project(x.id, self.outcome.get(lid, 0))
                        meas.append(lid)
                return True
            if isinstance(g, type(ops.Barrier)):
                return True
            return False
        r = Q.Runner(h, s, extra)
        first = {}
        for c in cmds:
            if isinstance(c.gate, ops.AllocateQubitGate):
                w = c.qubits[0][0].id
                if len(first) < self.n:
                    # the program's own qubits start in an arbitrary state
                    lid = w
                    for t in c.tags:
                        if hasattr(t, 'logical_qubit_id'):
                            lid = t.logical_qubit_id
                    if lid in ids:
                        first[w] = lid
                        s.wires[s.wires.index(('in', lid))] = w
                        continue
            r.run([c])
        return meas


def start(ids, columns):
    return Q.State([('in', i) for i in ids], columns=columns)


def compare(h, a, b, measured=0):
    live = sorted(map(repr, a.wires)) == sorted(map(repr, b.wires))
    h.true('qubits', live, '%r %r' % (a.wires, b.wires))
    h.zero('effect', Q.residual(a, b, phase=True, norm=1 << (len(a.wires) - measured) if measured else None))


def place(g, qs):
    n = type(getattr(g, '_gate', g)).__name__
    if n in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Ryy', 'Rzz'):
        return tuple(qs)
    if n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        return (qs[:-1], qs[-1])
    return qs[0] if len(qs) == 1 else qs


def gate(h, setup, name, nctrl, must):
    nq, mk = gate_makers()[name]
    g = mk(h, '')
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(nctrl))
    rev = h.choice('order', [False, True])
    r = Run(h, setup, nq + nctrl)

    def prog(eng, q):
        q = q[::-1] if rev else q
        with Control(eng, q[:nctrl], **(dict(ctrl_state=cs) if nctrl else {})):
            g | place(g, q[nctrl:])
    if not must:
        try:
            a, b = r.execute(prog)
        except (NoGateDecompositionError, RuntimeError) as e:
            h.true('refused', True)
            return
    else:
        a, b = r.execute(prog)
    compare(h, a, b)


ALPHA = {
    'H': lambda t: ops.H, 'X': lambda t: ops.X, 'T': lambda t: ops.T, 'Sdag': lambda t: ops.Sdag, 'SqrtX': lambda t: ops.SqrtX,
    'Rx': lambda t: ops.Rx(t), 'Ry': lambda t: ops.Ry(t), 'Rz': lambda t: ops.Rz(t), 'R': lambda t: ops.R(t), 'Ph': lambda t: ops.Ph(t),
    'Y': lambda t: ops.Y, 'Z': lambda t: ops.Z,
}
SHAPES = {1: [('', '0'), ('0', '1'), ('1', '0'), ('-0', '1')], 2: [('0', '1'), ('0', '0')]}


def sequence(h, setup, names, n):
    """short programs; placement of every gate is a free choice (target, control, sign of the control)"""
    r = Run(h, setup, n)
    plan = []
    for i, nm in enumerate(names):
        if nm == 'M':
            w = h.choice('m', range(n))
            r.outcome[w] = h.choice('outcome', [0, 1])
            plan.append((None, w, None, None))
            continue
        t = h.angle('t%d' % i, 0.01, 3.1) if nm in ('Rx', 'Ry', 'Rz', 'R', 'Ph') else 0
        k, c, sg = h.choice('p%d' % i, [(k, c, sg) for k in range(n if i else 1) for c in [None] + [c for c in range(n if i else 2) if c != k] for sg in ('1', '0') if c is not None or sg == '1'])
        plan.append((ALPHA[nm](t), k, c, sg))

    def prog(eng, q):
        for g, k, c, sg in plan:
            if g is None:
                ops.Measure | q[k]
            elif c is None:
                g | q[k]
            else:
                with Control(eng, q[c], ctrl_state=sg):
                    g | q[k]
    a, b = r.execute(prog)
    compare(h, a, b, len(r.outcome))


def blocks(h, setup, kind):
    """meta blocks, helpers and composite gates"""
    t, u = h.angle('t', 0.01, 3.1), h.angle('u', 0.01, 3.1)
    n = {'qft': 3, 'entangle': 3, 'flip': 3, 'tensor': 3, 'prepare': 2, 'pauli': 3}.get(kind, 3)
    r = Run(h, setup, n)
    s = h.choice('sign', '10')
    arb = [np.array([[1, 0], [0, 1]], dtype=complex)]

    def prog(eng, q):
        if kind == 'compute':
            with Compute(eng):
                ops.H | q[0]
                ops.CNOT | (q[0], q[1])
            ops.Rz(t) | q[1]
            Uncompute(eng)
        elif kind == 'controlled compute':
            with Control(eng, q[2], ctrl_state=s):
                with Compute(eng):
                    ops.Ry(t) | q[0]
                    ops.CNOT | (q[0], q[1])
                ops.R(u) | q[1]
                Uncompute(eng)
        elif kind == 'dagger':
            with Dagger(eng):
                ops.Ry(t) | q[0]
                with Control(eng, q[1], ctrl_state=s):
                    ops.R(u) | q[0]
                ops.S | q[2]
                ops.SqrtSwap | (q[0], q[2])
        elif kind == 'loop':
            with Loop(eng, 3):
                ops.Rx(t) | q[0]
                ops.C(ops.T) | (q[0], q[1])
        elif kind == 'helper':
            with Compute(eng):
                anc = eng.allocate_qubit()
                ops.CNOT | (q[0], anc)
            ops.C(ops.Rz(t)) | (anc, q[1])
            Uncompute(eng)
        elif kind == 'entangle':
            ops.Entangle | q
        elif kind == 'qft':
            with Control(eng, q[0], ctrl_state=s):
                ops.QFT | q[1:]
        elif kind == 'flip':
            ops.Rx(t) | q[1]
            ops.FlipBits([0, 1, s == '1']) | q
        elif kind == 'tensor':
            ops.All(ops.Ry(t)) | q
            ops.Tensor(ops.H) | q[:2]
        elif kind == 'evolution':
            ops.TimeEvolution(t, 0.5 * ops.QubitOperator('X0 Z2') + 0.25 * ops.QubitOperator('Z0 X2')) | q
        elif kind == 'pauli':
            with Control(eng, q[0], ctrl_state=s):
                ops.QubitOperator('X0 Y1', 1j) | q[1:]
        elif kind == 'uniformly':
            ops.UniformlyControlledRy([t, u]) | ([q[0]], q[1])
        elif kind == 'uniformly z':
            ops.UniformlyControlledRz([t, u, 0.3, 0.4]) | (q[:2], q[2])
        elif kind == 'toffolis':
            ops.Toffoli | (q[0], q[1], q[2])
            ops.Rx(t) | q[2]
            with Control(eng, q[:2], ctrl_state=s + '0'):
                ops.X | q[2]
        elif kind == 'matrix':
            class U(ops.MatrixGate):
                def __init__(self):
                    super().__init__(np.matrix([[0.6, 0.8j], [0.8j, 0.6]]))
            U() | q[0]
            with Control(eng, q[1], ctrl_state=s):
                U() | q[0]
        elif kind == 'swap':
            ops.Swap | (q[0], q[2])
            ops.Rz(t) | q[0]
            with Control(eng, q[1], ctrl_state=s):
                ops.Swap | (q[0], q[2])
        else:
            raise AssertionError(kind)
    a, b = r.execute(prog)
    if kind == 'qft':
        # the transform may be emitted without its final swaps (documented relabelling)
        if not any(isinstance(c.gate, type(ops.QFT)) for c in r.rec.cmds):
            w = list(a.wires)
            sw = ops.Swap.matrix
            ids = [c.qubits[0][0].id for c in r.srec.cmds if isinstance(c.gate, ops.AllocateQubitGate)]
            a.apply(sw, [ids[1], ids[2]], [ids[0]], s)
    compare(h, a, b)


MATH = {
    'AddConstant': (2, lambda m, k: m.AddConstant(k), range(4)),
    'SubConstant': (2, lambda m, k: m.SubConstant(k), range(4)),
    'AddConstantModN': (2, lambda m, k: m.AddConstantModN(k, 3), range(3)),
    'MultiplyByConstantModN': (2, lambda m, k: m.MultiplyByConstantModN(k, 3), (1, 2)),
}


def arithmetic(h, setup, name, nctrl):
    import projectq.libs.math as m
    nq, mk, ks = MATH[name]
    k = h.choice('k', list(ks))
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(nctrl))
    t = h.angle('t', 0.1, 3.0)
    r = Run(h, setup, nq + nctrl)

    def prog(eng, q):
        with Control(eng, q[:nctrl], **(dict(ctrl_state=cs) if nctrl else {})):
            mk(m, k) | q[nctrl:]
        ops.Rx(t) | q[-1]
    if 'ModN' in name:       # specified for values below the modulus only
        r.columns = [j for j in range(1 << (nq + nctrl)) if (j >> nctrl) < 3]
    a, b = r.execute(prog)
    compare(h, a, b)


FULL = ('any+CNOT', 'any+any', 'RzRx+CNOT', 'RzH+CNOT', 'RzRyRxH+CNOT', 'ibm', 'aqt', 'ionq', 'trapped ion', 'default', 'any+SwapCNOT', 'any+CNOT+evolution')
NOROUTE = ('Rxx', 'Ryy', 'Rzz')


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=20000)
    for si, setup in enumerate(list(SETS) + ['trapped ion', 'default', 'default+1control']):
        for gi, (name, (nq, _)) in enumerate(gate_makers().items()):
            if name == 'MatrixPhase' or name.startswith(('Dag(Entangle', 'QFT')):
                continue
            for nctrl in range(0, 3 if quick else 4):
                if nq + nctrl > (4 if quick else 5):
                    continue
                if quick and nctrl and (si + gi + nctrl) % (6 if nctrl == 2 else 3):
                    continue        # the other combinations are in the thorough tier
                if quick and nctrl and name.startswith(('Uniformly', 'TimeEvolution(Y')):
                    continue
                must = setup in FULL and not name.startswith(NOROUTE)
                yield Case('gate/%s/%s/%d' % (setup, name, nctrl), gate, dict(setup=setup, name=name, nctrl=nctrl, must=must), weight=1 << nctrl, **K)
        if setup == 'braket':
            continue
        for kind in ('compute', 'controlled compute', 'dagger', 'loop', 'helper', 'entangle', 'qft', 'flip', 'tensor', 'evolution', 'pauli', 'uniformly', 'uniformly z',
                     'toffolis', 'matrix', 'swap'):
            yield Case('block/%s/%s' % (setup, kind), blocks, dict(setup=setup, kind=kind), weight=2, **K)
        if setup not in ('default', 'default+1control', 'any+any', 'any+CNOT+evolution'):    # those four leave (small) Fourier transforms in place
            for name in MATH:
                for nctrl in (0, 1) if quick else (0, 1, 2):
                    yield Case('arithmetic/%s/%s/%d' % (setup, name, nctrl), arithmetic, dict(setup=setup, name=name, nctrl=nctrl), weight=4, **K)
    names = list(ALPHA)
    P = dict(K, budget=15 if quick else 900)
    for si, setup in enumerate(FULL + ('chain', 'chain any', 'ring', 'grid any')):
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                if quick and (i + j + si) % 20:
                    continue
                yield Case('program/%s/%s %s' % (setup, x, y), sequence, dict(setup=setup, names=[x, y], n=2 if si % 2 else 3), weight=3, **P)
                if not quick or (i + 2 * j + si) % 9 == 0:
                    yield Case('program/%s/%s M %s' % (setup, x, y), sequence, dict(setup=setup, names=[x, 'M', y], n=2), weight=3, **P)
                if not quick:
                    yield Case('program/%s/%s %s H' % (setup, x, y), sequence, dict(setup=setup, names=[x, y, 'H'], n=2), weight=3, **P)
    for setup in ('chain', 'chain any', 'ring', 'grid any', 'grid'):
        for kind in ('compute', 'controlled compute', 'dagger', 'entangle', 'toffolis', 'swap', 'evolution', 'helper'):
            yield Case('block/%s/%s' % (setup, kind), blocks, dict(setup=setup, kind=kind), weight=2, **K)
