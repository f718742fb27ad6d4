"""Independent quantum semantics used as the oracle (both symbolic and plain numbers).

Nothing in here calls the implementation's matrices, decompositions or simulators, except for gates that carry their
own definition (a MatrixGate's matrix, a BasicMathGate's function when asked for).
"""
import cmath
import itertools
import math

import numpy as np

from .sym import AbsSym, Sym, SymBool, lift, sym_exp

SQ = 1 / math.sqrt(2)


def cexp(a):
    """e^{i a}"""
    if isinstance(a, (Sym, AbsSym)):
        return sym_exp(1j * lift(a))
    return cmath.exp(1j * a)


def cos(a):
    if isinstance(a, (Sym, AbsSym)):
        u = sym_exp(1j * lift(a))
        return (u + u.conjugate()) * 0.5
    return math.cos(a)


def sin(a):
    if isinstance(a, (Sym, AbsSym)):
        u = sym_exp(1j * lift(a))
        return (u - u.conjugate()) * (-0.5j)
    return math.sin(a)


def mat(rows):
    if any(isinstance(x, (Sym, AbsSym)) for r in rows for x in r):
        m = np.empty((len(rows), len(rows)), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                m[i, j] = x
        return m
    return np.array(rows, dtype=complex)


def issym(x):
    return isinstance(x, (Sym, AbsSym))


def from_any(m):
    """array of a possibly symbolic matrix"""
    a = np.asarray(m)
    if a.dtype == object:
        if not any(issym(x) for x in a.flat):
            return a.astype(complex)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            x = a[i]
            if isinstance(x, AbsSym):
                x = x.force()
            if isinstance(x, Sym):
                x = x.simplify_const()
            out[i] = x
        return out
    return a.astype(complex)


I2 = np.eye(2, dtype=complex)
X2 = np.array([[0, 1], [1, 0]], dtype=complex)
Y2 = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z2 = np.array([[1, 0], [0, -1]], dtype=complex)
H2 = np.array([[SQ, SQ], [SQ, -SQ]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
SQSWAP = np.array([[1, 0, 0, 0], [0, .5 + .5j, .5 - .5j, 0], [0, .5 - .5j, .5 + .5j, 0], [0, 0, 0, 1]], dtype=complex)
PAULI = {'X': X2, 'Y': Y2, 'Z': Z2, 'I': I2}


def rot(P, a):
    """exp(-i a/2 P) for P^2 = 1"""
    n = P.shape[0]
    c, s = cos(a * 0.5), sin(a * 0.5)
    rows = [[(c if i == j else 0) + (-1j) * P[i, j] * s if P[i, j] != 0 else (c if i == j else 0.0) for j in range(n)]
            for i in range(n)]
    return mat(rows)


def kron(*ms):
    """first factor = lowest qubit"""
    r = np.eye(1, dtype=complex)
    for m in ms:
        r = np.kron(m, r)
    return r


class NoSpec(Exception):
    pass


def spec_matrix(gate, nq=None):
    """Reference matrix of a gate, from its documented meaning (bit 0 of the index = first qubit)."""
    from projectq import ops
    n = type(gate).__name__
    if isinstance(gate, ops.DaggeredGate):
        return dagger(spec_matrix(gate._gate, nq))
    if n == 'XGate':
        return X2
    if n == 'YGate':
        return Y2
    if n == 'ZGate':
        return Z2
    if n == 'HGate':
        return H2
    if n == 'SGate':
        return np.diag([1, 1j]).astype(complex)
    if n == 'TGate':
        return np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(complex)
    if n == 'SqrtXGate':
        return 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]], dtype=complex)
    if n == 'SwapGate':
        return SWAP
    if n == 'SqrtSwapGate':
        return SQSWAP
    if n == 'Ph':
        return mat([[cexp(gate.angle), 0], [0, cexp(gate.angle)]])
    if n == 'R':
        return mat([[1, 0], [0, cexp(gate.angle)]])
    if n in ('Rx', 'Ry', 'Rz'):
        return rot(PAULI[n[1].upper()], gate.angle)
    if n in ('Rxx', 'Ryy', 'Rzz'):
        P = PAULI[n[1].upper()]
        return rot(np.kron(P, P), gate.angle)
    if n == 'EntangleGate':
        d = 1 << nq
        m = np.zeros((d, d), dtype=complex)
        for b in range(d):
            rest = b & ~1
            for h in (0, 1):
                out = (rest ^ ((d - 2) if h else 0)) | h
                m[out, b] += SQ * (-1 if (h and b & 1) else 1)
        return m
    if n == 'QFTGate':
        d = 1 << nq
        m = np.empty((d, d), dtype=complex)
        for i in range(d):
            for j in range(d):
                m[i, j] = cmath.exp(2j * math.pi * i * j / d) / math.sqrt(d)
        return m
    if n == 'BarrierGate':
        return np.eye(1 << nq, dtype=complex)
    if n == 'FlipBits':
        bits = gate.bits_to_flip
        mask = 0
        for i in range(nq):
            if (bits >> i) & 1:
                mask |= 1 << i
        m = np.zeros((1 << nq, 1 << nq), dtype=complex)
        for b in range(1 << nq):
            m[b ^ mask, b] = 1
        return m
    if n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        # qubits: control register (index bit 0 first), then target
        k = nq - 1
        P = Y2 if n.endswith('Ry') else Z2
        rots = [rot(P, a) for a in gate.angles]
        d = 1 << nq
        m = np.zeros((d, d), dtype=object if any(r.dtype == object for r in rots) else complex)
        for c in range(1 << k):
            for i in (0, 1):
                for j in (0, 1):
                    m[c | (i << k), c | (j << k)] = rots[c][i, j]
        return m
    if n == 'QubitOperator':
        (term, coef), = gate.terms.items()
        ps = [I2] * nq
        for i, p in term:
            ps[i] = PAULI[p]
        m = kron(*ps)
        return mat([[coef * x for x in r] for r in m]) if issym(coef) else coef * m
    if n in ('MatrixGate', 'BasicGate') or hasattr(gate, '_matrix'):
        return from_any(gate.matrix)
    raise NoSpec(n)


def dagger(m):
    m = np.asarray(m)
    if m.dtype == object:
        out = np.empty(m.shape, dtype=object)
        for i in np.ndindex(m.shape):
            x = m[i]
            out[i[1], i[0]] = x.conjugate() if issym(x) else np.conj(x)
        return out
    return m.conj().T


class State:
    """A family of state vectors (columns) over named wires; numeric (complex) or symbolic amplitudes."""

    def __init__(self, wires=(), cols=None, columns=None):
        self.wires = list(wires)          # wire ids, position = bit
        n = len(self.wires)
        self.num = np.eye(1 << n, dtype=complex) if cols is None else cols
        if columns is not None:
            self.num = self.num[:, columns]
        self.sp = None                    # list of dict basis -> amplitude
        self.alpha = []

    @staticmethod
    def symbolic(wires, amps):
        """one column with the given amplitudes"""
        s = State(wires, np.zeros((1, 1)))
        s.num = None
        s.sp = [{i: a for i, a in enumerate(amps) if issym(a) or a != 0}]
        return s

    def ncols(self):
        return self.num.shape[1] if self.num is not None else len(self.sp)

    def copy(self):
        s = State.__new__(State)
        s.wires = list(self.wires)
        s.num = None if self.num is None else self.num.copy()
        s.sp = None if self.sp is None else [dict(d) for d in self.sp]
        s.alpha = []
        return s

    def to_sparse(self):
        if self.sp is None:
            a = self.num
            self.sp = [{int(i): complex(a[i, j]) for i in np.nonzero(np.abs(a[:, j]) > 1e-14)[0]}
                       for j in range(a.shape[1])]
            self.num = None

    def pos(self, w):
        return self.wires.index(w)

    def alloc(self, w):
        if w in self.wires:
            raise AssertionError('qubit %r allocated twice' % (w,))
        if self.num is not None:
            self.num = np.vstack([self.num, np.zeros_like(self.num)])
        self.wires.append(w)

    def dealloc(self, w):
        """returns the list of amplitudes with the qubit in |1> (must vanish) and removes the wire"""
        p = self.pos(w)
        bit = 1 << p
        bad = []
        low = bit - 1
        if self.num is not None:
            idx = np.arange(self.num.shape[0])
            one = self.num[(idx & bit) != 0]
            m = float(np.max(np.abs(one))) if one.size else 0.0
            bad = [m]
            self.num = self.num[(idx & bit) == 0]
        else:
            new = []
            for d in self.sp:
                e = {}
                for b, a in d.items():
                    if b & bit:
                        bad.append(a)
                    else:
                        e[(b & low) | ((b >> (p + 1)) << p)] = a
                new.append(e)
            self.sp = new
        del self.wires[p]
        return bad

    def apply(self, m, targets, controls=(), cstate=None):
        m = from_any(m)
        k = len(targets)
        assert m.shape[0] == 1 << k, (m.shape, targets)
        tp = [self.pos(t) for t in targets]
        cp = [self.pos(c) for c in controls]
        assert len(set(tp + cp)) == len(tp) + len(set(cp)) and len(set(tp)) == k, 'repeated qubits in an operation'
        cmask = cval = 0
        for i, p in enumerate(cp):
            cmask |= 1 << p
            if cstate is None or cstate[i] == '1':
                cval |= 1 << p
        offs = [sum(((s >> j) & 1) << tp[j] for j in range(k)) for s in range(1 << k)]
        tmask = offs[-1] if k else 0
        if m.dtype != object and self.num is not None:
            idx = np.arange(self.num.shape[0])
            base = idx[((idx & tmask) == 0) & ((idx & cmask) == cval)]
            rows = np.stack([base | o for o in offs])          # (2^k, B)
            sub = self.num[rows]                               # (2^k, B, C)
            self.num[rows] = np.tensordot(m, sub, axes=(1, 0))
            return
        self.to_sparse()
        cols = []
        nz = []
        for j in range(1 << k):
            nz.append([(offs[i], m[i, j]) for i in range(1 << k) if issym(m[i, j]) or abs(m[i, j]) > 1e-15])
        inv = {o: i for i, o in enumerate(offs)}
        for d in self.sp:
            e = {}
            for b, a in d.items():
                if (b & cmask) != cval:
                    _add(e, b, a)
                    continue
                base = b & ~tmask
                for o, x in nz[inv[b & tmask]]:
                    _add(e, base | o, x * a if issym(x) else a * x)
            cols.append({b: a for b, a in e.items() if _nz(a)})
        self.sp = cols

    def permute(self, f, regs, controls=(), cstate=None):
        """basis map: f(list of register values) -> list of register values"""
        rp = [[self.pos(w) for w in r] for r in regs]
        cp = [self.pos(c) for c in controls]
        cmask = cval = 0
        for i, p in enumerate(cp):
            cmask |= 1 << p
            if cstate is None or cstate[i] == '1':
                cval |= 1 << p
        allmask = 0
        for r in rp:
            for p in r:
                allmask |= 1 << p
        mp = {}
        n = 1 << len(self.wires)

        def image(b):
            if (b & cmask) != cval:
                return b
            key = b & allmask
            if key not in mp:
                vals = [sum(((b >> p) & 1) << i for i, p in enumerate(r)) for r in rp]
                out = f(vals)
                o = 0
                for r, v in zip(rp, out):
                    v = int(v)
                    assert 0 <= v < (1 << len(r)), 'register value out of range'
                    for i, p in enumerate(r):
                        if (v >> i) & 1:
                            o |= 1 << p
                mp[key] = o
            return (b & ~allmask) | mp[key]
        if self.num is not None:
            new = np.zeros_like(self.num)
            im = np.array([image(b) for b in range(n)])
            np.add.at(new, im, self.num)
            self.num = new
        else:
            cols = []
            for d in self.sp:
                e = {}
                for b, a in d.items():
                    _add(e, image(b), a)
                cols.append(e)
            self.sp = cols

    def project(self, w, value):
        p = self.pos(w)
        if self.num is not None:
            idx = np.arange(self.num.shape[0])
            self.num[((idx >> p) & 1) != value] = 0
        else:
            self.sp = [{b: a for b, a in d.items() if ((b >> p) & 1) == value} for d in self.sp]

    def reorder(self, wires):
        """same state with the given wire order"""
        assert sorted(map(repr, wires)) == sorted(map(repr, self.wires)), (wires, self.wires)
        src = [self.pos(w) for w in wires]
        s = self.copy()
        s.wires = list(wires)

        def to_new(b):
            return sum(((b >> p) & 1) << i for i, p in enumerate(src))
        if self.num is not None:
            n = self.num.shape[0]
            im = np.array([to_new(b) for b in range(n)])
            s.num = np.empty_like(self.num)
            s.num[im] = self.num
        else:
            s.sp = [{to_new(b): a for b, a in d.items()} for d in self.sp]
        return s

    def entries(self):
        """list over columns of dict basis->amp"""
        if self.num is not None:
            a = self.num
            return [{int(i): complex(a[i, j]) for i in range(a.shape[0]) if abs(a[i, j]) > 1e-14}
                    for j in range(a.shape[1])]
        return self.sp


def _nz(a):
    return bool(a.t) if type(a) is Sym else abs(a) > 1e-15


def _add(e, b, a):
    if b in e:
        e[b] = e[b] + a
    else:
        e[b] = a


def residual(A, B, phase=False, norm=None):
    """entries of A - B (or of A - g B with g the global phase); A, B: State over the same wires"""
    B = B.reorder(A.wires) if A.wires != B.wires else B
    if A.num is not None and B.num is not None and not phase:
        return [float(np.max(np.abs(A.num - B.num)))]
    if A.num is not None and B.num is not None:
        if norm:
            g = np.vdot(B.num, A.num) / norm
            return [abs(abs(g) - 1), float(np.max(np.abs(A.num - g * B.num)))]
        g = np.vdot(B.num[:, 0], A.num[:, 0])
        return [abs(abs(g) - 1), float(np.max(np.abs(A.num - g * B.num)))]
    ea, eb = A.entries(), B.entries()
    out = []
    g = None
    if phase:
        # a reference entry: prefer a constant one of B
        g = 0
        for da, db in zip(ea, eb) if norm else ((ea[0], eb[0]),):
            for b, x in db.items():
                if b in da:
                    g = g + da[b] * _conj(x)
        if norm:
            g = g * (1.0 / norm)
        gs = lift(g)
        out.append((gs * gs.conjugate()) - 1)
    for da, db in zip(ea, eb):
        for b in set(da) | set(db):
            x = da.get(b, 0)
            y = db.get(b, 0)
            out.append(x - (g * y if phase and not (isinstance(y, int) and y == 0) else y))
    return out


def _conj(x):
    return x.conjugate()


# ---------------------------------------------------------------- commands
def cmd_info(cmd):
    """(gate, target ids per register, control ids, control state)"""
    regs = [[q.id for q in r] for r in cmd.qubits]
    ctr = [q.id for q in cmd.control_qubits]
    cs = getattr(cmd, 'control_state', None)
    cs = cs if cs is not None else '1' * len(ctr)
    return cmd.gate, regs, ctr, cs


class Runner:
    """Applies a list of commands to a State with reference semantics."""

    def __init__(self, h, state, extra=None):
        self.h, self.s, self.extra = h, state, extra
        self.anc = set()

    def run(self, cmds):
        from projectq import ops
        for cmd in cmds:
            g, regs, ctr, cs = cmd_info(cmd)
            flat = [q for r in regs for q in r]
            t = type(g).__name__
            if isinstance(g, ops.FlushGate):
                continue
            if t in ('AllocateQubitGate', 'AllocateDirtyQubitGate'):
                self.s.alloc(flat[0])
                continue
            if t == 'DeallocateQubitGate':
                bad = self.s.dealloc(flat[0])
                self.h.zero('released qubit is |0>', bad)
                continue
            if self.extra is not None and self.extra(self.s, cmd, g, regs, ctr, cs):
                continue
            if isinstance(g, ops.BasicMathGate):
                f = g.get_math_function(cmd.qubits)
                self.s.permute(lambda v: [x % (1 << len(r)) for x, r in zip(f(v), regs)], regs, ctr, cs)
                continue
            if t == 'TimeEvolution':
                apply_time_evolution(self.s, g, flat, ctr, cs)
                continue
            self.s.apply(spec_matrix(g, len(flat)), flat, ctr, cs)


def apply_time_evolution(s, g, flat, ctr, cs):
    """exp(-i t sum c_k P_k) for mutually commuting terms"""
    for term, coef in g.hamiltonian.terms.items():
        a = 2 * g.time * (coef.real if issym(coef) else complex(coef).real)
        if not term:
            ph = cexp(a * -0.5)
            s.apply(mat([[ph, 0], [0, ph]]), [flat[0]], ctr, cs)
            continue
        P = kron(*[PAULI[p] for _, p in term])
        s.apply(rot(P, a), [flat[i] for i, _ in term], ctr, cs)


def recorder(accept=None):
    """(MainEngine-last) engine that stores commands; measurement outcomes are given by accept.outcomes"""
    from projectq.cengines import BasicEngine
    from projectq.ops import FlushGate, Measure, MeasureGate
    from projectq.meta import LogicalQubitIDTag
    from projectq.types import WeakQubitRef

    class Rec(BasicEngine):
        def __init__(self):
            super().__init__()
            self.cmds = []
            self.batches = []
            self.outcomes = {}
            self.is_last_engine = True
            self.flushes = 0

        def is_available(self, cmd):
            return accept(cmd) if accept is not None else True

        def receive(self, command_list):
            self.batches.append(len(command_list))
            for cmd in command_list:
                if isinstance(cmd.gate, FlushGate):
                    self.flushes += 1
                self.cmds.append(cmd)
                if isinstance(cmd.gate, MeasureGate):
                    for r in cmd.qubits:
                        for q in r:
                            lid = q.id
                            for t in cmd.tags:
                                if isinstance(t, LogicalQubitIDTag):
                                    lid = t.logical_qubit_id
                            v = self.outcomes.get(lid, 0)
                            v = v() if callable(v) else v
                            self.main_engine.set_measurement_result(WeakQubitRef(self, lid), v)
    return Rec()


def engine(engines=(), accept=None):
    """MainEngine with a recording back-end"""
    from projectq import MainEngine
    rec = recorder(accept)
    eng = MainEngine(backend=rec, engine_list=list(engines), verbose=True)
    return eng, rec
