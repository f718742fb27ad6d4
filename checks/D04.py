"""Fourier transform, phase estimation and amplitude amplification against their closed-form results."""
import math

from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.meta import Compute, Control, Dagger, Loop, Uncompute
import projectq.setups.decompositions as dec

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='Fourier transform on 1-6 qubits (product inputs with arbitrary phases, 0-2 controls of either sign, inverse, in a loop); phase estimation '
                    'with 1-3 readout qubits for gates and functions with every eigenphase, controlled by 0-1 qubits, inverted; amplification with 1-3 system '
                    'qubits, arbitrary rotation angles, every marked state, 1-3 iterations, controlled and inverted',
              thorough='registers one qubit larger')
OUTSIDE = 'larger registers; unitaries outside the families listed in the check'


def setup(n):
    rs = DecompositionRuleSet(modules=[dec])

    def avail(e, cmd):
        g = cmd.gate
        return not any(isinstance(getattr(g, '_gate', g), k) for k in (type(ops.QFT), ops.QPE, ops.QAA)) and not isinstance(g, ops.Tensor)
    eng, rec = Q.engine([AutoReplacer(rs), InstructionFilter(avail)])
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    return eng, rec, q


def scope(eng, h, ctr, where):
    """contexts the gate is applied in -> (enter function, control state, inverted)"""
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(len(ctr)))
    from contextlib import ExitStack
    st = ExitStack()
    if ctr:
        st.enter_context(Control(eng, ctr, ctrl_state=cs))
    if where == 'dagger':
        st.enter_context(Dagger(eng))
    elif where == 'double dagger':
        st.enter_context(Dagger(eng))
        st.enter_context(Dagger(eng))
    elif where == 'loop':
        st.enter_context(Loop(eng, 2))
    return st, cs


def fourier(n, inv=False):
    """matrix that the swap-free circuit implements: output register bit-reversed"""
    N = 1 << n
    w = -1 if inv else 1
    F = np.array([[cmath_exp(2j * math.pi * w * a * b / N) / math.sqrt(N) for b in range(N)] for a in range(N)])
    P = np.zeros((N, N))
    for i in range(N):
        P[int(format(i, '0%db' % n)[::-1], 2), i] = 1
    return F @ P if inv else P @ F


def cmath_exp(z):
    import cmath
    return cmath.exp(z)


def qft(h, n, nctrl, where, first=False):
    eng, rec, q = setup(n + nctrl)
    ctr, tgt = q[:nctrl], q[nctrl:]
    ids = [x.id for x in q]
    rec.cmds.clear()
    th = [h.angle('t%d' % i) for i in range(n)]
    st, cs = scope(eng, h, ctr, where)
    with st:
        (ops.get_inverse(ops.QFT) if where == 'inverse' else ops.QFT) | tgt
    # with arbitrary relative phases on all qubits the first column determines the others
    got, want = [Q.State(ids, columns=[0] if first else None) for _ in range(2)]
    if first:
        for s in (got, want):
            for x in ctr:
                s.apply(ops.Ry(0.7).matrix, [x.id])
    for s in (got, want):
        for t, x in zip(th, tgt):
            s.apply(ops.Ry(1.1).matrix, [x.id])
            s.apply(Q.mat([[1, 0], [0, Q.cexp(t)]]), [x.id])
    Q.Runner(h, got).run(rec.cmds)
    m = fourier(n, where in ('dagger', 'inverse'))
    if where == 'loop':
        m = m @ m
    want.apply(m, [x.id for x in tgt], [x.id for x in ctr], cs)
    h.zero('transform', Q.residual(got, want))


def phase_gate(kind, h):
    """(unitary argument for QPE, number of system qubits, preparation of eigenstate, eigenphase)"""
    t = h.angle('theta')
    if kind == 'R':
        return ops.R(t), 1, (lambda s: ops.X | s[0]), t
    if kind == 'R0':
        return ops.R(t), 1, (lambda s: None), 0
    if kind == 'Ph':
        return ops.Ph(t), 1, (lambda s: ops.H | s[0]), t
    if kind == 'Rz':
        return ops.Rz(t), 1, (lambda s: None), t * -0.5
    if kind == 'Rx':
        return ops.Rx(t), 1, (lambda s: ops.H | s[0]), t * -0.5
    if kind == 'Ry':
        def prep(s):
            ops.X | s[0]
            ops.H | s[0]
            ops.S | s[0]
        # H|1> = |->, S|-> = (|0> - i|1>)/sqrt2: eigenvector of Y with -1
        return ops.Ry(t), 1, prep, t * 0.5
    if kind == 'Y':
        def prep(s):
            ops.X | s[0]
            ops.H | s[0]
            ops.S | s[0]
        return ops.Y, 1, prep, math.pi
    if kind == 'Rzz':
        return ops.Rzz(t), 2, (lambda s: ops.X | s[1]), t * 0.5
    if kind == 'evolution':
        c = h.real('c', -2, 2)
        return ops.TimeEvolution(t, c * ops.QubitOperator('Z0 X1')), 2, (lambda s: (ops.X | s[0], ops.H | s[1])), t * c
    if kind == 'function':
        u = h.angle('u')

        def f(system, time):
            ops.R(t * time) | system[0]
            ops.Rx(u * time) | system[1]
        return f, 2, (lambda s: (ops.X | s[0], ops.H | s[1])), t + u * -0.5
    raise AssertionError(kind)


def qpe(h, kind, n, nctrl, where):
    u, m, prep, phi = phase_gate(kind, h)
    eng, rec, q = setup(n + m + nctrl)
    order = h.choice('order', ['asc', 'rev'])
    ids = [x.id for x in q]
    if order == 'rev':
        q = q[::-1]
    ctr, anc, sys_ = q[:nctrl], q[nctrl:nctrl + n], q[nctrl + n:]
    rec.cmds.clear()
    prep(sys_)
    k0 = len(rec.cmds)
    st, cs = scope(eng, h, ctr, where)
    with st:
        ops.QPE(u) | (anc, sys_)
    if where == 'inverse':
        raise AssertionError
    got, want = Q.State(ids, columns=[0]), Q.State(ids, columns=[0])
    for s in (got, want):
        for i, c in enumerate(ctr):
            s.apply(ops.Ry(0.7 + i).matrix, [c.id])
    Q.Runner(h, want).run(rec.cmds[:k0])
    if where == 'dagger':
        # undo of the estimation: start from the state the closed form predicts
        Q.Runner(h, got).run(rec.cmds[:k0])
        got.apply(readout(n, phi), [a.id for a in anc], [c.id for c in ctr], cs)
        Q.Runner(h, got).run(rec.cmds[k0:])
    else:
        Q.Runner(h, got).run(rec.cmds)
        want.apply(readout(n, phi), [a.id for a in anc], [c.id for c in ctr], cs)
    h.zero('readout', Q.residual(got, want))


def readout(n, phi):
    """2^n x 2^n matrix whose column 0 is the phase distribution (first readout qubit is the most significant bit); the other
    columns are the shifted distributions sum_k (-1)^{k.j} e^{i k phi} <y|..>"""
    N = 1 << n
    M = np.zeros((N, N), dtype=object)
    for j in range(N):
        for y in range(N):
            yy = int(format(y, '0%db' % n)[::-1], 2)
            acc = 0
            for k in range(N):
                sg = (-1) ** bin(k & j).count('1')
                acc = acc + Q.cexp(phi * k) * (sg * cmath_exp(-2j * math.pi * k * yy / N) / N)
            M[y, j] = acc
    return M


def qaa(h, n, nctrl, its, where, alg):
    eng, rec, q = setup(n + 1 + nctrl)
    order = h.choice('order', ['asc', 'rev'])
    ids = [x.id for x in q]
    if order == 'rev':
        q = q[::-1]
    ctr, anc, sys_ = q[:nctrl], q[nctrl], q[nctrl + 1:]
    marked = [h.choice('m%d' % i, '10') for i in range(n)]
    th = [h.angle('t%d' % i) for i in range(n)]

    def algorithm(eng, s):
        for t, x in zip(th, s):
            ops.Ry(t) | x
        if alg == 'entangled':
            for a, b in zip(s, s[1:]):
                ops.CNOT | (a, b)
            ops.S | s[0]

    def oracle(eng, s, a):
        with Compute(eng):
            for mk, x in zip(marked, s):
                if mk == '0':
                    ops.X | x
        with Control(eng, s):
            ops.X | a
        Uncompute(eng)
    rec.cmds.clear()
    st, cs = scope(eng, h, ctr, where)
    with st:
        if its == 1:
            ops.QAA(algorithm, oracle) | (sys_, anc)
        else:
            with Loop(eng, its):
                ops.QAA(algorithm, oracle) | (sys_, anc)
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    # documented operator: - A S_0 A^-1 S_chi
    N = 1 << n
    A = Q.kron(*[Q.rot(Q.PAULI['Y'], t) for t in th])
    if alg == 'entangled':
        P = np.zeros((N, N))
        for b in range(N):
            v = [(b >> i) & 1 for i in range(n)]
            for i in range(n - 1):
                v[i + 1] ^= v[i]
            P[sum(x << i for i, x in enumerate(v)), b] = 1
        D = np.diag([1j if b & 1 else 1 for b in range(N)])
        A = mm(mm(D, P), A)
    S0 = np.eye(N)
    S0[0, 0] = -1
    mk = sum(1 << i for i, c in enumerate(marked) if c == '1')
    G = mm(A, mm(S0 * -1, Q.dagger(A)))
    sid, aid, cid = [x.id for x in sys_], anc.id, [x.id for x in ctr]
    inv = where == 'dagger'
    for _ in range(its):
        for step in ((1, 0) if inv else (0, 1)):
            if step == 0:
                want.permute(lambda v: [v[0], v[1] ^ (v[0] == mk)], [sid, [aid]], cid, cs)
            else:
                want.apply(Q.dagger(G) if inv else G, sid, cid, cs)
    h.zero('iterations', Q.residual(got, want))


def success(h, its):
    """one marked state with initial amplitude sin(a): after k iterations its amplitude is sin((2k+1) a)"""
    eng, rec, q = setup(2)
    s, anc = [q[0]], q[1]
    a = h.angle('a')

    def algorithm(eng, r):
        ops.Ry(a * 2) | r[0]

    def oracle(eng, r, x):
        with Control(eng, r):
            ops.X | x
    rec.cmds.clear()
    ops.X | anc
    ops.H | anc
    algorithm(eng, s)
    with Loop(eng, its):
        ops.QAA(algorithm, oracle) | (s, anc)
    got = Q.State([x.id for x in q], columns=[0])
    Q.Runner(h, got).run(rec.cmds)
    k = 2 * its + 1
    r = 1 / math.sqrt(2)
    e = got.entries()[0]
    w = {0: Q.cos(a * k) * r, 1: Q.sin(a * k) * r, 2: Q.cos(a * k) * -r, 3: Q.sin(a * k) * -r}
    h.zero('amplified amplitude', [e.get(b, 0) - x for b, x in w.items()])


def cases(tier):
    quick = tier == 'quick'
    for n in range(1, 5 if quick else 6):
        for nctrl in range(3):
            for where in ('plain', 'dagger', 'inverse', 'loop', 'double dagger'):
                if n + nctrl > (5 if quick else 6):
                    continue
                yield Case('fourier/%d/%d/%s' % (n, nctrl, where), qft, dict(n=n, nctrl=nctrl, where=where), weight=1 << n)
    for n in (5, 6) if quick else (5, 6, 7, 8):
        for nctrl in (0, 1):
            for where in ('plain', 'dagger', 'inverse', 'loop'):
                if n > 5 and (nctrl or where == 'loop') and quick:
                    continue
                yield Case('fourier/%d/%d/%s/far' % (n, nctrl, where), qft, dict(n=n, nctrl=nctrl, where=where, first=True), weight=1 << n)
    for kind in ('R', 'R0', 'Ph', 'Rz', 'Rx', 'Ry', 'Y', 'Rzz', 'evolution', 'function'):
        for n in range(1, 4 if quick else 5):
            for nctrl in (0, 1):
                for where in ('plain', 'dagger', 'double dagger'):
                    if n == 3 and nctrl and where != 'plain' and quick:
                        continue
                    yield Case('estimation/%s/%d/%d/%s' % (kind, n, nctrl, where), qpe, dict(kind=kind, n=n, nctrl=nctrl, where=where), weight=4 << n)
    for n in (1, 2, 3):
        for nctrl in (0, 1, 2):
            for its in (1, 2):
                for where in ('plain', 'dagger'):
                    for alg in ('product', 'entangled'):
                        if n == 1 and alg != 'product' or n == 3 and (its > 1 or nctrl > 1) and quick:
                            continue
                        yield Case('amplification/%d/%d/%d/%s/%s' % (n, nctrl, its, where, alg), qaa, dict(n=n, nctrl=nctrl, its=its, where=where, alg=alg), weight=4 << n, thin_eq=3 if n == 1 else 0)
    for its in (1, 2, 3):
        yield Case('success/%d' % its, success, dict(its=its))
