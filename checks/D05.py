"""Time evolution under commuting Pauli terms and Pauli operators as gates, from the user's | down to elementary gates."""
import math
from contextlib import ExitStack

from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop
from projectq.cengines._replacer import NoGateDecompositionError
import projectq.setups.decompositions as dec

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='every Hamiltonian of 1 Pauli string on 3 qubits, 2 strings on 2 qubits, and listed sets of 3-4 strings, as applied to registers of 1-4 '
                    'qubits; all real times and coefficients in [-4, 4]; 0-2 controls of either sign; plain, inverted, looped, inside compute/uncompute; '
                    'fully decomposed and undecomposed; Pauli operators: every string on up to 3 qubits with every phase, and with the coefficients 1, -1, i, -i written as numbers of any type',
              thorough='2 strings on 3 qubits, 3 strings on 2 qubits')
OUTSIDE = 'longer strings; coefficients whose products are below the commutation tolerance 1e-9'
L = 'IXYZ'


def pipeline(mode, n):
    if mode == 'raw':
        eng, rec = Q.engine([])
    else:
        def avail(e, cmd):
            g = cmd.gate
            if isinstance(g, ops.ClassicalInstructionGate):
                return True
            return not isinstance(g, (ops.TimeEvolution, ops.QubitOperator))
        eng, rec = Q.engine([AutoReplacer(DecompositionRuleSet(modules=[dec])), InstructionFilter(avail)])
    return eng, rec, [eng.allocate_qubit()[0] for _ in range(n)]


def string(h, nm, n, letters=L):
    """a Pauli string chosen letter by letter"""
    return tuple((i, a) for i in range(n) for a in [h.choice('%s%d' % (nm, i), letters)] if a != 'I')


def anticommute(a, b):
    d = dict(b)
    return sum(1 for i, x in a if i in d and d[i] != x) % 2 == 1


def qop(terms, coefs):
    o = ops.QubitOperator()
    for t, c in zip(terms, coefs):
        o.terms[t] = c
    return o


def contexts(h, eng, ctr, where):
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(len(ctr)))
    st = ExitStack()
    if ctr:
        st.enter_context(Control(eng, ctr, ctrl_state=cs))
    if where == 'dagger':
        st.enter_context(Dagger(eng))
    if where == 'loop':
        st.enter_context(Loop(eng, 2))
    return st, cs


def evolve(s, t, terms, coefs, ids, cid, cs):
    for term, c in zip(terms, coefs):
        a = 2 * t * c
        if not term:
            ph = Q.cexp(a * -0.5)
            s.apply(Q.mat([[ph, 0], [0, ph]]), [ids[0]], cid, cs)
        else:
            s.apply(Q.rot(Q.kron(*[Q.PAULI[p] for _, p in term]), a), [ids[i] for i, _ in term], cid, cs)


def evolution(h, mode, n, terms, nctrl, where):
    """terms: list of strings, or numbers k = freely chosen string on the first k qubits"""
    ts = [string(h, 'p%d' % j, t) if isinstance(t, int) else ops.QubitOperator(t).terms and list(ops.QubitOperator(t).terms)[0] for j, t in enumerate(terms)]
    if len(set(ts)) < len(ts):
        return
    t = h.real('t', -4, 4)
    cs_ = [h.real('c%d' % j, -4, 4) for j in range(len(ts))]
    eng, rec, q = pipeline(mode, n + nctrl)
    ids = [x.id for x in q]
    if h.choice('order', ['asc', 'rev']) == 'rev':
        q = q[::-1]
    ctr, reg = q[:nctrl], q[nctrl:]
    if where == 'inverse':
        g = ops.get_inverse(ops.TimeEvolution(t, qop(ts, cs_)))
    else:
        g = ops.TimeEvolution(t, qop(ts, cs_))
    commuting = not any(anticommute(a, b) for a in ts for b in ts)
    rec.cmds.clear()
    if not commuting:
        for c in cs_:
            h.assume(abs(c) > 0.01)
        if mode == 'raw':
            return

        def go():
            g | reg
        h.raises('terms that do not commute are refused', NoGateDecompositionError, go)
        return
    st, cs = contexts(h, eng, ctr, where)
    with st:
        g | (reg if n > 1 else reg[0])
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    sign = -1 if where in ('dagger', 'inverse') else 1
    rid, cid = [x.id for x in reg], [x.id for x in ctr]
    for _ in range(2 if where == 'loop' else 1):
        evolve(want, t * sign, ts, cs_, rid, cid, cs)
    h.zero('exp(-iHt)', Q.residual(got, want))
    h.true('helpers released', set(got.wires) == set(ids))


def pauli(h, mode, n, k, nctrl, where):
    term = string(h, 'p', k)
    lit = h.choice('coefficient', [None, 1, -1, 1.0, -1.0, 1j, -1j]) if k == 1 or nctrl + k == 2 else None
    phi = h.angle('phi') if lit is None else {1: 0.0, -1: math.pi, 1j: math.pi / 2, -1j: -math.pi / 2}[lit]
    eng, rec, q = pipeline(mode, n + nctrl)
    ids = [x.id for x in q]
    if h.choice('order', ['asc', 'rev']) == 'rev':
        q = q[::-1]
    ctr, reg = q[:nctrl], q[nctrl:]
    g = ops.QubitOperator()
    g.terms[term] = Q.cexp(phi) if lit is None else lit
    if where == 'inverse':
        g = g.get_inverse()
    rec.cmds.clear()
    st, cs = contexts(h, eng, ctr, where)
    with st:
        g | (reg if n > 1 else reg[0])
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    rid, cid = [x.id for x in reg], [x.id for x in ctr]
    sign = -1 if where in ('dagger', 'inverse') else 1
    for _ in range(2 if where == 'loop' else 1):
        ph = Q.cexp(phi * sign)
        want.apply(Q.mat([[ph, 0], [0, ph]]), [rid[0]], cid, cs)
        for i, p in term:
            want.apply(Q.PAULI[p], [rid[i]], cid, cs)
    h.zero('operator', Q.residual(got, want))


def misuse(h):
    eng, rec, q = pipeline('raw', 2)
    r = h.real('r', 0, 3)
    h.assume(abs(r - 1) > 1e-6)
    bad = ops.QubitOperator('X0 Z1')
    bad.terms[((0, 'X'), (1, 'Z'))] = Q.cexp(h.angle('phi')) * r
    h.raises('coefficient not of unit length', TypeError, lambda: bad | q)
    h.raises('inverse of a non-unitary operator', Exception, lambda: bad.get_inverse())
    h.raises('several terms', TypeError, lambda: (ops.QubitOperator('X0') + ops.QubitOperator('X1')) | q)
    h.raises('register too small', ValueError, lambda: ops.QubitOperator('X2') | q)
    h.raises('register too small', ValueError, lambda: ops.QubitOperator('X0 X2') | q)
    h.raises('register too small', ValueError, lambda: ops.TimeEvolution(h.real('t', -1, 1), ops.QubitOperator('X0 X2')) | q)
    h.raises('two registers', TypeError, lambda: ops.QubitOperator('X0 X1') | ([q[0]], [q[1]]))
    h.raises('two registers', TypeError, lambda: ops.TimeEvolution(1.0, ops.QubitOperator('X0 X1')) | ([q[0]], [q[1]]))
    im = h.real('im', -2, 2)
    h.assume(abs(im) > 1e-6)
    op = ops.QubitOperator()
    op.terms[((0, 'X'),)] = h.real('z', -2, 2) + im * 1j
    h.raises('not hermitian', Exception, lambda: ops.TimeEvolution(1.0, op))
    h.true('nothing was sent', all(isinstance(c.gate, ops.AllocateQubitGate) for c in rec.cmds))


def independent(h, kind):
    """later changes of the operator the user passed in do not change the gate"""
    t, c = h.real('t', -4, 4), h.real('c', -4, 4)
    o = ops.QubitOperator()
    o.terms[((0, 'X'), (1, 'Y'))] = c
    g = ops.TimeEvolution(t, o)
    if kind == 'scaled':
        o *= 2.0
    elif kind == 'added':
        o += ops.QubitOperator('Z0')
    else:
        i = g.get_inverse()
        i.hamiltonian *= 3.0
    eng, rec, q = pipeline('raw', 2)
    ids = [x.id for x in q]
    rec.cmds.clear()
    g | q
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    evolve(want, t, [((0, 'X'), (1, 'Y'))], [c], ids, [], '')
    h.zero('exp(-iHt)', Q.residual(got, want))


SETS = [['X0 X1', 'Y0 Y1', 'Z0 Z1'], ['X0 X1', 'Z0 Z1', ''], ['Z0', 'Z1 Z2', 'Z0 Z2', ''], ['X3', 'X1 X3', ''], ['X0 Z2', 'Y0 Y2', 'Z0 X2'], ['Y2 X0 Z3'], ['Z1', ''],
        ['X0 Y1 Z2', 'Y0 X1 Z2', 'Z0 Z1'], ['', 'X1'],
        ['Z0', 'Z1', 'Z2', 'X0'], ['X0', 'Z1', 'Y2', '', 'Z0 Z2'], ['Z0 Z1', 'X0 X1', 'X2', 'Y0 Y1', 'Z2']]


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=1, thin_wrap=0, budget=60 if quick else 600, max_paths=20000)
    for mode in ('raw', 'full'):
        for where in ('plain', 'dagger', 'inverse', 'loop'):
            for nctrl in (0, 1, 2):
                opts = dict(mode=mode, nctrl=nctrl, where=where)
                nm = '%s/%s/%d' % (mode, where, nctrl)
                for n in (1, 2, 3):
                    if n == 3 and nctrl == 2 and quick:
                        continue
                    yield Case('one/%s/%d' % (nm, n), evolution, dict(n=n, terms=[n], **opts), weight=n, **K)
                if (nctrl < 2 and where in ('plain', 'dagger') or not quick) and (mode == 'full' or not nctrl):
                    yield Case('two/%s' % nm, evolution, dict(n=2, terms=[2, 2], **opts), weight=5, **K)
                if not quick and nctrl < 2:
                    yield Case('two on three/%s' % nm, evolution, dict(n=3, terms=[3, 3], **opts), weight=9, **K)
                    yield Case('three/%s' % nm, evolution, dict(n=2, terms=[2, 2, 2], **opts), weight=9, **K)
                for s in SETS:
                    if nctrl < 2 or not quick:
                        n = 4 if any('3' in x for x in s) else 3
                        yield Case('set/%s/%s' % (nm, '+'.join(s)), evolution, dict(n=n, terms=s, **opts), weight=2, **K)
                for k in (1, 2, 3):
                    if k + nctrl > 4 and quick:
                        continue
                    if mode == 'full' or nctrl < 2:
                        yield Case('pauli/%s/%d' % (nm, k), pauli, dict(n=k + (where == 'plain'), k=k, **opts), weight=k, **K)
    yield Case('misuse', misuse, **K)
    for k in ('scaled', 'added', 'inverse'):
        yield Case('independent/' + k, independent, dict(kind=k))
