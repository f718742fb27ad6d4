"""State preparation and uniformly controlled rotations."""
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.meta import Control, Dagger
from projectq.setups.decompositions import controlstate, stateprep2cnot, uniformlycontrolledr2cnot

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='state preparation on 1 and 2 qubits with symbolic phases of every amplitude and symbolic magnitudes (every pattern of vanishing '
                    'branches), 3 qubits with symbolic phases and fixed magnitudes; uniformly controlled Ry/Rz with 0-3 select qubits and symbolic '
                    'angles; 0-1 further controls of either sign, plain or inside an inversion block, any order of the qubits', thorough='3 select qubits with 2 controls, longer budgets')
OUTSIDE = 'more than 3 qubits; amplitudes outside the documented normalisation'


def leaves(h, n, pat, phases):
    """amplitudes r_i e^{i p_i} with r given by a binary tree of angles"""
    r = [1.0]
    k = 0
    for level in range(n):
        nr = []
        for x in r:
            kind = pat[k] if k < len(pat) else 'e'
            if kind == 't':
                t = h.angle('t%d' % k, 0.001, 1.57)
                c, s = Q.cos(t), Q.sin(t)
            elif kind == '0':
                c, s = 1.0, 0.0
            elif kind == '1':
                c, s = 0.0, 1.0
            else:
                c, s = (0.6, 0.8) if k % 2 else (0.8, 0.6)
            nr += [x * c, x * s]
            k += 1
        r = nr
    # r[i] is indexed with the top qubit as first branching -> plain binary order
    out = []
    for i, x in enumerate(r):
        if phases[i % len(phases)] == 'p':
            out.append(Q.cexp(h.angle('p%d' % i, -3.14159265, 3.14159265)) * x)
        elif phases[i % len(phases)] == '-':
            out.append(x * -1.0)
        elif phases[i % len(phases)] == 'i':
            out.append(x * 1j)
        else:
            out.append(x)
    return out


def setup(h, n, nctrl, orders, extra):
    rs = DecompositionRuleSet(modules=[controlstate, stateprep2cnot, uniformlycontrolledr2cnot])
    basic = InstructionFilter(lambda e, c: not type(c.gate).__name__ in ('StatePreparation',) + extra
                              and not isinstance(c.gate, ops.DaggeredGate))
    eng, rec = Q.engine([AutoReplacer(rs), basic])
    q = [eng.allocate_qubit()[0] for _ in range(n + nctrl)]
    rec.cmds.clear()
    order = h.choice('order', orders)
    if order == 'rev':
        q = q[::-1]
    elif order == 'mix':
        q = q[1:] + q[:1]
    return eng, rec, q


def run(h, eng, ctr, cs, where, fn):
    with Control(eng, ctr, **(dict(ctrl_state=cs) if ctr else {})):
        if where == 'plain':
            fn()
        else:
            with Dagger(eng):
                fn()


def stateprep(h, n, pat, phases, nctrl, where='plain', orders=('asc', 'rev', 'mix'), ucr=True):
    amps = leaves(h, n, pat, phases)
    eng, rec, q = setup(h, n, nctrl, list(orders), ('UniformlyControlledRy', 'UniformlyControlledRz') if ucr else ())
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(nctrl))
    ctr, tgt = q[:nctrl], q[nctrl:]
    if where == 'direct inverse':
        with Control(eng, ctr, **(dict(ctrl_state=cs) if ctr else {})):
            ops.get_inverse(ops.StatePreparation(amps)) | tgt
    else:
        run(h, eng, ctr, cs, where, lambda: ops.StatePreparation(amps) | tgt)
    for c in rec.cmds:
        h.true('only CNOTs, rotations and phases', type(c.gate).__name__ in ('XGate', 'Ry', 'Rz', 'Ph', 'UniformlyControlledRy', 'UniformlyControlledRz'))
    ids = [x.id for x in tgt] + [x.id for x in ctr]
    on = sum((1 << (n + i)) for i in range(nctrl) if cs[i] == '1')
    N = 1 << (n + nctrl)
    if where == 'plain':
        st = Q.State(ids, np.zeros((N, 1 << nctrl), complex))
        want = Q.State(ids, np.zeros((N, 1 << nctrl), complex))
        want.to_sparse()
        for k in range(1 << nctrl):
            st.num[k << n, k] = 1
            want.sp[k] = {on | i: a for i, a in enumerate(amps)} if k << n == on else {k << n: 1.0}
    else:
        # the inverse takes the prepared state back to |0...0>
        st = Q.State(ids, np.zeros((N, 1), complex))
        st.to_sparse()
        st.sp[0] = {on | i: a for i, a in enumerate(amps)}
        want = Q.State(ids, np.zeros((N, 1), complex))
        want.num[on, 0] = 1
    Q.Runner(h, st).run(rec.cmds)
    h.zero('prepared state', Q.residual(st, want, phase=False))


def ucr(h, kind, k, nctrl, where):
    """exactly the rotation listed for the value of the select register"""
    eng, rec, q = setup(h, k + 1, nctrl, ['asc', 'rev', 'mix'], (kind,))
    cs = ''.join(h.choice('c%d' % i, '10') for i in range(nctrl))
    ctr, rest = q[:nctrl], q[nctrl:]
    sel, t = rest[:-1], rest[-1]
    angles = [h.angle('a%d' % i, -13, 13) for i in range(1 << k)]
    g = getattr(ops, kind)(angles)
    if where == 'inverse':
        with Control(eng, ctr, **(dict(ctrl_state=cs) if ctr else {})):
            ops.get_inverse(g) | (sel, t)
    else:
        run(h, eng, ctr, cs, where, lambda: g | (sel, t))
    for c in rec.cmds:
        h.true('only CNOTs and rotations', type(c.gate).__name__ in ('XGate', kind[-2:]))
    ids = [x.id for x in q]
    st, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, st).run(rec.cmds)
    P = Q.PAULI[kind[-1].upper()]
    sign = 1.0 if where == 'plain' else -1.0
    for v in range(1 << k):
        pat = ''.join(str(v >> i & 1) for i in range(k))
        want.apply(Q.rot(P, angles[v] * sign), [t.id], [x.id for x in sel] + [x.id for x in ctr], pat + cs)
    h.zero('rotation per value', Q.residual(st, want))


def degenerate(h, kind, k):
    """angles that coincide, vanish or are multiples of 2 pi"""
    eng, rec, q = setup(h, k + 1, 1, ['asc'], (kind,))
    pool = [0.0, math.pi, 2 * math.pi, h.angle('a', -13, 13)]
    sel = [h.choice('v%d' % i, range(4)) for i in range(1 << k)]
    angles = [pool[i] for i in sel]
    with Control(eng, q[:1]):
        getattr(ops, kind)(angles) | (q[1:-1], q[-1])
    ids = [x.id for x in q]
    st, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, st).run(rec.cmds)
    for v in range(1 << k):
        want.apply(Q.rot(Q.PAULI[kind[-1].upper()], angles[v]), [q[-1].id], ids[1:-1] + ids[:1], ''.join(str(v >> i & 1) for i in range(k)) + '1')
    h.zero('rotation per value', Q.residual(st, want))


def misuse(h):
    kind = h.choice('kind', ['not normalised', 'length', 'two registers', 'angles', 'targets'])
    eng, rec, q = setup(h, 3, 0, ['asc'], ('UniformlyControlledRy', 'UniformlyControlledRz'))
    f = h.real('f', 0.0, 2.0)
    if kind == 'not normalised':
        h.assume(f * f - 1 > 1e-6)
        h.raises('state not normalised', ValueError, lambda: ops.StatePreparation([f, 0.0]) | q[0])
    elif kind == 'length':
        h.raises('wrong length', ValueError, lambda: ops.StatePreparation([1.0, 0.0]) | q[:2])
    elif kind == 'two registers':
        h.raises('two registers', ValueError, lambda: ops.StatePreparation([1.0, 0.0]) | (q[0], q[1]))
    elif kind == 'angles':
        h.raises('wrong number of angles', ValueError, lambda: ops.UniformlyControlledRy([f, f]) | (q[:2], q[2]))
    else:
        h.raises('two targets', TypeError, lambda: ops.UniformlyControlledRz([f, f]) | (q[:1], q[1:]))


def cases(tier):
    quick = tier == 'quick'
    for kind in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        for k in range(4):
            for nctrl in (0, 1, 2):
                for where in ('plain', 'dagger', 'inverse'):
                    if k == 3 and (nctrl > 1 or where != 'plain') and quick or k + nctrl > 4:
                        continue
                    yield Case('ucr/%s/%d/%d/%s' % (kind[-2:], k, nctrl, where), ucr, dict(kind=kind, k=k, nctrl=nctrl, where=where), weight=1 << k, budget=25 if quick else 600)
        for k in (1, 2):
            yield Case('ucr degenerate/%s/%d' % (kind[-2:], k), degenerate, dict(kind=kind, k=k), weight=3, budget=50, thin_eq=2)
    B = 25 if quick else 600
    for where in ('plain', 'dagger', 'direct inverse'):
        for nctrl in (0, 1):
            for pat in ('t', '0', '1'):
                for ph in ('pp', 'p1', '-i'):
                    yield Case('prep/1/%s/%s/%d/%s' % (pat, ph, nctrl, where), stateprep, dict(n=1, pat=pat, phases=ph, nctrl=nctrl, where=where), budget=B)
    for nctrl in (0, 1):
        for pat in ('eee', 'tee', 'ete', 'eet', '0te', '1et', 'e01', 'e10', '0ee', '1ee', 't0e', 'ett', 'tte', 'ttt'):
            for ph in ('p', '1'):
                for where in ('plain', 'dagger'):
                    if where == 'dagger' and ('t' in pat and ph == 'p' or nctrl) and quick:
                        continue
                    yield Case('prep/2/%s/%s/%d/%s' % (pat, ph, nctrl, where), stateprep, dict(n=2, pat=pat, phases=ph, nctrl=nctrl, where=where, orders=('mix',)), weight=2, budget=B)
    for pat in ('eeeeeee', '0e1t01e', 'eteeeee'):
        for ph in ('p', '1', '1p'):
            yield Case('prep/3/%s/%s' % (pat, ph), stateprep, dict(n=3, pat=pat, phases=ph, nctrl=0, orders=('asc',)), weight=4, budget=B)
    yield Case('misuse', misuse)
