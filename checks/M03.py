from projectq.meta import Compute, ComputeTag, Control, CustomUncompute, Dagger, Uncompute, UncomputeTag

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='compute sections containing every fragment (6 leaf fragments with symbolic angles, helper qubits, negative controls) in up to one '
                    'further block; sections with 0-2 helpers kept for the action and 0-2 local helpers in every interleaving, controlled, '
                    'inverted or plain; automatic and custom uncompute; misuse cases; 2-6 qubits', thorough='two further blocks')
OUTSIDE = 'deeper nesting, more helpers'


def section(h, kinds, custom, wrap, rich=False):
    """compute(fragment) action uncompute, wrapped plain / controlled / inverted"""
    frag, n = progs.nested(h, kinds)
    act = progs.leaves(h, 'act', ['q1', 'q0']) if rich else [('g', ops.Rx(h.angle('act')), ('q0',))]
    body = [('cmp', frag, act, custom)]
    if wrap == 'ctrl':
        body, n = [('ctrl', ('q%d' % n,), '1', body)], n + 1
    elif wrap == 'dag':
        body = [('dag', body)]
    elif wrap == 'negctrl dag':
        body, n = [('ctrl', ('q%d' % n,), '0', [('dag', body)])], n + 1
    progs.compare(h, body, n, 'compute/action/uncompute')


def helpers(h, nkeep, nlocal, wrap, custom):
    """helpers allocated in the compute section: kept ones are available in the action, local ones are recreated"""
    eng, rec = Q.engine()
    q = [eng.allocate_qubit()[0] for _ in range(4)]
    ids = [x.id for x in q]
    rec.cmds.clear()
    a = [h.angle('a%d' % i) for i in range(nlocal + nkeep + 1)]
    order = h.choice('order', ['keep first', 'local first', 'nested'])

    def local(i, src, extra=None):
        l = eng.allocate_qubit()
        ops.CNOT | (src, l)
        ops.R(a[i]) | l
        if extra is not None:
            with Control(eng, l, ctrl_state='0'):
                ops.Ry(a[i]) | extra
        ops.CNOT | (src, l)
        l[0].__del__()

    def run():
        kept = []
        with Compute(eng):
            if order == 'local first':
                for i in range(nlocal):
                    local(i, q[1], q[2])
            for j in range(nkeep):
                kept.append(eng.allocate_qubit())
                ops.CNOT | (q[j], kept[-1])
                if order == 'nested':
                    for i in range(nlocal):
                        local(i, kept[-1])
                with Control(eng, kept[-1]):
                    ops.Ry(a[nlocal + j]) | q[2]
            if order == 'keep first':
                for i in range(nlocal):
                    local(i, q[1], q[2])
        with Control(eng, [k[0] for k in kept] + [q[2]]):
            ops.Rx(a[-1]) | q[3]
        if custom:
            with CustomUncompute(eng):
                if order == 'keep first':
                    with Dagger(eng):
                        for i in range(nlocal):
                            local(i, q[1], q[2])
                for j in reversed(range(nkeep)):
                    with Dagger(eng):
                        with Control(eng, kept[j]):
                            ops.Ry(a[nlocal + j]) | q[2]
                    with Dagger(eng):
                        if order == 'nested':
                            for i in range(nlocal):
                                local(i, kept[j])
                    ops.CNOT | (q[j], kept[j])
                    kept[j][0].__del__()
                if order == 'local first':
                    with Dagger(eng):
                        for i in range(nlocal):
                            local(i, q[1], q[2])
        else:
            Uncompute(eng)
        for k in kept:
            h.true('helper released by uncompute', k[0].id == -1)

    if wrap == 'ctrl':
        c = eng.allocate_qubit()[0]
        ids.append(c.id)
        rec.cmds.clear()
        with Control(eng, c):
            run()
    elif wrap == 'dag':
        with Dagger(eng):
            run()
    else:
        run()
    # reference
    s = Q.State(ids + ['k%d' % j for j in range(nkeep)], np.eye(1 << (len(ids) + nkeep), dtype=complex)[:, :1 << len(ids)])

    def rlocal(i, src, extra, inv):
        # the helper copies src: phase on src=1, rotation where src=0
        ph = spec(ops.R(a[i]), 1)
        s.apply(Q.dagger(ph) if inv else ph, [src], cw)
        if extra is not None:
            ry = Q.rot(Q.Y2, a[i])
            s.apply(Q.dagger(ry) if inv else ry, [extra], list(cw) + [src], '1' * len(cw) + '0')
    cw = ()

    def comp(inv):
        steps = []
        if order == 'local first':
            steps += [('l', i, ids[1], ids[2]) for i in range(nlocal)]
        for j in range(nkeep):
            steps.append(('cx', ids[j], 'k%d' % j))
            if order == 'nested':
                steps += [('l', i, 'k%d' % j, None) for i in range(nlocal)]
            steps.append(('ry', nlocal + j, 'k%d' % j))
        if order == 'keep first':
            steps += [('l', i, ids[1], ids[2]) for i in range(nlocal)]
        for st in (reversed(steps) if inv else steps):
            if st[0] == 'l':
                rlocal(st[1], st[2], st[3], inv)
            elif st[0] == 'cx':
                s.apply(Q.X2, [st[2]], [st[1]])
            else:
                m = Q.rot(Q.Y2, a[st[1]])
                s.apply(Q.dagger(m) if inv else m, [ids[2]], [st[2]])
    comp(False)
    rx = Q.rot(Q.X2, a[-1])
    s.apply(Q.dagger(rx) if wrap == 'dag' else rx, [ids[3]],
            ['k%d' % j for j in range(nkeep)] + [ids[2]] + (ids[4:] if wrap == 'ctrl' else []))
    comp(True)
    for j in range(nkeep):
        s.dealloc('k%d' % j)
    got = Q.State(ids)
    live, seen = set(ids), set()
    for cmd in rec.cmds:
        i = cmd.qubits[0][0].id
        if isinstance(cmd.gate, ops.AllocateQubitGate):
            h.true('helper identities are fresh', i not in live and i not in seen)
            live.add(i)
            seen.add(i)
        elif isinstance(cmd.gate, ops.DeallocateQubitGate):
            h.true('helper released once', i in live)
            live.discard(i)
    h.true('every helper is released', live == set(ids))
    h.true('active qubits', {x.id for x in eng.active_qubits} == set(ids))
    Q.Runner(h, got).run(rec.cmds)
    h.zero('helpers', Q.residual(got, s))


def tags(h):
    """every operation of the compute section carries a compute tag, of uncompute an uncompute tag, the action none"""
    eng, rec = Q.engine()
    q = eng.allocate_qureg(2)
    rec.cmds.clear()
    custom = h.bool('custom')
    with Compute(eng):
        ops.Ry(h.angle('a')) | q[0]
        x = eng.allocate_qubit()
        ops.CNOT | (q[0], x)
    ops.Rz(h.angle('b')) | x
    if custom:
        with CustomUncompute(eng):
            ops.CNOT | (q[0], x)
            x[0].__del__()
            ops.Ry(0.1) | q[0]
    else:
        Uncompute(eng)
    kinds = [[type(t).__name__ for t in c.tags] for c in rec.cmds]
    h.true('tags', kinds == [['ComputeTag']] * 3 + [[]] + [['UncomputeTag']] * 3, kinds)
    ops.X | q[1]
    h.true('no tag after the section', rec.cmds[-1].tags == [])
    h.true('tags compare by kind', ComputeTag() == ComputeTag() and not (ComputeTag() == UncomputeTag()))


def misuse(h):
    kind = h.choice('kind', ['uncompute without compute', 'custom without compute', 'uncompute twice', 'release of outer qubit', 'leak in custom'])
    eng, rec = Q.engine()
    q = eng.allocate_qureg(2)
    keep = []
    if kind == 'uncompute without compute':
        rejects(h, kind, 'NoComputeSectionError', lambda: Uncompute(eng))
    elif kind == 'custom without compute':
        def f():
            with CustomUncompute(eng):
                pass
        rejects(h, kind, 'NoComputeSectionError', f)
    elif kind == 'uncompute twice':
        with Compute(eng):
            ops.H | q[0]
        Uncompute(eng)
        rejects(h, kind, 'NoComputeSectionError', lambda: Uncompute(eng))
    elif kind == 'release of outer qubit':
        def f():
            with Compute(eng):
                q[0].__del__()
        rejects(h, kind, 'QubitManagementError', f)
    else:
        def f():
            with Compute(eng):
                keep.append(eng.allocate_qubit())
            with CustomUncompute(eng):
                pass
        rejects(h, kind, 'QubitManagementError', f)


def cases(tier):
    K = progs.KINDS
    combos = [[k] for k in K]
    if tier == 'thorough':
        combos += [[a, b] for a in K[1:] for b in K[1:] if not a == b == 'cmpanc' and not a == b == 'ctrl']
    for c in combos:
        for custom in (False, True):
            for w in ('plain', 'ctrl', 'dag', 'negctrl dag') if tier == 'thorough' or len(c) == 0 else ('plain', 'negctrl dag') if custom else ('ctrl', 'dag'):
                yield Case('section/%s/%d/%s' % ('/'.join(c), custom, w), section, dict(kinds=c, custom=custom, wrap=w, rich=tier == 'thorough'),
                           weight=2, budget=60 if tier == 'quick' else 900)
    yield Case('section/rich', section, dict(kinds=[progs.KINDS[0]], custom=False, wrap='plain', rich=True), weight=2)
    for nk in range(3):
        for nl in range(3 if nk < 2 or tier == 'thorough' else 2):
            for w in ('plain', 'ctrl', 'dag'):
                for custom in (False, True):
                    yield Case('helpers/%d+%d/%s/%d' % (nk, nl, w, custom), helpers, dict(nkeep=nk, nlocal=nl, wrap=w, custom=custom), weight=nk + nl)
    yield Case('tags', tags)
    yield Case('misuse', misuse)
