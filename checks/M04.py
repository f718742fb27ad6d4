from projectq.meta import Compute, Control, Dagger, Loop, LoopTag, Uncompute

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='loops of 0-3 repetitions around every fragment (6 leaf fragments with symbolic angles, helper qubits, negative controls) in '
                    'one further block, loops inside loops; both for back-ends that unroll and for back-ends that take loop tags; '
                    'helpers local to the body, 0-2 per body; misuse cases; 2-5 qubits', thorough='two further blocks')
OUTSIDE = 'more repetitions, deeper nesting'


def loop_out(h, kinds, support):
    """Loop(n) around a (nested) fragment"""
    frag, n = progs.nested(h, kinds)
    cnt = h.choice('n', [0, 1, 2, 3])
    progs.compare(h, [('loop', cnt, frag), ('g', ops.Rx(h.angle('after')), ('q0',))], n, 'loop', loop_support=support)


def helper(h, support, wrap, nhelp):
    """helper qubits allocated and released inside the loop body: every repetition uses a fresh or identical clean helper"""
    eng, rec = Q.engine()
    if support:
        rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    q = eng.allocate_qureg(3)
    ids = [x.id for x in q]
    rec.cmds.clear()
    cnt = h.choice('n', [0, 1, 2, 3])
    a = [h.angle('a%d' % i) for i in range(3)]

    def body():
        x = eng.allocate_qubit()
        ops.CNOT | (q[0], x)
        ops.R(a[0]) | x
        with Control(eng, x):
            ops.Ry(a[2]) | q[1]
        with Control(eng, x, ctrl_state='0'):
            ops.Rx(a[2]) | q[2]
        ops.CNOT | (q[0], x)
        x[0].__del__()

    def run():
        with Loop(eng, cnt):
            if wrap == 'inner dag':
                with Dagger(eng):
                    body()
            elif wrap == 'inner ctrl':
                with Control(eng, q[2]):
                    body2()
            elif nhelp == 2:
                body2()
            else:
                body()

    def body2():
        """two nested helpers"""
        x = eng.allocate_qubit()
        ops.CNOT | (q[0], x)
        y = eng.allocate_qubit()
        with Control(eng, x[0]):
            ops.CNOT | (q[1], y)
        ops.R(a[0]) | y
        with Control(eng, x[0]):
            ops.CNOT | (q[1], y)
        y[0].__del__()
        ops.R(a[1]) | x
        ops.CNOT | (q[0], x)
        x[0].__del__()

    if wrap == 'ctrl':
        with Control(eng, q[2]):
            with Loop(eng, cnt):
                body2()
    elif wrap == 'dag':
        with Dagger(eng):
            with Loop(eng, cnt):
                body2()
    elif wrap == 'loop':
        with Loop(eng, 2):
            run()
    else:
        run()
    # ---- reference
    s = Q.State(ids)

    def rbody2(ctr, inv):
        p0, p1 = spec(ops.R(a[0]), 1), spec(ops.R(a[1]), 1)
        if inv:
            p0, p1 = Q.dagger(p0), Q.dagger(p1)
        s.apply(p0, [ids[1]], list(ctr) + [ids[0]])
        s.apply(p1, [ids[0]], list(ctr))

    def rbody(inv):
        ph, ry, rx = spec(ops.R(a[0]), 1), Q.rot(Q.Y2, a[2]), Q.rot(Q.X2, a[2])
        st = [(ph, ids[0], [], ''), (ry, ids[1], [ids[0]], '1'), (rx, ids[2], [ids[0]], '0')]
        for m, t, c, cs in (reversed(st) if inv else st):
            s.apply(Q.dagger(m) if inv else m, [t], c, cs)
    total = cnt * (2 if wrap == 'loop' else 1)
    for _ in range(total):
        if wrap == 'ctrl' or wrap == 'inner ctrl':
            rbody2([ids[2]], False)
        elif wrap == 'dag':
            rbody2([], True)
        elif wrap == 'inner dag':
            rbody(True)
        elif nhelp == 2:
            rbody2([], False)
        else:
            rbody(False)
    cmds = progs.unroll(rec.cmds)
    live, seen = set(ids), set()
    for cmd in cmds:
        i = cmd.qubits[0][0].id
        if isinstance(cmd.gate, ops.AllocateQubitGate):
            h.true('helper allocated while free', i not in live)
            h.true('fresh helper identity in every repetition', support or i not in seen)
            live.add(i)
            seen.add(i)
        elif isinstance(cmd.gate, ops.DeallocateQubitGate):
            h.true('helper released once', i in live)
            live.discard(i)
        else:
            h.true('only live qubits', all(x.id in live for r in cmd.all_qubits for x in r))
    h.true('every helper is released', live == set(ids))
    h.true('active qubits', {x.id for x in eng.active_qubits} == set(ids), sorted(x.id for x in eng.active_qubits))
    got = Q.State(ids)
    Q.Runner(h, got).run(cmds)
    h.zero('loop with helpers', Q.residual(got, s))


def tagged(h):
    """a back-end that takes loops gets the body once, every operation tagged with the same loop and its count; different loops differ"""
    eng, rec = Q.engine()
    rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    q = eng.allocate_qureg(2)
    rec.cmds.clear()
    n, m = h.choice('n', [1, 2, 5, 1000]), h.choice('m', [1, 2, 7])
    with Loop(eng, n):
        ops.Ry(h.angle('a')) | q[0]
        with Loop(eng, m):
            ops.H | q[1]
            ops.S | q[1]
        ops.CNOT | (q[0], q[1])
    with Loop(eng, n):
        ops.H | q[0]
    lt = [[t for t in c.tags if isinstance(t, LoopTag)] for c in rec.cmds]
    single = n == 1
    names = [str(c.gate)[:2] for c in rec.cmds]
    h.true('body sent once', names == ['Ry', 'H', 'S', 'X', 'H'], names)
    nums = [[t.num for t in ts] for ts in lt]
    h.true('counts, inner loop first', nums == [[n], [m, n], [m, n], [n], [n]] or
           [[x for x in t if x != 1] for t in nums] == [[x for x in t if x != 1] for t in [[n], [m, n], [m, n], [n], [n]]], nums)
    if not single and m > 1 and all(lt):
        h.true('one outer tag', lt[0][-1] == lt[1][-1] == lt[2][-1] == lt[3][-1])
        h.true('one inner tag', lt[1][0] == lt[2][0])
        h.true('inner and outer differ', not (lt[1][0] == lt[1][1]) and lt[1][0] != lt[1][1])
        h.true('two loops differ', lt[0][-1] != lt[4][-1] and not (lt[0][-1] == lt[4][-1]))


def misuse(h):
    kind = h.choice('kind', ['float', 'string', 'negative', 'leak', 'release of outer qubit'])
    support = h.bool('support')
    eng, rec = Q.engine()
    if support:
        rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    q = eng.allocate_qureg(2)
    keep = []
    if kind == 'float':
        rejects(h, kind, 'TypeError', lambda: Loop(eng, 2.5))
    elif kind == 'string':
        rejects(h, kind, 'TypeError', lambda: Loop(eng, 'a'))
    elif kind == 'negative':
        n = h.int('neg', -5, -1)
        rejects(h, kind, 'ValueError', lambda: Loop(eng, n.__index__()))
    elif kind == 'leak':
        def f():
            with Loop(eng, 2):
                keep.append(eng.allocate_qubit())
        rejects(h, kind, 'QubitManagementError', f)
    else:
        def f():
            with Loop(eng, 2):
                q[0].__del__()
        rejects(h, kind, 'QubitManagementError', f)


def cases(tier):
    K = progs.KINDS
    combos = [[k] for k in K]
    if tier == 'thorough':
        combos += [[a, b] for a in K[1:] for b in K[1:] if not a == b == 'cmpanc' and not a == b == 'ctrl']
    for c in combos:
        for support in (False, True):
            yield Case('loop/%s/%d' % ('/'.join(c), support), loop_out, dict(kinds=c, support=support), weight=2, budget=60 if tier == 'quick' else 900)
    for support in (False, True):
        for w in ('plain', 'ctrl', 'inner ctrl', 'dag', 'inner dag', 'loop'):
            for nh in (1, 2) if w in ('plain', 'loop') else (1,):
                yield Case('helper/%s/%d/%d' % (w, nh, support), helper, dict(support=support, wrap=w, nhelp=nh))
    yield Case('tagged', tagged)
    yield Case('misuse', misuse)
