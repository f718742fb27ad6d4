"""Harness for the engines that look at a program without changing it: resource counter, tag remover, modifiers, comparison and dummy engines."""
from projectq import ops
from projectq.cengines import BasicEngine
from projectq.ops import Command
from projectq.types import WeakQubitRef

from .engine import PathAbort


class Mark:
    def __init__(self, n=0):
        self.n = n

    def __eq__(self, o):
        return type(self) is type(o) and self.n == o.n


class Mark2(Mark):
    pass


class Other(Mark):
    def __init__(self, n=0):
        self.n = n


class Keep(BasicEngine):
    """last engine keeping what it gets"""
    is_last_engine = True

    def __init__(self):
        super().__init__()
        self.lists = []

    def is_available(self, cmd):
        return True

    def receive(self, cl):
        self.lists.append(list(cl))

    @property
    def cmds(self):
        return [c for cl in self.lists for c in cl]


def constant_hashes(h):
    """symbolic angles: every two gates of one kind may be equal, so they must share a hash bucket (replays use the real hash)"""
    if h.symbolic:
        import projectq.ops._basics as b
        for k in (b.BasicRotationGate, b.BasicPhaseGate):
            k.__hash__ = lambda g: hash(type(g).__name__)


def command(eng, gate, targets, controls=(), tags=(), state=None):
    ref = lambda i: WeakQubitRef(engine=eng, idx=i)
    kw = dict(control_state=state) if state is not None else {}
    c = Command(eng, gate, tuple([ref(i) for i in reg] for reg in targets), controls=[ref(i) for i in controls], tags=list(tags), **kw)
    return c


class Program:
    """freely chosen commands on ids 0..n-1, allocation and release included"""

    def __init__(self, h, n, start, alphabet, tag=''):
        self.h, self.n, self.alphabet, self.tag = h, n, alphabet, tag
        self.live = set(start)
        self.count = 0

    def pick(self, name, options):
        options = sorted(options)
        if not options:
            raise PathAbort
        return options[0] if len(options) == 1 else self.h.choice('%s%s%d' % (self.tag, name, self.count), options)

    def next(self, eng):
        h = self.h
        self.count += 1
        op = self.pick('op', self.alphabet)
        live = self.live
        if op == 'alloc':
            i = self.pick('q', set(range(self.n)) - live)
            live.add(i)
            return command(eng, ops.Allocate, ([i],))
        if op == 'free':
            i = self.pick('q', live)
            live.discard(i)
            return command(eng, ops.Deallocate, ([i],))
        if op == 'flush':
            return command(eng, ops.FlushGate(), ([99],))
        i = self.pick('q', live)
        if op == 'x':
            return command(eng, ops.X, ([i],))
        if op == 'h':
            return command(eng, ops.H, ([i],))
        if op == 'rx':
            return command(eng, ops.Rx(h.angle('%sang%d' % (self.tag, self.count))), ([i],))
        if op == 'measure':
            return command(eng, ops.Measure, ([i],))
        if op == 'time':
            return command(eng, ops.TimeEvolution(h.real('%st%d' % (self.tag, self.count), -2, 2), ops.QubitOperator('X0')), ([i],))
        j = self.pick('r', live - {i})
        if op == 'cx':
            return command(eng, ops.X, ([i],), [j])
        if op == 'cx0':
            return command(eng, ops.X, ([i],), [j], state='0')
        if op == 'cr':
            return command(eng, ops.Rx(h.angle('%sang%d' % (self.tag, self.count))), ([i],), [j])
        if op == 'swap':
            return command(eng, ops.Swap, ([i], [j]))
        rest = sorted(live - {i, j})
        if not rest:
            raise PathAbort
        if op == 'ccx':
            return command(eng, ops.X, ([i],), [j, rest[0]])
        if op == 'cswap':
            return command(eng, ops.Swap, ([i], [j]), [rest[0]])
        if op == 'barrier':
            return command(eng, ops.Barrier, ([i, j, rest[0]],))
        raise AssertionError(op)


def qubits(c):
    return [q.id for r in c.qubits for q in r] + [q.id for q in c.control_qubits]


def same_gate(a, b):
    """(spec) same kind of gate with the same parameters, as a condition"""
    if type(a) is not type(b):
        return False
    if hasattr(a, 'angle'):
        return a.angle == b.angle
    if isinstance(a, ops.TimeEvolution):
        return a is b
    return True


def outcomes(eng, n, length):
    from projectq.cengines._main import NotYetMeasuredError
    out = {}
    for i in list(range(n)) + list(range(50, 50 + length)):
        try:
            out[i] = int(eng.get_measurement_result(WeakQubitRef(eng, i)))
        except NotYetMeasuredError:
            pass
    return out


def counter(h, n, start, alphabet, length, last=True, batch=False, summary=False):
    from projectq import MainEngine
    from projectq.backends import ResourceCounter
    from projectq.meta import LogicalQubitIDTag
    constant_hashes(h)
    rc = ResourceCounter()
    keep = Keep()
    eng = MainEngine(rc, []) if last else MainEngine(keep, [rc])
    prog = Program(h, n, start, alphabet)
    cmds = [command(eng, ops.Allocate, ([i],)) for i in start]
    names = {}
    for k in range(length):
        c = prog.next(eng)
        if isinstance(c.gate, ops.MeasureGate) and h.choice('tagged%d' % k, [0, 1]):
            c.tags = [Mark(), LogicalQubitIDTag(50 + k)]
        cmds.append(c)
    copies = [(c.gate, [q.id for q in c.control_qubits], [[q.id for q in r] for r in c.qubits], list(c.tags)) for c in cmds]
    if batch:
        rc.receive(list(cmds))
    else:
        for c in cmds:
            rc.receive([c])
    # the true numbers
    depth, best, live, width = {}, 0, 0, 0
    counted = []
    results = {}
    for (g, ct, tg, tags), c in zip(copies, cmds):
        if isinstance(g, ops.FlushGate):
            continue
        ids = [i for r in tg for i in r] + ct
        counted.append((g, len(ct)))
        if g == ops.Allocate:
            depth[ids[0]] = 0
            live += 1
            width = max(width, live)
        elif g == ops.Deallocate:
            live -= 1
        else:
            d = 1 + max(depth[i] for i in ids)
            for i in ids:
                depth[i] = d
            best = max(best, d)
            if isinstance(g, ops.MeasureGate):
                who = [t.logical_qubit_id for t in tags if isinstance(t, LogicalQubitIDTag)]
                results[who[0] if who else ids[0]] = True
    h.true('width', rc.max_width == width, '%s %s' % (rc.max_width, width))
    h.true('depth', rc.depth_of_dag == best, '%s %s' % (rc.depth_of_dag, best))
    h.true('total number of operations', sum(rc.gate_counts.values()) == len(counted) == sum(rc.gate_class_counts.values()))
    for g, k in counted:
        want = sum(1 for g2, k2 in counted if k2 == k and bool(same_gate(g, g2)))
        h.true('count of a gate', rc.gate_counts.get((g, k)) == want, '%s/%d' % (type(g).__name__, k))
        want = sum(1 for g2, k2 in counted if k2 == k and type(g2) is type(g))
        h.true('count of a class', rc.gate_class_counts.get((type(g), k)) == want, '%s/%d' % (type(g).__name__, k))
    if not last:
        out = keep.cmds
        h.true('passes everything on', len(out) == len(cmds) and all(a is b for a, b in zip(out, cmds)))
        h.true('no outcome is made up', not outcomes(eng, n, length))
        for c, (g, ct, tg, tags) in zip(cmds, copies):
            h.true('unchanged', c.gate is g and [q.id for q in c.control_qubits] == ct and [[q.id for q in r] for r in c.qubits] == tg and list(c.tags) == tags)
    else:
        h.true('outcomes under the identity of the program', outcomes(eng, n, length) == {k: 0 for k in results})
    if summary:
        text = str(rc).split('\n')
        lines = [l.strip() for l in text if ' : ' in l]
        if counted:
            want = []
            for (cls, k), c in rc.gate_class_counts.items():
                want.append('C' * k + cls.__name__ + ' : %d' % c)
            for (g, k), c in rc.gate_counts.items():
                want.append('C' * k + str(g) + ' : %d' % c)
            want.append('Max. width (number of qubits) : %d.' % width)
            h.true('summary', sorted(lines) == sorted(want), '%s' % lines)
        else:
            h.true('summary', lines == [])


def tags_of(h, name, n, kinds):
    """an ordered list of up to n tags"""
    out = []
    for k in range(n):
        c = h.choice('%s%d' % (name, k), ['-'] + sorted(kinds))
        if c != '-':
            out.append(kinds[c](k) if kinds[c].__init__ is not object.__init__ else kinds[c]())
    return out


def snapshot(c):
    return dict(gate=c.gate, controls=[q.id for q in c.control_qubits], qubits=[[q.id for q in r] for r in c.qubits], state=c.control_state, engine=c.engine)


def tag_remover(h, listed, n, ncmds):
    from projectq import MainEngine
    from projectq.cengines import TagRemover
    from projectq.meta import ComputeTag, DirtyQubitTag, UncomputeTag
    kinds = dict(c=ComputeTag, u=UncomputeTag, m=Mark, s=Mark2, o=Other, d=DirtyQubitTag)
    removed = [kinds[k] for k in listed] if listed else [ComputeTag, UncomputeTag]
    given = None if listed is None else [kinds[k] for k in listed]
    tr, keep = TagRemover(given), Keep()
    eng = MainEngine(keep, [tr])
    cmds, want = [], []
    for k in range(ncmds):
        tags = tags_of(h, 't%d_' % k, n, {x: kinds[x] for x in ('cumsod' if ncmds == 1 else 'cso')})
        a = h.angle('a%d' % k)
        c = command(eng, ops.Rx(a), ([k],), [k + 1], tags, state=h.choice('state%d' % k, '01'))
        cmds.append(c)
        want.append((snapshot(c), [t for t in tags if not any(issubclass(type(t), r) for r in removed)]))
    if h.choice('list', [0, 1]):
        tr.receive(list(cmds))
    else:
        for c in cmds:
            tr.receive([c])
    out = keep.cmds
    h.true('every command is sent on', len(out) == len(cmds))
    for c, (snap, tags) in zip(out, want):
        h.true('tags', len(c.tags) == len(tags) and all(a is b for a, b in zip(c.tags, tags)), '%s %s' % (c.tags, tags))
        same_snapshot(h, c, snap)
    h.true('list of tags is unchanged', given is None or given == [kinds[k] for k in listed])
    for bad in (ComputeTag, (ComputeTag,), 'x', 3, {ComputeTag: 1}):
        h.raises('not a list', TypeError, lambda: TagRemover(bad))


def same_snapshot(h, c, snap):
    now = snapshot(c)
    h.true('same gate', type(now['gate']) is type(snap['gate']))
    if hasattr(snap['gate'], 'angle'):
        h.same('same angle', now['gate'].angle, snap['gate'].angle)
    for k in ('controls', 'qubits', 'state'):
        h.true('same ' + k, now[k] == snap[k], '%s %s' % (now[k], snap[k]))


def modifier(h, which, length):
    """CommandModifier / ForwarderEngine: the output of the function is sent, in order, once per command"""
    from projectq import MainEngine
    from projectq.cengines import CommandModifier, ForwarderEngine
    keep = Keep()
    eng = MainEngine(keep, [])
    calls = []

    def fun(c):
        k = len(calls)
        calls.append(c)
        how = h.choice('how%d' % k, ['same', 'tag', 'new'])
        if how == 'tag':
            c.tags = c.tags + [Mark(k)]
            return c
        if how == 'new':
            n = command(eng, ops.Rz(h.angle('new%d' % k)), ([k],))
            news[k] = n
            return n
        return c
    news = {}
    if which == 'modifier':
        m = CommandModifier(fun)
    else:
        m = ForwarderEngine(keep, fun)
    m.next_engine = keep
    m.main_engine = eng
    cmds = [command(eng, ops.Rx(h.angle('a%d' % k)), ([k % 2],), tags=[Other(k)]) for k in range(length)]
    snaps = [snapshot(c) for c in cmds]
    k = 0
    while k < length:
        n = h.choice('part%d' % k, range(0 if k == 0 else 1, length - k + 1))
        m.receive(cmds[k:k + n])
        k += n
        if n == 0:
            m.receive(cmds[k:k + 1])
            k += 1
    h.true('once per command', len(calls) == length and all(a is b for a, b in zip(calls, cmds)))
    out = keep.cmds
    h.true('nothing lost', len(out) == length)
    for k, c in enumerate(out):
        if k in news:
            h.true('the new command is sent', c is news[k])
        else:
            h.true('the command is sent', c is cmds[k])
            same_snapshot(h, c, snaps[k])


def dummy(h, save, last, length, compare=False):
    from projectq import MainEngine
    from projectq.cengines import CompareEngine, DummyEngine
    keep = Keep()
    d = CompareEngine() if compare else DummyEngine(save_commands=save)
    eng = MainEngine(d, []) if last else MainEngine(keep, [d])
    cmds = [command(eng, [ops.X, ops.FlushGate(), ops.Measure, ops.Allocate][h.choice('g%d' % k, range(4))], ([k % 2],)) for k in range(length)]
    k = 0
    while k < length:
        n = h.choice('part%d' % k, range(1, length - k + 1))
        d.receive(cmds[k:k + n])
        k += n
    if save:
        h.true('saved in order', len(d.received_commands) == length and all(a is b for a, b in zip(d.received_commands, cmds)))
    elif not compare:
        h.true('nothing saved', d.received_commands == [])
    if not last:
        h.true('sent on in order', len(keep.cmds) == length and all(a is b for a, b in zip(keep.cmds, cmds)))
    h.true('everything is available', all(d.is_available(c) for c in cmds))


def letters(h, k, alphabet, eng):
    """command k of one program"""
    c = h.choice('%s' % k, alphabet)
    if c == 'flush':
        return command(eng, ops.FlushGate(), ([0],))
    g, *rest = c.split(' ')
    mk = dict(X=lambda: ops.X, H=lambda: ops.H, M=lambda: ops.Measure, W=lambda: ops.Swap, A=lambda: ops.Allocate, R=lambda: ops.Rx(h.angle('ang' + k)))[g]
    tg = [[int(x)] for x in rest[0]]
    if len(tg) > 1 and g != 'W':
        tg = [[int(x) for x in rest[0]]]
    ctl, state, tags = [], None, []
    for r in rest[1:]:
        if r[0] == 'c':
            ctl = [int(x) for x in r[1:]]
        elif r[0] == 's':
            state = r[1:]
        else:
            tags = [Mark(int(x)) for x in r[1:]]
    return command(eng, mk(), tg, ctl, tags, state=state)


def equal_commands(a, b):
    """(spec) the same operation on the same qubits: a condition"""
    if type(a.gate) is not type(b.gate):
        return False
    ta, tb = [[q.id for q in r] for r in a.qubits], [[q.id for q in r] for r in b.qubits]
    if type(a.gate) is type(ops.Swap):
        ta, tb = sorted(ta), sorted(tb)
    ca = dict(zip([q.id for q in a.control_qubits], a.control_state or '1' * len(a.control_qubits)))
    cb = dict(zip([q.id for q in b.control_qubits], b.control_state or '1' * len(b.control_qubits)))
    if ta != tb or ca != cb or [t.n for t in a.tags] != [t.n for t in b.tags]:
        return False
    return bool(a.gate.angle == b.gate.angle) if hasattr(a.gate, 'angle') else True


def compare(h, alphabet, length, shorter=False):
    """two programs are equal exactly when one is the other with operations on disjoint qubits exchanged"""
    from projectq import MainEngine
    from projectq.cengines import CompareEngine
    a, b = CompareEngine(), CompareEngine()
    ea, eb = MainEngine(a, []), MainEngine(b, [])
    p = [letters(h, 'p%d' % i, alphabet, ea) for i in range(length)]
    q = [letters(h, 'q%d' % i, alphabet, eb) for i in range(length - (1 if shorter else 0))]
    a.receive(list(p))
    for c in q:
        b.receive([c])
    got = a == b
    real = lambda l: [c for c in l if not isinstance(c.gate, ops.FlushGate)]
    p, q = real(p), real(q)

    def equivalent(p, q):
        """take the first operation of p out of q: its first equal, with nothing before it that shares a qubit"""
        if not p:
            return not q
        for i, c in enumerate(q):
            if equal_commands(p[0], c):
                return equivalent(p[1:], q[:i] + q[i + 1:])
            if set(qubits(c)) & set(qubits(p[0])):
                return False
        return False
    want = equivalent(p, q)
    h.true('equal exactly when equivalent', bool(got) == want, '%s / %s: %s' % ([str(c) for c in p], [str(c) for c in q], got))
    h.true('symmetric', bool(b == a) == want)
    h.true('not equal is the opposite', bool(a != b) == (not want))
    h.true('another kind of object', not (a == 3))
    for x, cl in ((a, p), (b, q)):
        text = str(x).split('\n')
        for i, line in enumerate(text[:-1]):
            names = [str(c) for c in cl if i in qubits(c)]
            h.true('printed list of a qubit', line == 'Qubit %d : %s' % (i, ', '.join(names)) or (not names and line.startswith('Qubit %d' % i)), line)
