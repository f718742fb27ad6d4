"""Histories of allocation, release, measurement, copying and flushing."""
import copy

from projectq.cengines import BasicEngine, ForwarderEngine
from projectq.meta import DirtyQubitTag
from projectq.types import Qubit, Qureg, WeakQubitRef

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='all histories of 3 steps (4 with dirty-qubit support) (after one allocation) over 12 operations: allocate clean, dirty or a register; release explicitly, by '
                    'dropping the last reference or through the engine; measure; copy; flush; clean-up flush - with symbolic outcomes; every id and every outcome read back after every step', thorough='4 steps')
OUTSIDE = 'longer histories, more than 12 qubits, errors raised by back-ends during interpreter shutdown'


def history(h, first, n, handler):
    eng, rec = Q.engine()
    if handler:
        rec.is_meta_tag_handler = lambda t: t is DirtyQubitTag
    rec_out = rec.outcomes
    live = {}           # model: id -> (object or None when owned by a register)
    dirty, ever, measured = set(), [], {}
    regs = []
    announced, released = [], []
    seen = [0]

    q = c = w = r = x = None

    def sync(expect):
        new = rec.cmds[seen[0]:]
        seen[0] = len(rec.cmds)
        got = []
        for c in new:
            n_ = {'AllocateQubitGate': 'alloc', 'DeallocateQubitGate': 'free', 'MeasureGate': 'meas', 'FlushGate': 'flush', 'XGate': 'x'}[type(c.gate).__name__]
            for q in c.qubits[0]:
                got.append((n_, q.id))
                if n_ in ('alloc', 'free'):
                    h.true('dirty qubits are marked when supported, others not', (DirtyQubitTag() in c.tags) == (q.id in dirty), (n_, q.id))
        h.true('commands announced', sorted(got) == sorted(expect) if len(expect) > 1 and expect[-1][0] == 'flush' else got == expect, (got, expect))

    def alloc(d):
        q = eng.allocate_qubit(dirty=d)
        i = q[0].id
        h.true('fresh identity', i not in ever and i >= 0)
        ever.append(i)
        if d and handler:
            dirty.add(i)
        live[i] = q
        seen_before = seen[0]
        sync([('alloc', i)])

    alloc(False)
    for k in range(n):
        names = ['alloc', 'dirty', 'register', 'release', 'drop', 'engine release', 'measure', 'measure all', 'copy', 'flush', 'cleanup', 'use']
        op = first if k == 0 else h.choice('s%d' % k, names)
        ids = sorted(live)
        if op in ('release', 'drop', 'engine release', 'measure', 'copy', 'use'):
            if not ids:
                h.assume(False)
            i = ids[h.choice('w%d' % k, range(len(ids))) if len(ids) > 1 else 0]
        if op == 'alloc':
            alloc(False)
        elif op == 'dirty':
            alloc(True)
        elif op == 'register':
            r = eng.allocate_qureg(2)
            new = [q.id for q in r]
            h.true('fresh identities', len(set(new)) == 2 and not set(new) & set(ever))
            ever.extend(new)
            for q in r:
                live[q.id] = Qureg([q])
            r = q = None
            sync([('alloc', x) for x in new])
        elif op == 'release':
            live.pop(i)[0].__del__()
            sync([('free', i)])
        elif op == 'drop':
            del live[i]
            sync([('free', i)])
        elif op == 'engine release':
            q = live.pop(i)
            eng.deallocate_qubit(q[0])
            sync([('free', i)])
            h.true('released reference is invalid', q[0].id == -1)
            h.raises('releasing twice', ValueError, lambda: eng.deallocate_qubit(q[0]))
            q[0].__del__()
            q = None
            sync([])
        elif op in ('measure', 'measure all'):
            which = [i] if op == 'measure' else ids
            for j in which:
                rec_out[j] = h.int('m%d_%d' % (k, j), 0, 1)
            if which:
                ops.All(ops.Measure) | [live[j][0] for j in which]
            for j in which:
                measured[j] = rec_out[j]
            sync([('meas', j) for j in which])
        elif op == 'copy':
            q = live[i]
            for c in (copy.copy(q[0]), copy.deepcopy(q[0]), copy.copy(q)[0], copy.deepcopy(q)[0], [*q][0]):
                h.true('copies are the same qubit', c is q[0])
            w = WeakQubitRef(eng, i)
            h.true('weak copies compare equal', w == q[0] and hash(w) == hash(q[0]))
            w = c = q = None
            sync([])
        elif op == 'flush':
            eng.flush()
            sync([('flush', -1)])
        elif op == 'use':
            ops.X | live[i]
            sync([('x', i)])
        else:
            old = dict(live)
            eng.flush(deallocate_qubits=True)
            live.clear()
            sync([('free', j) for j in ids] + [('flush', -1)])
            h.true('all references invalid', all(q[0].id == -1 for q in old.values()))
            old.clear()
            q = None
            sync([])
        h.true('active qubits', sorted(x.id for x in eng.active_qubits) == sorted(live))
        h.true('references keep their identity', all(q[0].id == j for j, q in live.items()))
        for j, q in list(live.items()):
            if j in measured:
                h.true('reading a result gives the reported outcome', int(q) == measured[j] and int(q[0]) == measured[j])
                h.true('reading a result gives the reported outcome', bool(q) == bool(measured[j]) and bool(q[0]) == bool(measured[j])
                       and eng.get_measurement_result(q[0]) == bool(measured[j]))
            else:
                rejects(h, 'reading before measuring is an error', 'NotYetMeasuredError', lambda: int(q[0]))
                rejects(h, 'reading before measuring is an error', 'NotYetMeasuredError', lambda: bool(q))
        q = None
    i = None
    live.clear()
    left = sorted(x.id for x in eng.active_qubits)
    h.true('dropping every reference releases everything', left == [])
    frees = [c.qubits[0][0].id for c in rec.cmds if isinstance(c.gate, ops.DeallocateQubitGate)]
    h.true('announced once and released once', sorted(frees) == sorted(ever) and
           sorted(c.qubits[0][0].id for c in rec.cmds if isinstance(c.gate, ops.AllocateQubitGate)) == sorted(ever))


def registers(h):
    """a register of one qubit behaves like the qubit; larger ones must be indexed"""
    n = h.choice('n', [0, 1, 2, 3])
    eng, rec = Q.engine()
    q = eng.allocate_qureg(n)
    h.true('length', len(q) == n and isinstance(q, Qureg))
    out = [h.int('m%d' % i, 0, 1) for i in range(n)]
    rec.outcomes = {x.id: out[i] for i, x in enumerate(q)}
    for x in q:
        ops.Measure | x
    if n == 1:
        h.true('value', int(q) == out[0] and bool(q) == bool(out[0]))
    else:
        h.raises('ambiguous value', Exception, lambda: bool(q))
        h.raises('ambiguous value', Exception, lambda: int(q))
    h.true('values', [int(x) for x in q] == out)


def printed(h):
    """the printed form of a register lists its identities as maximal runs of consecutive numbers"""
    n = h.choice('n', range(6))
    ids, last = [], 7
    for k in range(n):
        last = last + h.choice('d%d' % k, [1, 2, -1])
        ids.append(last)
    q = Qureg([WeakQubitRef(None, i) for i in ids])
    s = str(q)
    if not s.startswith('Qureg[') or not s.endswith(']'):
        h.fail('format')
    out = []
    for part in (s[6:-1].split(', ') if s[6:-1] else []):
        a, _, b = part.partition('-')
        out.append((int(a), int(b or a)))
    flat = [x for a, b in out for x in range(a, b + 1)]
    h.true('identities in order', flat == [int(i) for i in ids], s)
    h.true('runs are maximal', all(out[k][1] + 1 != out[k + 1][0] for k in range(len(out) - 1)), s)


def engines(h):
    """identities are per main engine; a qubit is equal only to itself"""
    e1, r1 = Q.engine()
    e2, r2 = Q.engine()
    a, b = e1.allocate_qubit(), e2.allocate_qubit()
    h.true('same number, different engines: not equal', (a[0].id == b[0].id) and not a[0] == b[0])
    fw = ForwarderEngine(e1.next_engine)
    c = fw.allocate_qubit()
    h.true('allocation through another engine of the pipeline is fresh', c[0].id != a[0].id and c[0] in e1.active_qubits)
    o = h.int('m', 0, 1)
    r1.outcomes = {c[0].id: o, a[0].id: 1 - o}
    ops.Measure | a
    ops.Measure | c
    h.true('results by identity', int(c) == o and int(a) == 1 - o)
    rejects(h, 'results are per engine', 'NotYetMeasuredError', lambda: int(b))
    x = Qubit(e1, -1)
    y = Qubit(e1, -1)
    h.true('released references are only equal to themselves', x == x and not x == y and hash(x) == hash(x))


def remeasure(h):
    """the last reported outcome counts"""
    eng, rec = Q.engine()
    q = eng.allocate_qureg(2)
    vals = []
    for k in range(3):
        w = h.choice('w%d' % k, [0, 1])
        v = h.int('m%d' % k, 0, 1)
        rec.outcomes[q[w].id] = v
        ops.Measure | q[w]
        vals.append((w, v))
        for i in (0, 1):
            e = [v2 for w2, v2 in vals if w2 == i]
            if e:
                h.true('latest outcome', int(q[i]) == e[-1])
            else:
                rejects(h, 'not measured yet', 'NotYetMeasuredError', lambda: int(q[i]))


def pipeline(h):
    """construction: invalid engine lists are refused, valid ones are linked in order"""
    kind = h.choice('kind', ['ok', 'twice', 'class', 'tuple', 'two mappers', 'backend class'])
    from projectq import MainEngine
    from projectq.cengines import DummyEngine, BasicMapperEngine
    a, b, c = DummyEngine(), DummyEngine(), DummyEngine(save_commands=True)
    if kind == 'ok':
        e = MainEngine(backend=c, engine_list=[a, b])
        h.true('linked', e.next_engine is a and a.next_engine is b and b.next_engine is c and c.is_last_engine and not b.is_last_engine)
        h.true('main engine', all(x.main_engine is e for x in (a, b, c)) and e.backend is c)
        q = e.allocate_qubit()
        h.true('reaches the back-end', len(c.received_commands) == 1)
    else:
        args = {'twice': (c, [a, a]), 'class': (c, [DummyEngine]), 'tuple': (c, (a, b)), 'two mappers': (c, [BasicMapperEngine(), BasicMapperEngine()]),
                'backend class': (DummyEngine, [a])}[kind]
        rejects(h, kind, 'UnsupportedEngineError', lambda: MainEngine(backend=args[0], engine_list=args[1]))


def cases(tier):
    names = ['alloc', 'dirty', 'register', 'release', 'drop', 'engine release', 'measure', 'measure all', 'copy', 'flush', 'cleanup', 'use']
    for f in names:
        for hd in (False, True):
            yield Case('history/%s/%d' % (f, hd), history, dict(first=f, n=3 if tier == 'quick' and not hd else 4, handler=hd), witnesses=2, weight=1 + hd)
    for f in (registers, printed, engines, remeasure, pipeline):
        yield Case(f.__name__, f)
