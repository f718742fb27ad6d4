"""Harness for the mappers.  A program is data flow: every gate is an uninterpreted function of the values on its qubits, so two circuits
agree for every meaning of the gates when the values on all qubits are equal terms."""
import itertools

import z3

from .engine import PathAbort
from .sym import SymBool


class Values:
    """values on wires: z3 terms over uninterpreted functions, or nested tuples in a replay"""

    def __init__(self, h):
        self.h = h
        self.sort = z3.DeclareSort('Value') if h.symbolic else None
        self.funcs = {}

    def zero(self):
        return z3.Const('zero', self.sort) if self.h.symbolic else ('zero',)

    def free(self, name):
        return z3.Const(name, self.sort) if self.h.symbolic else (name,)

    def apply(self, name, args):
        if not self.h.symbolic:
            return [(name, i) + tuple(args) for i in range(len(args))]
        out = []
        for i in range(len(args)):
            f = self.funcs.setdefault((name, i, len(args)), z3.Function('%s.%d' % (name, i), *([self.sort] * (len(args) + 1))))
            out.append(f(*args))
        return out

    def key(self, a):
        """equal terms have equal keys"""
        return a.get_id() if self.h.symbolic else str(a)

    def equal(self, a, b):
        if not self.h.symbolic:
            return a == b
        return a == b

    def check(self, label, pairs):
        if not self.h.symbolic:
            self.h.true(label, all(a == b for a, b in pairs))
        elif pairs:
            self.h.true(label, SymBool.expr(z3.And(*[a == b for a, b in pairs])))


def token(name, swap=False):
    from projectq.ops import BasicGate

    class Token(BasicGate):
        def __init__(self, n):
            super().__init__()
            self.name = n

        def __str__(self):
            return self.name

        def __eq__(self, o):
            return isinstance(o, type(self)) and getattr(o, 'name', None) == self.name

        def __hash__(self):
            return hash(self.name)
    return Token(name)


class Flow:
    """executes commands on values"""

    def __init__(self, h, vals, label):
        self.h, self.v, self.label = h, vals, label
        self.wire = {}
        self.measured = []          # (identity, value)
        self.released = []

    def run(self, cmd, identity=None):
        from projectq.meta import LogicalQubitIDTag
        from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, MeasureGate, Swap
        g = cmd.gate
        if isinstance(g, FlushGate):
            return
        tags = [t.logical_qubit_id for t in cmd.tags if isinstance(t, LogicalQubitIDTag)]
        ids = [q.id for q in cmd.control_qubits] + [q.id for r in cmd.qubits for q in r]
        if isinstance(g, AllocateQubitGate):
            self.h.true(self.label + ': allocated twice', ids[0] not in self.wire)
            self.wire[ids[0]] = self.v.zero()
            return
        for i in ids:
            self.h.true(self.label + ': operation on a qubit that is not allocated', i in self.wire, '%s %s' % (cmd, sorted(self.wire)))
        self.h.true(self.label + ': distinct qubits', len(set(ids)) == len(ids))
        if isinstance(g, DeallocateQubitGate):
            self.released.append((tags[0] if tags else ('own' if identity is None else ids[0]), self.wire.pop(ids[0])))
        elif isinstance(g, MeasureGate):
            who = tags[0] if tags else ids[0]
            if identity is None:
                self.h.true('measurement carries the program identity', len(tags) == 1)
            val = self.v.apply('measure', [self.wire[ids[0]]])[0]
            self.measured.append((who, val))
            self.wire[ids[0]] = val
        elif g == Swap and not cmd.control_qubits:
            a, b = ids
            self.wire[a], self.wire[b] = self.wire[b], self.wire[a]
        else:
            # the order in which controls are listed has no meaning: sort them by what they hold
            nc = len(cmd.control_qubits)
            ctr = sorted(((str(s), self.v.key(self.wire[i]), i) for s, i in zip(cmd.control_state, ids[:nc])), key=lambda x: x[:2])
            name = '%s%s%s' % (g, '' if not nc else '/c' + ''.join(x[0] for x in ctr), [str(t) for t in cmd.tags if type(t).__name__ == 'Mark'])
            self.h.true('as many signs as controls', len(cmd.control_state) == nc)
            args = [self.wire[x[2]] for x in ctr] + [self.wire[i] for i in ids[nc:]]
            new = {i: x for i, x in zip(ids[nc:], self.v.apply(name, args)[nc:])}
            for _, _, i in ctr:
                new[i] = self.v.apply(name + ' control', [self.wire[i]] + args)[0]
            self.wire.update(new)


def neighbours(shape):
    kind = shape[0]
    if kind in ('line', 'ring'):
        n = shape[1]
        e = {(i, i + 1) for i in range(n - 1)}
        if kind == 'ring' and n > 1:
            e.add((n - 1, 0))
        return n, {frozenset(x) for x in e}
    _, r, c = shape
    e = set()
    for i in range(r):
        for j in range(c):
            if j + 1 < c:
                e.add(frozenset((i * c + j, i * c + j + 1)))
            if i + 1 < r:
                e.add(frozenset((i * c + j, (i + 1) * c + j)))
    return r * c, e


def mapper(shape, storage, labels=None, steps=None):
    from projectq.cengines import GridMapper, LinearMapper
    if shape[0] == 'grid':
        kw = {} if steps is None else dict(num_optimization_steps=steps)
        return GridMapper(shape[1], shape[2], mapped_ids_to_backend_ids=labels, storage=storage, **kw)
    return LinearMapper(shape[1], cyclic=shape[0] == 'ring', storage=storage)


def program(h, shape, alphabet, length, start, storage=1000, labels=None, placement=None, steps=None, flush_at=(), pairs=None, first=None, scatter=None):
    """a program of `length` operations chosen freely from the alphabet, on a device of the given shape"""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine
    from projectq.meta import Control
    from projectq.ops import FlushGate, Measure, MeasureGate, Swap
    from projectq.meta import LogicalQubitIDTag
    from projectq.types import WeakQubitRef
    size, edges = neighbours(shape)
    back = labels or {i: i for i in range(size)}
    inv = {v: k for k, v in back.items()}
    V = Values(h)
    phys, prog = Flow(h, V, 'device'), Flow(h, V, 'program')
    outcomes = {}

    class Device(BasicEngine):
        is_last_engine = True

        def __init__(self):
            super().__init__()
            self.is_last_engine = True
            self.log = []

        def is_available(self, cmd):
            return True

        def receive(self, cmds):
            for cmd in cmds:
                self.log.append(cmd)
                if isinstance(cmd.gate, FlushGate):
                    continue
                ids = [q.id for r in cmd.all_qubits for q in r]
                h.true('on the device', all(i in inv for i in ids), str(cmd))
                if len(ids) == 2:
                    h.true('only neighbours interact', frozenset(inv[i] for i in ids) in edges, str(cmd))
                phys.run(cmd)
                if isinstance(cmd.gate, MeasureGate):
                    lid = [t.logical_qubit_id for t in cmd.tags if isinstance(t, LogicalQubitIDTag)][0]
                    self.main_engine.set_measurement_result(WeakQubitRef(self, lid), outcomes.get(lid, 0))

    class Watch(BasicEngine):
        """in front of the mapper: the program itself"""

        def receive(self, cmds):
            for cmd in cmds:
                prog.run(cmd, True)
            self.send(cmds)

    m = mapper(shape, storage, labels, steps)
    dev = Device()
    eng = MainEngine(dev, [Watch(), m], verbose=True)
    live = []
    try:
        if scatter:
            ids = h.choice('placement', list(itertools.permutations(range(size), scatter)))
            placement = {i: back[p] for i, p in enumerate(ids)}
        if placement is not None:
            m.current_mapping = dict(placement)
        for _ in range(start):
            live.append(eng.allocate_qubit()[0])
        if placement is not None:
            eng.flush()
        names = list(live)
        two = pairs
        for s in range(length):
            if s in flush_at:
                eng.flush()
            kinds = list(alphabet)
            kind = h.choice('op%d' % s, kinds)
            if kind in ('g2', 'swap', 'cg', 'ncg'):
                if len(live) < 2:
                    raise PathAbort()
                opts = list(itertools.combinations(range(len(live)), 2)) if two is None else two
                if kind != 'g2' and two is None and len(live) < 4:
                    opts = list(itertools.permutations(range(len(live)), 2))
                i, j = h.choice('pair%d' % s, opts) if first is None or s >= len(first) else first[s]
                a, b = live[i], live[j]
                if kind == 'g2':
                    token('G%d' % s) | (a, b)
                elif kind == 'swap':
                    Swap | (a, b)
                else:
                    with Control(eng, a, '1' if kind == 'cg' else '0'):
                        token('C%d' % s) | b
            elif kind in ('g1', 'measure', 'release'):
                if not live:
                    raise PathAbort()
                i = h.choice('qubit%d' % s, range(len(live)))
                if kind == 'g1':
                    token('U%d' % s) | live[i]
                elif kind == 'measure':
                    outcomes[live[i].id] = i % 2
                    Measure | live[i]
                else:
                    q = live.pop(i)
                    eng.deallocate_qubit(q)
            elif kind == 'alloc':
                if len(live) >= size:
                    raise PathAbort()
                live.append(eng.allocate_qubit()[0])
            elif kind == 'flush':
                eng.flush()
        eng.flush()
        cm = m.current_mapping
        h.true('the mapping covers the live qubits', all(q.id in cm for q in live), str(cm))
        h.true('the mapping is one to one', len(set(cm.values())) == len(cm) and all(v in inv for v in cm.values()))
        h.true('live device qubits', set(phys.wire) == {cm[q.id] for q in live}, '%s %s' % (sorted(phys.wire), cm))
        V.check('value of every qubit', [(phys.wire[cm[q.id]], prog.wire[q.id]) for q in live])
        for k in {x[0] for x in prog.measured} | {x[0] for x in phys.measured}:
            A, B = [v for i, v in phys.measured if i == k], [v for i, v in prog.measured if i == k]
            h.true('number of measurements', len(A) == len(B))
            V.check('measured values', list(zip(A, B)))
        for q in names:
            if q in live and q.id in outcomes:
                h.true('result of the qubit measured', int(q) == outcomes[q.id])
        own = [v for i, v in phys.released if i == 'own']
        V.check('helper qubits are released clean', [(v, V.zero()) for v in own])
        R = {i: v for i, v in phys.released if i != 'own'}
        h.true('released qubits', set(R) == {i for i, v in prog.released})
        V.check('value released', [(R[i], v) for i, v in prog.released])
    finally:
        for q in live:
            q.id = -1


def refuse(h, shape, what, storage=1000):
    """what does not fit is refused, not mapped wrongly"""
    from projectq import MainEngine
    from projectq.cengines import DummyEngine
    from projectq.ops import Command
    from projectq.types import WeakQubitRef
    size, _ = neighbours(shape)
    m = mapper(shape, storage)
    dev = DummyEngine(save_commands=True)
    dev.is_last_engine = True
    eng = MainEngine(dev, [m], verbose=True)
    if what == 'qubits':
        live = []

        def run():
            for _ in range(size + 1):
                live.append(eng.allocate_qubit()[0])
            for i in range(size):
                token('G%d' % i) | (live[i], live[i + 1])
            eng.flush()
        h.raises('more qubits than the device has', Exception, run)
        for q in live:
            q.id = -1
    elif what == 'gate':
        live = [eng.allocate_qubit()[0] for _ in range(min(3, size))]

        def run():
            token('G') | tuple(live)
            eng.flush()
        h.raises('three-qubit operation', Exception, run)
        for q in live:
            q.id = -1
    else:
        w = [WeakQubitRef(eng, i) for i in range(4)]
        for a in range(1, 5):
            for c in range(a):
                cmd = Command(eng, token('G'), tuple([x] for x in w[c:a]), controls=w[:c])
                h.true('availability of %d qubits, %d controls' % (a, c), m.is_available(cmd) == (a <= 2))


def relabelled(sh):
    n = neighbours(sh)[0]
    return {i: (7 * i + 3) % 11 for i in range(n)} if n != 4 else {0: 2, 1: 0, 2: 3, 3: 1}


def schedule(h, shape, k):
    """k qubits on any places move to any places by neighbour swaps"""
    size, edges = neighbours(shape)
    m = mapper(shape, 1000)
    old = {i: i for i in range(k)}
    if k < size:
        for i, p in enumerate(h.choice('from', list(itertools.combinations(range(size), k)))):
            old[i] = p
    new = {i: p for i, p in enumerate(h.choice('to', list(itertools.permutations(range(size), k))))}
    perm = h.choice('matching order', list(itertools.permutations(range(shape[1]))) if k == size else [tuple(range(shape[1]))] if k < size - 1 else [tuple(range(shape[1])), tuple(reversed(range(shape[1])))])
    swaps = m.return_swaps(old, new, permutation=list(perm))
    V = Values(h)
    wire = {p: V.zero() for p in range(size)}
    wire.update({p: V.free('q%d' % i) for i, p in old.items()})
    for a, b in swaps:
        h.true('neighbours', frozenset((a, b)) in edges, '%s-%s' % (a, b))
        wire[a], wire[b] = wire[b], wire[a]
    V.check('placement reached', [(wire[p], V.free('q%d' % i)) for i, p in new.items()])


def family(shapes, quick, labels=None):
    from .runner import Case
    K = dict(budget=100 if quick else 1500, max_paths=1000000)
    D = 0 if quick else 1
    for sh in shapes:
        N = neighbours(sh)[0]
        tag = '%s%s%s' % (sh[0], 'x'.join(map(str, sh[1:])), ' relabelled' if labels else '')
        lab = labels(sh) if labels else None

        def case(name, length, **kw):
            P = dict(shape=sh, length=length, labels=lab, steps=2)
            P.update(kw)
            return Case('%s/%s' % (name, tag), program, P, weight=length, **K)
        L = {2: 6, 3: 6, 4: 4, 5: 3, 6: 2}[N] + D
        yield case('pairs', L, alphabet=('g2',), start=N)
        if N == 5 or not quick and N == 6:
            for p in itertools.combinations(range(N), 2):
                yield case('pairs from %d-%d' % p, (4 if N == 5 and sh[0] == 'line' else 3) + D, alphabet=('g2',), start=N, first=(p,))
        for st in (1, 2, 3, 5):
            yield case('storage %d' % st, {2: 6, 3: 5, 4: 3, 5: 3, 6: 2}[N] + D, alphabet=('g2',), start=N, storage=st)
            yield case('storage %d, releases' % st, {2: 5, 3: 4, 4: 3, 5: 3, 6: 2}[N] + D, alphabet=('g2', 'release', 'alloc'), start=N - 1, storage=st)
        yield case('two circuits', {2: 5, 3: 5, 4: 4, 5: 3, 6: 2}[N] + D, alphabet=('g2',), start=N, flush_at=(2,))
        for n in sorted({2, 3, N} if N < 6 else {2, 3}):
            if n <= N and not (n == N and N > 4):
                yield case('placed %d' % n, 2 if N < 6 else 1, alphabet=('g2',), start=n, scatter=n)
        yield case('releases', {2: 6, 3: 5, 4: 4, 5: 3, 6: 2}[N] + D, alphabet=('g2', 'release', 'alloc'), start=max(1, N - 1))
        yield case('growing', {2: 6, 3: 5, 4: 5, 5: 5, 6: 4}[N] + D, alphabet=('g2', 'alloc', 'flush'), start=2)
        yield case('measurements', {2: 4, 3: 3, 4: 2, 5: 2, 6: 2}[N] + D, alphabet=('g2', 'measure', 'flush', 'release'), start=min(N, 4))
        yield case('kinds', {2: 3, 3: 2, 4: 2, 5: 2, 6: 2}[N] + D, alphabet=('g1', 'swap', 'cg', 'ncg'), start=min(N, 4 if N < 6 else 3))
        if sh[0] == 'grid' and N < 6:
            yield case('default search', 3, alphabet=('g2',), start=N, steps=None)
        for what in ('qubits', 'gate', 'availability'):
            if what != 'gate' or N > 2:
                yield Case('refuse/%s/%s' % (what, tag), refuse, dict(shape=sh, what=what), **K)


# ------------------------------------------------------------------------------------------------ fixed layouts
def fixed(h, kind, device, n, length, alphabet, first=None, limit=None):
    """five-qubit layout, manual and bounded mappers"""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, IBM5QubitMapper, ManualMapper
    from projectq.meta import Control, LogicalQubitIDTag
    from projectq.ops import CNOT, FlushGate, Measure, MeasureGate
    from projectq.types import WeakQubitRef
    V = Values(h)
    phys, prog = Flow(h, V, 'device'), Flow(h, V, 'program')
    phys.tagged = kind == 'bounded'
    outcomes = {}
    edges = None
    if kind == 'layout':
        edges = {frozenset(e) for e in device} if device else {frozenset(e) for e in ((0, 1), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4))}
        m = IBM5QubitMapper(connections=set(device) if device else None)
        places = set(range(5))
    elif kind == 'manual':
        m = ManualMapper(lambda i: device[i % len(device)] + 10 * (i // len(device))) if device else ManualMapper()
        places = None
    else:
        from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
        m = BoundedQubitMapper(limit)
        places = set(range(limit))

    class Device(BasicEngine):
        def __init__(self):
            super().__init__()
            self.is_last_engine = True

        def is_available(self, cmd):
            return True

        def receive(self, cmds):
            for cmd in cmds:
                if isinstance(cmd.gate, FlushGate):
                    continue
                ids = [q.id for r in cmd.all_qubits for q in r]
                h.true('on the device', places is None or all(i in places for i in ids), str(cmd))
                if len(ids) == 2 and edges is not None:
                    h.true('only connected qubits interact', frozenset(ids) in edges, str(cmd))
                phys.run(cmd)
                if isinstance(cmd.gate, MeasureGate):
                    lid = [t.logical_qubit_id for t in cmd.tags if isinstance(t, LogicalQubitIDTag)][0]
                    self.main_engine.set_measurement_result(WeakQubitRef(self, lid), outcomes.get(lid, 0))

    class Watch(BasicEngine):
        def receive(self, cmds):
            for cmd in cmds:
                prog.run(cmd, True)
            self.send(cmds)

    eng = MainEngine(Device(), [Watch(), m], verbose=True)
    live = []
    pairs = []
    used = 0
    try:
        try:
            for _ in range(n):
                live.append(eng.allocate_qubit()[0])
            used = n
            for s in range(length):
                k = h.choice('op%d' % s, alphabet)
                if k in ('cnot', 'g2', 'ncg'):
                    if len(live) < 2:
                        raise PathAbort()
                    i, j = h.choice('pair%d' % s, list(itertools.permutations(range(len(live)), 2))) if first is None or s >= len(first) else first[s]
                    if k == 'cnot':
                        CNOT | (live[i], live[j])
                        pairs.append((live[i].id, live[j].id))
                    elif k == 'g2':
                        token('G%d' % s) | (live[i], live[j])
                    else:
                        with Control(eng, live[i], '0'):
                            token('C%d' % s) | live[j]
                elif k == 'mixed':
                    if len(live) < 3:
                        raise PathAbort()
                    i, j, t = h.choice('three%d' % s, list(itertools.permutations(range(len(live)), 3)))
                    with Control(eng, [live[i], live[j]], h.choice('signs%d' % s, ['10', '11'])):
                        token('C%d' % s) | live[t]
                elif k == 'flush':
                    eng.flush()
                    used = len(live)
                elif k == 'alloc':
                    live.append(eng.allocate_qubit()[0])
                    used += 1
                else:
                    if not live:
                        raise PathAbort()
                    i = h.choice('qubit%d' % s, range(len(live)))
                    if k == 'g1':
                        token('U%d' % s) | live[i]
                    elif k == 'measure':
                        outcomes[live[i].id] = i % 2
                        Measure | live[i]
                    elif k == 'release':
                        eng.deallocate_qubit(live.pop(i))
            eng.flush()
            refused = None
        except RuntimeError as e:
            refused = e
        if refused is not None:
            text = str(refused)
            if kind == 'layout':
                ids = sorted(prog.wire)
                fits = len(ids) <= 5 and any(all(frozenset((dict(zip(ids, p))[a], dict(zip(ids, p))[b])) in edges for a, b in pairs) for p in itertools.permutations(range(5), len(ids)))
                h.true('refused only what does not fit', not fits, text)
            else:
                h.true('refused only what does not fit', kind == 'bounded' and used + 1 > limit, text)
            return
        cm = m.current_mapping or {}
        h.true('every live qubit has a place', all(q.id in cm for q in live), str(cm))
        h.true('no place is shared', len({cm[q.id] for q in live}) == len(live), str(cm))
        if kind == 'manual' and device:
            h.true('the places asked for', all(cm[q.id] == device[q.id % len(device)] + 10 * (q.id // len(device)) for q in live), str(cm))
        V.check('value of every qubit', [(phys.wire[cm[q.id]], prog.wire[q.id]) for q in live])
        h.true('live device qubits', set(phys.wire) == {cm[q.id] for q in live}, '%s %s' % (sorted(phys.wire), cm))
        for k in {x[0] for x in prog.measured} | {x[0] for x in phys.measured}:
            A, B = [v for i, v in phys.measured if i == k], [v for i, v in prog.measured if i == k]
            h.true('number of measurements', len(A) == len(B))
            V.check('measured values', list(zip(A, B)))
        for q in live:
            if q.id in outcomes:
                h.true('result of the qubit measured', int(q) == outcomes[q.id])
        h.true('released qubits', len(phys.released) == len(prog.released))
    finally:
        for q in live:
            q.id = -1


def flipper(h, n, length, alphabet, links):
    """directed coupling: CNOTs are reversed and swaps replaced, nothing else changes"""
    from projectq import MainEngine
    from projectq.cengines import BasicEngine, SwapAndCNOTFlipper
    from projectq import ops as O
    from projectq.types import WeakQubitRef
    from . import quantum as Q
    con = set()
    for a, b in links:
        d = h.choice('link %d-%d' % (a, b), ['forward', 'backward', 'both'])
        con |= {'forward': {(a, b)}, 'backward': {(b, a)}, 'both': {(a, b), (b, a)}}[d]
    both = con | {(b, a) for a, b in con}
    eng, rec = Q.engine([SwapAndCNOTFlipper(set(con))])
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    want = Q.State([x.id for x in q])
    got = want.copy()

    class Mark:
        def __init__(self, s):
            self.s = s

        def __eq__(self, o):
            return isinstance(o, Mark) and o.s == self.s
    run = Q.Runner(h, got)
    try:
        for s in range(length):
            k = h.choice('op%d' % s, alphabet)
            before = len(rec.cmds)
            if k in ('cnot', 'ncnot', 'swap', 'ccnot', 'cz', 'cswap'):
                need = 3 if k in ('ccnot', 'cswap') else 2
                t = h.choice('qubits%d' % s, list(itertools.permutations(range(n), need)))
                w = [q[i] for i in t]
                if k in ('cnot', 'ncnot'):
                    g, regs, ctr, cs = O.X, ([w[1]],), [w[0]], '1' if k == 'cnot' else '0'
                elif k == 'swap':
                    g, regs, ctr, cs = O.Swap, ([w[0]], [w[1]]), [], ''
                elif k == 'cswap':
                    g, regs, ctr, cs = O.Swap, ([w[0]], [w[1]]), [w[2]], '1'
                elif k == 'ccnot':
                    g, regs, ctr, cs = O.X, ([w[2]],), w[:2], '11'
                else:
                    g, regs, ctr, cs = O.Z, ([w[1]],), [w[0]], '1'
            else:
                w = [q[h.choice('qubit%d' % s, range(n))]]
                g = O.Ry(h.angle('a%d' % s)) if k == 'ry' else O.H if k == 'h' else O.X
                regs, ctr, cs = ([w[0]],), [], ''
            want.apply(Q.spec_matrix(g, sum(len(r) for r in regs)), [x.id for r in regs for x in r], [x.id for x in ctr], cs)
            cmd = O.Command(eng, g, tuple([WeakQubitRef(eng, x.id) for x in r] for r in regs), controls=[WeakQubitRef(eng, x.id) for x in ctr], control_state=cs, tags=[Mark(s)])
            here = k in ('cnot', 'ncnot', 'swap')
            ok = not here or (w[0].id, w[1].id) in both
            try:
                eng.receive([cmd])
            except RuntimeError as e:
                h.true('refused only without a link', not ok, str(e))
                for x in q:
                    x.id = -1
                return
            h.true('an operation without a link is refused', ok)
            out = rec.cmds[before:]
            if not here:
                h.true('forwarded as it is', len(out) == 1 and type(out[0].gate) is type(g) and out[0].gate == g)
            for c in out:
                _, r, ct, _ = Q.cmd_info(c)
                r = [x for y in r for x in y]
                if here and len(r) + len(ct) > 1:
                    h.true('only allowed directions', type(c.gate) is type(O.X) and len(ct) == 1 and (ct[0], r[0]) in con, str(c))
                h.true('tags kept', [x for x in c.tags if isinstance(x, Mark)] == [Mark(s)], str(c))
            run.run(out)
        h.zero('effect', Q.residual(got, want))
    finally:
        for x in q:
            x.id = -1
