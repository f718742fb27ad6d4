"""The local optimiser and measurements, allocation, release, tags."""
from projectq.cengines import CommandModifier, LocalOptimizer
from projectq.meta import Control

from vf import progs
from vf.hlib import *
from vf.runner import Case

import checks.O01 as O1

BOUNDS = dict(quick='sequences of 4 operations from measure, symbolic rotation, fixed and two-qubit gates on two qubits, ending with release in either '
                    'order or without, cache sizes 2 and 10, both measurement outcomes; 3 tagged rotations with every tag pattern (2 with repeated tags in any order), plain or controlled; '
                    'helper qubits allocated and released inside', thorough='sequences of 5 operations, 4 tagged rotations, cache sizes 1 to 5')
OUTSIDE = 'longer programs'
ALPH = {'rot': 'meas0 meas1 Rx0 cRz01 CX10', 'fix': 'meas0 meas1 X0 CX01 H1 S0'}


def measured(h, alph, first, cache, n):
    names = [first] + [h.choice('g%d' % k, ALPH[alph].split()) for k in range(1, n)]
    out = [h.choice('m0', [0, 1]), h.choice('m1', [0, 1])]
    eng, rec = Q.engine([LocalOptimizer(cache_size=cache)])
    q = [eng.allocate_qubit()[0] for _ in range(2)]
    ids = [x.id for x in q]
    rec.outcomes = dict(zip(ids, out))
    want = Q.State(ids)
    meas = 0
    for k, name in enumerate(names):
        if name.startswith('meas'):
            i = int(name[-1])
            ops.Measure | q[i]
            meas += 1
            want.project(ids[i], out[i])
            h.true('measurement forwarded at once', sum(1 for c in rec.cmds if isinstance(c.gate, ops.MeasureGate)) == meas)
            h.true('outcome available', int(q[i]) == out[i])
            # and everything it depends on: the forwarded operations alone give the reduced circuit up to operations not touching this qubit's past
            last = [c for c in rec.cmds if isinstance(c.gate, ops.MeasureGate)][-1]
            h.true('measured qubit', last.qubits[0][0].id == ids[i] and rec.cmds[-1] is last)
        else:
            c = O1.command(h, name, k, q)
            O1.send(eng, c, q)
            want.apply(Q.spec_matrix(c[0], len(c[1])), [ids[j] for j in c[1]], [ids[j] for j in c[2]], c[3])
    rel = h.choice('release', ['none', '01', '10'])
    for ch in rel if rel != 'none' else '':
        q[int(ch)].__del__()
    k = len(rec.cmds)
    rel_now = [c.qubits[0][0].id for c in rec.cmds if isinstance(c.gate, ops.DeallocateQubitGate)]
    known = {c.qubits[0][0].id for c in rec.cmds if isinstance(c.gate, ops.AllocateQubitGate)}     # an unused qubit may vanish altogether
    h.true('releases are forwarded at once', rel == 'none' or rel_now == [ids[int(ch)] for ch in rel if ids[int(ch)] in known])
    eng.flush()
    seen, gone = set(), set()
    for c in rec.cmds:
        w = {x.id for r in c.all_qubits for x in r}
        if isinstance(c.gate, ops.FlushGate):
            continue
        if isinstance(c.gate, ops.AllocateQubitGate):
            h.true('allocated once', not w & seen)
            seen |= w
            continue
        h.true('used only between allocation and release', w <= seen and not w & gone)
        if isinstance(c.gate, ops.DeallocateQubitGate):
            gone |= w
    h.true('allocations and releases all forwarded', gone == seen if rel != 'none' else seen == set(ids) and not gone)
    h.true('only unused qubits vanish', all(ids[i] in seen for i in range(2) if any(str(i) in n for n in names if 'meas' in n)))
    got = Q.State(ids)

    def extra(s, cmd, g, regs, ctr, cs):
        if isinstance(g, ops.MeasureGate):
            for r in regs:
                for i in r:
                    s.project(i, rec.outcomes[i])
            return True
        return False
    Q.Runner(h, got, extra).run([c for c in rec.cmds if not isinstance(c.gate, (ops.AllocateQubitGate, ops.DeallocateQubitGate))])
    h.zero('program with measurements', Q.residual(got, want))


class Tag:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Tag) and self.n == o.n


def tagged(h, n, ctrl, gate, tags=((), (1,), (2,), (1, 2))):
    """rotations with different tags or different controls are kept apart; with equal ones they may merge"""
    cur = []

    def tagger(cmd):
        cmd.tags = list(cur) + cmd.tags
        return cmd
    eng, rec = Q.engine([CommandModifier(tagger), LocalOptimizer(cache_size=10)])
    q = eng.allocate_qureg(3)
    eng.flush()
    rec.cmds.clear()
    sent = []
    for k in range(n):
        t = h.choice('t%d' % k, tags)
        c = h.choice('c%d' % k, ['0', '1', '2', '0-']) if ctrl else ''
        cur[:] = [Tag(i) for i in t]
        if gate == 'X':
            g, a = ops.X, 1
        elif gate == 'S':
            d = h.bool('dag%d' % k)
            g, a = (ops.Sdag, -1) if d else (ops.S, 1)
        else:
            a = h.angle('a%d' % k, 0, 12.5662)
            g = ops.Rz(a)
        with Control(eng, [q[0]] if c[:1] == '0' else [q[2]] if c == '2' else [], **(dict(ctrl_state='0') if c == '0-' else {})):
            g | q[1]
        sent.append(((t, c if c != '1' else ''), a))
    eng.flush()

    def key(c):
        t = tuple(x.n for x in c.tags)
        i = [x.id for x in c.control_qubits]
        return t, {(): '', (q[0].id,): '0', (q[2].id,): '2'}[tuple(i)] + ('-' if str(c.control_state) == '0' else '')
    keys = sorted({k for k, _ in sent})
    outc = [(key(c), c) for c in rec.cmds if not isinstance(c.gate, ops.FlushGate)]
    h.true('only known tags and controls', all(k in keys for k, _ in outc))
    for k in keys:
        ins = [a for kk, a in sent if kk == k]
        if gate == 'Rz':
            s, want = 0, 0
            for kk, c in outc:
                if kk == k:
                    s = s + c.gate.angle
            for a in ins:
                want = want + a
            d = s - want
            h.zero('rotation with these tags and controls kept', [Q.cexp(d * 0.5) - 1])
        else:
            got = [c for kk, c in outc if kk == k]
            m = 2 if gate == 'X' else 4
            v = sum(1 if gate == 'X' or type(c.gate).__name__ == 'SGate' else -1 for c in got)
            h.true('gates with these tags and controls kept', (v - sum(ins)) % m == 0, (v, ins))
            # between gates with other tags nothing may be cancelled across
    order = []
    for k, _ in sent:
        if not order or order[-1] != k:
            order.append(k)
    h.true('order across tags and controls kept', _subseq([k for k, _ in outc], order))


def _subseq(a, b):
    """a, collapsed, can be obtained from b by deleting entries and collapsing"""
    it = iter(b)
    last = None
    for x in a:
        if x == last:
            continue
        for y in it:
            if y == x:
                break
        else:
            return False
        last = x
    return True


def helpers(h, cache):
    """a helper allocated, used and released between gates of the main qubit"""
    a, b = h.angle('a', 0, 12.5662), h.angle('b', 0, 12.5662)
    use = h.choice('use', ['yes', 'no', 'cancelling'])
    eng, rec = Q.engine([LocalOptimizer(cache_size=cache)])
    q = eng.allocate_qubit()[0]
    ops.Rx(a) | q
    for k in range(2):
        x = eng.allocate_qubit()[0]
        if use == 'yes':
            ops.CNOT | (q, x)
            with Control(eng, x):
                ops.Rz(b) | q
            ops.CNOT | (q, x)
        elif use == 'cancelling':
            ops.CNOT | (q, x)
            ops.CNOT | (q, x)
        x.__del__()
    ops.Rx(-1 * a) | q
    eng.flush()
    want = Q.State([q.id])
    if use == 'yes':
        want.apply(Q.rot(Q.X2, a), [q.id])
        for k in range(2):
            want.apply(Q.mat([[1, 0], [0, Q.cexp(b * 0.5)]]), [q.id])
        want.apply(Q.rot(Q.X2, a * -1), [q.id])
    got = Q.State([q.id])
    live, ever = {q.id}, set()
    for c in rec.cmds:
        w = {x.id for r in c.all_qubits for x in r}
        if isinstance(c.gate, ops.AllocateQubitGate):
            h.true('fresh', not w & ever)
            live |= w
            ever |= w
        else:
            h.true('only live qubits', w <= live or isinstance(c.gate, ops.FlushGate))
        if isinstance(c.gate, ops.DeallocateQubitGate):
            live -= w
    h.true('helpers released', live == {q.id})
    Q.Runner(h, got).run([c for c in rec.cmds if not (isinstance(c.gate, ops.AllocateQubitGate) and c.qubits[0][0].id == q.id)])
    h.zero('helper circuit', Q.residual(got, want))


def cases(tier):
    for alph in ALPH:
        for first in ALPH[alph].split():
            for cache in (2, 10) if tier == 'quick' else (1, 2, 3, 4, 5):
                n = 4 if tier == 'quick' else 5
                if alph == 'rot':
                    n -= 1
                yield Case('measured/%s/%s/%d' % (alph, first, cache), measured, dict(alph=alph, first=first, cache=cache, n=n), thin_eq=1, witnesses=2,
                           budget=60 if tier == 'quick' else 600)
    for gate in ('Rz', 'X', 'S'):
        for ctrl in (False, True):
            n = 3 if gate != 'Rz' or not ctrl else 2
            yield Case('tags/%s/%d' % (gate, ctrl), tagged, dict(n=n + (tier != 'quick'), ctrl=ctrl, gate=gate), thin_eq=2, witnesses=3)
            yield Case('repeated tags/%s/%d' % (gate, ctrl), tagged,
                       dict(n=2, ctrl=ctrl, gate=gate, tags=((1,), (1, 1), (1, 2), (2, 1), (1, 1, 2), (1, 2, 2), (1, 2, 1))), thin_eq=2, witnesses=3)
    for c in (1, 2, 3, 5, 10):
        yield Case('helpers/%d' % c, helpers, dict(cache=c), thin_eq=2)
