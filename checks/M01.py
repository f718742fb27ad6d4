from projectq.meta import Control, Compute, Uncompute
from projectq.types import Qureg

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='control blocks on 1-2 controls with every pattern around every fragment (6 leaf fragments with symbolic angles, helper '
                    'qubits) wrapped in every other block kind (control, inversion, compute, action, custom uncompute, loop 0-3), '
                    'and for one control also around an inversion, a compute or an action section nested in those; 3-6 qubits; blocks with controls in common (contradicting signs are refused)',
              thorough='one more nesting level of every kind')
OUTSIDE = 'deeper nesting, more qubits'
KINDS = ['plain', 'ctrl', 'dag', 'loop', 'compute', 'action', 'cmpanc']


def controlled(h, mid, two, inner):
    uses = {mid, inner}
    n = 2 + bool(uses & {'ctrl', 'cmpanc'}) + (uses >= {'ctrl', 'cmpanc'})
    ws = ['q%d' % i for i in range(n)]
    frag = progs.leaves(h, '1', ['q0', 'q1'])
    if inner:
        frag = progs.block(h, '1', inner, ws, frag)
    frag = progs.block(h, '2', mid, ['q1', 'q0'] + ws[2:], frag)
    st = ''.join(h.choice('c%d' % i, ['0', '1']) for i in range(1 + two))
    ctr = tuple('q%d' % (n + i) for i in range(1 + two))
    body = [('ctrl', ctr, st, frag)]
    after = [('g', ops.Ry(0.3), ('q0',))]
    progs.compare(h, body + after, n + 1 + two, 'control block', swap_ids=bool(inner) or h.bool('swap'))


def default_state(h):
    """without a pattern all controls must be one; a single qubit may be given directly"""
    form = h.choice('form', ['qubit', 'list', 'qureg', 'empty'])
    eng, rec = Q.engine()
    q = eng.allocate_qureg(3)
    rec.cmds.clear()
    a = h.angle('a')
    c = {'qubit': q[0], 'list': [q[0], q[1]], 'qureg': Qureg(q[:2]), 'empty': []}[form]
    with Control(eng, c):
        ops.Ph(a) | q[2]
    got, want = Q.State([x.id for x in q]), Q.State([x.id for x in q])
    Q.Runner(h, got).run(rec.cmds)
    ids = {'qubit': [q[0].id], 'empty': []}.get(form, [q[0].id, q[1].id])
    want.apply(spec(ops.Ph(a), 1), [q[2].id], ids)
    h.zero('default pattern', Q.residual(got, want))
    h.raises('tuples are rejected', TypeError, lambda: Control(eng, (q[0], q[1])))


def uncontrolled(h):
    """compute / uncompute operations inside a control block stay unconditioned, the action is conditioned"""
    eng, rec = Q.engine()
    q = eng.allocate_qureg(3)
    rec.cmds.clear()
    with Control(eng, q[0]):
        with Compute(eng):
            ops.Ry(h.angle('a')) | q[1]
        ops.Rz(h.angle('b')) | q[1]
        Uncompute(eng)
    kinds = [(type(c.gate).__name__, len(c.control_qubits)) for c in rec.cmds]
    h.true('compute sections may stay unconditioned', kinds == [('Ry', 0), ('Rz', 1), ('Ry', 0)], kinds)


def shared(h, inner):
    """nested control blocks may have qubits in common (with the same sign)"""
    eng, rec = Q.engine()
    q = eng.allocate_qureg(5)
    ids = [x.id for x in q]
    sign = [h.choice('s%d' % i, '10') for i in range(3)]
    outer = h.choice('outer', [(0,), (0, 1), (1, 0)])
    a = h.angle('a')
    rec.cmds.clear()
    with Control(eng, [q[i] for i in outer], ''.join(sign[i] for i in outer)):
        with Control(eng, [q[i] for i in inner], ''.join(sign[i] for i in inner)):
            ops.Ry(a) | q[3]
        ops.X | q[4]
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    both = sorted(set(outer) | set(inner))
    want.apply(spec(ops.Ry(a), 1), [ids[3]], [ids[i] for i in both], ''.join(sign[i] for i in both))
    want.apply(spec(ops.X, 1), [ids[4]], [ids[i] for i in outer], ''.join(sign[i] for i in outer))
    h.zero('nested control blocks with a qubit in common', Q.residual(got, want))
    common = [i for i in inner if i in outer]
    if common:
        def clash():
            with Control(eng, [q[i] for i in outer], ''.join(sign[i] for i in outer)):
                with Control(eng, [q[i] for i in inner], ''.join('10'[sign[i] == '1'] if i == common[-1] else sign[i] for i in inner)):
                    ops.Ry(a) | q[3]
        n = len(rec.cmds)
        h.raises('contradicting signs of a control are refused', ops.IncompatibleControlState, clash)
        h.true('nothing is sent', len(rec.cmds) == n)


def exceptions(h):
    """leaving a control block by an exception removes the condition"""
    eng, rec = Q.engine()
    q = eng.allocate_qureg(2)
    first = eng.next_engine
    try:
        with Control(eng, q[0]):
            raise KeyError()
    except KeyError:
        pass
    h.true('engine removed', eng.next_engine is first)
    ops.X | q[1]
    h.true('not conditioned afterwards', len(rec.cmds[-1].control_qubits) == 0)


def cases(tier):
    for mid in KINDS:
        for two in (0, 1):
            inners = [None] + (KINDS[1:] if tier == 'thorough' else ['compute', 'dag', 'action'] if not two else [])
            for inner in inners:
                if inner == mid == 'ctrl' or mid == 'plain' and inner:
                    continue
                yield Case('control/%s/%s/%d' % (mid, inner, two), controlled, dict(mid=mid, two=two, inner=inner), weight=2 + two,
                           budget=120 if tier == 'quick' else 900)
    for inner in ((0,), (1,), (0, 2), (2, 0), (1, 2), (2, 1), (0, 1, 2), (2, 1, 0)):
        yield Case('shared/%s' % ''.join(map(str, inner)), shared, dict(inner=inner))
    yield Case('default', default_state)
    yield Case('uncontrolled', uncontrolled)
    yield Case('exceptions', exceptions)
