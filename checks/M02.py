from projectq.cengines import BasicEngine
from projectq.meta import Compute, Control, CustomUncompute, Dagger, Uncompute
from projectq.ops import NotInvertible

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='inversion around every fragment (6 leaf fragments with symbolic angles, helper qubits, negative controls) in up to two '
                    'further blocks (control, inversion, compute, action, custom uncompute, loop 0-3), and inversion followed by the direct fragment; '
                    'every gate kind of the library inverted inside a control; 2-5 qubits',
              thorough='all combinations of three nested blocks')
OUTSIDE = 'deeper nesting, more qubits'
GATES = gate_makers()


def inverted(h, kinds):
    frag, n = progs.nested(h, kinds)
    body = [('g', ops.H, ('q0',)), ('dag', frag), ('g', ops.Ry(0.3), ('q1',))]
    progs.compare(h, body, n, 'inversion block', swap_ids=len(kinds) > 1 or h.bool('swap'))


def undone(h, kinds):
    """direct, then inverted = identity"""
    frag, n = progs.nested(h, kinds)
    eng, rec = Q.engine()
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    rec.cmds.clear()
    progs.execute(eng, frag + [('dag', frag)], {'q%d' % i: x for i, x in enumerate(q)})
    s = Q.State([x.id for x in q])
    Q.Runner(h, s).run(progs.unroll(rec.cmds))
    h.zero('a block followed by its inversion is the identity', Q.residual(s, Q.State([x.id for x in q])))


def gates(h, name):
    """every gate kind, controlled with either value, inside an inversion"""
    nq, mk = GATES[name]
    g = mk(h, '')
    eng, rec = Q.engine()
    q = eng.allocate_qureg(nq + 1)
    rec.cmds.clear()
    st = h.choice('state', ['1', '0'])
    outer = h.bool('outer')

    def apply():
        if type(g).__name__.startswith('Uniformly'):
            g | (q[:nq - 1], q[nq - 1])
        elif g.interchangeable_qubit_indices or name == 'Dag(SqrtSwap)':
            g | tuple(q[i] for i in range(nq))
        else:
            g | q[:nq]
    if outer:
        with Control(eng, q[nq], ctrl_state=st):
            with Dagger(eng):
                apply()
    else:
        with Dagger(eng):
            with Control(eng, q[nq], ctrl_state=st):
                apply()
    ids = [x.id for x in q]
    s, w = Q.State(ids), Q.State(ids)
    Q.Runner(h, s).run(rec.cmds)
    w.apply(Q.dagger(spec(g, nq)), ids[:nq], ids[nq:], st)
    h.zero('inverse of a controlled gate', Q.residual(s, w))


def rejected(h):
    kind = h.choice('kind', ['measure', 'unbalanced alloc', 'unbalanced dealloc', 'math', 'exception'])
    eng, rec = Q.engine()
    q = eng.allocate_qureg(2)
    rec.cmds.clear()
    keep = []

    def run():
        with Dagger(eng):
            ops.H | q[0]
            if kind == 'measure':
                ops.Measure | q[0]
            elif kind == 'unbalanced alloc':
                keep.append(eng.allocate_qubit())
            elif kind == 'unbalanced dealloc':
                q[1].__del__()
            elif kind == 'math':
                ops.BasicMathGate(lambda x: (x,)) | q
            else:
                raise KeyError()
    if kind in ('measure', 'math'):
        # no inverse exists: an error, or a formal inverse that no back-end executes
        try:
            run()
        except NotInvertible:
            return
        sent = [c for c in rec.cmds if isinstance(c.gate, (ops.MeasureGate, ops.BasicMathGate))]
        h.true('an operation without inverse is never sent as its own inverse', not sent)
        return
    rejects(h, 'fragments that cannot be inverted are rejected', {'exception': 'KeyError'}.get(kind, 'QubitManagementError'), run)
    h.true('nothing was sent', not [c for c in rec.cmds if c.gate == ops.H])


def cases(tier):
    K = progs.KINDS
    combos = [[k] for k in K] + [[a, b] for a in K[1:] for b in K[1:] if not a == b == 'cmpanc' and not a == b == 'ctrl']
    if tier == 'thorough':
        combos += [[a, b, c] for a in K[1:] for b in K[1:] for c in ('dag', 'compute', 'ctrl', 'action')
                   if [a, b, c].count('ctrl') < 2 and [a, b, c].count('cmpanc') < 2]
    for c in combos:
        yield Case('inverted/' + '/'.join(c), inverted, dict(kinds=c), weight=len(c), budget=120 if tier == 'quick' else 900)
        if len(c) == 1:
            yield Case('undone/' + '/'.join(c), undone, dict(kinds=c))
    for n in GATES:
        yield Case('gate/' + n, gates, dict(name=n))
    yield Case('rejected', rejected)
