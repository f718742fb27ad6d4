from projectq import MainEngine
from projectq.meta import Control, canonical_ctrl_state
from projectq.ops import Command, IncompatibleControlState, CtrlAll
from projectq.types import WeakQubitRef

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='patterns for 0-5 control qubits: integers from -3 to 2^n+3 as a symbolic integer, all bit strings, both shorthands; '
                    'acting on 1-3 controls, nested twice, gates with symbolic angles, qubit ids symbolic in [0, 10^6]',
              thorough='0-7 control qubits; acting on 1-4 controls')
OUTSIDE = 'more controls than listed'


def integer(h, n):
    x = h.int('state', -3, (1 << n) + 3)
    if 0 <= x and x < (1 << n):
        s = canonical_ctrl_state(x, n)
        h.true('one character per control', len(s) == n)
        v = 0
        for i, c in enumerate(s):
            h.true('bits', c in '01')
            v += (1 << i) if c == '1' else 0
        h.true('bit i of the integer is the state of control i', x == v)
        h.true('canonical form is a fixed point', canonical_ctrl_state(s, n) == s)
    else:
        h.raises('value out of range is rejected', ValueError, lambda: canonical_ctrl_state(x, n))


def strings(h, n):
    ln = h.choice('length', range(0, n + 2))
    s = ''.join(h.choice('ch%d' % i, ['0', '1'] if i else ['0', '1', '2', 'x']) for i in range(ln))
    if ln == n and set(s) <= {'0', '1'}:
        h.true('a valid string is its own canonical form', canonical_ctrl_state(s, n) == s)
    elif n:
        h.raises('invalid string is rejected', ValueError, lambda: canonical_ctrl_state(s, n))


def shorthand(h, n):
    h.true('all one', canonical_ctrl_state(CtrlAll.One, n) == '1' * n)
    h.true('all zero', canonical_ctrl_state(CtrlAll.Zero, n) == '0' * n)
    if n:
        h.raises('other types are rejected', TypeError, lambda: canonical_ctrl_state(None, n))
        h.raises('other types are rejected', TypeError, lambda: canonical_ctrl_state(1.1, n))


def pattern(h, name, n):
    """(value to hand to the API, expected bits)"""
    form = h.choice(name + 'form', ['int', 'str', 'all'])
    if form == 'all':
        one = h.bool(name + 'one')
        return (CtrlAll.One if one else CtrlAll.Zero), ('1' if one else '0') * n
    if form == 'int':
        v = h.int(name, 0, (1 << n) - 1)
        bits = ''
        w = v
        for _ in range(n):
            bits += '1' if w % 2 == 1 else '0'
            w = w // 2
        return v, bits
    bits = ''.join(h.choice(name + 'b%d' % i, ['0', '1']) for i in range(n))
    return bits, bits


def acts(h, n1, n2):
    """Control blocks (nested when n2): the gate acts exactly where the controls match; control order arbitrary"""
    eng, rec = Q.engine()
    q = [eng.allocate_qubit()[0] for _ in range(n1 + n2 + 1)]
    rec.cmds.clear()
    perm = h.choice('rotate', range(n1 + n2 + 1))
    q = q[perm:] + q[:perm]
    if h.bool('reverse'):
        q = q[::-1]
    a = h.angle('a')
    s1, b1 = pattern(h, 's1', n1)
    exp = {w.id: b for w, b in zip(q[:n1], b1)}
    with Control(eng, q[:n1], ctrl_state=s1):
        if n2:
            s2, b2 = pattern(h, 's2', n2)
            exp.update({w.id: b for w, b in zip(q[n1:n1 + n2], b2)})
            with Control(eng, q[n1:n1 + n2], ctrl_state=s2):
                ops.Ry(a) | q[-1]
        else:
            ops.Ry(a) | q[-1]
    ids = sorted(w.id for w in q)
    got, want = Q.State(ids), Q.State(ids)
    Q.Runner(h, got).run(rec.cmds)
    cs = list(exp)
    want.apply(Q.rot(Q.Y2, a), [q[-1].id], cs, [exp[c] for c in cs])
    h.zero('acts exactly on the matching basis states', Q.residual(got, want))


def meaning(cmd):
    return list(zip([q.id for q in cmd.control_qubits], cmd.control_state))


def attach(h, n1, n2):
    """controls added to a command in two steps, ids symbolic and possibly overlapping"""
    eng = MainEngine(backend=Q.recorder(), engine_list=[])
    ids1 = [h.int('p%d' % i, 0, 10 ** 6) for i in range(n1)]
    ids2 = [h.int('r%d' % i, 0, 10 ** 6) for i in range(n2)]
    for ids in (ids1, ids2):
        for i in range(len(ids)):
            for j in range(i):
                h.assume(ids[i] != ids[j])
    b1 = ''.join(h.choice('x%d' % i, ['0', '1']) for i in range(n1))
    b2 = ''.join(h.choice('y%d' % i, ['0', '1']) for i in range(n2))
    cmd = Command(eng, ops.X, ([WeakQubitRef(eng, 10 ** 6 + 1)],))
    cmd.add_control_qubits([WeakQubitRef(eng, i) for i in ids1], b1)
    conflict = False
    for i, x in zip(ids1, b1):
        for j, y in zip(ids2, b2):
            if x != y and i == j:
                conflict = True
    add = lambda: cmd.add_control_qubits([WeakQubitRef(eng, i) for i in ids2], b2)  # noqa: E731
    if conflict:
        h.raises('conflicting requirements are rejected', IncompatibleControlState, add)
        return
    add()
    got = meaning(cmd)
    for i, b in list(zip(ids1, b1)) + list(zip(ids2, b2)):
        h.true('every requested control is present with its value', any(bool(j == i) and c == b for j, c in got))
    h.true('no other controls', len(got) == n1 + n2)
    for (i, _), (j, _) in zip(got, got[1:]):
        h.true('canonical order', i <= j)


def cases(tier):
    t = tier == 'thorough'
    for n in range(0, 8 if t else 6):
        if n:
            yield Case('integer/%d' % n, integer, dict(n=n))
        yield Case('strings/%d' % n, strings, dict(n=n))
        yield Case('shorthand/%d' % n, shorthand, dict(n=n))
    for n1, n2 in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2)] + ([(4, 0), (2, 2)] if t else []):
        yield Case('acts/%d+%d' % (n1, n2), acts, dict(n1=n1, n2=n2), weight=n1 + n2)
    for n1, n2 in [(1, 1), (2, 1), (2, 2)] + ([(3, 2)] if t else []):
        yield Case('attach/%d+%d' % (n1, n2), attach, dict(n1=n1, n2=n2), weight=5, max_paths=20000)
