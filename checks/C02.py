from copy import copy, deepcopy

from projectq import MainEngine
from projectq.meta import ComputeTag, DirtyQubitTag, LogicalQubitIDTag, LoopTag
from projectq.ops import Command, NotInvertible, NotMergeable
from projectq.types import WeakQubitRef

from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='commands with 0-3 controls, every control pattern, every order of pairwise distinct symbolic qubit ids in [0, 10^6], '
                    'gates on 1-3 target registers with symbolic angles', thorough='0-4 controls')
OUTSIDE = 'more controls or target registers; tags other than the library\'s own'
TAGS = [[], [ComputeTag()], [DirtyQubitTag(), LogicalQubitIDTag(3)], [ComputeTag(), ComputeTag()]]
KINDS = {
    'Rx': (1, lambda h, s: ops.Rx(h.angle('a' + s))), 'Ph': (1, lambda h, s: ops.Ph(h.angle('a' + s))),
    'R': (1, lambda h, s: ops.R(h.angle('a' + s))), 'H': (1, lambda h, s: ops.H), 'S': (1, lambda h, s: ops.S),
    'Swap': (2, lambda h, s: ops.Swap), 'Rzz': (2, lambda h, s: ops.Rzz(h.angle('a' + s))),
    'SqrtSwap': (2, lambda h, s: ops.SqrtSwap),
    'UCRy': (2, lambda h, s: ops.UniformlyControlledRy([h.angle('a%s0' % s), h.angle('a%s1' % s)])),
}


def eng_():
    return MainEngine(backend=Q.recorder(), engine_list=[])


def distinct(h, ids):
    for i in range(len(ids)):
        for j in range(i):
            h.assume(ids[i] != ids[j])


def meaning(cmd):
    return (cmd.gate, [[q.id for q in r] for r in cmd.qubits], list(zip([q.id for q in cmd.control_qubits], cmd.control_state)), cmd.tags)


def same_ctrl(h, label, got, want):
    h.true(label + ': number of controls', len(got) == len(want))
    for i, b in want:
        h.true(label + ': control present with its value', any(bool(i == j) and b == c for j, c in got))


def same_targets(h, label, gate, got, want):
    inter = {i for g in gate.interchangeable_qubit_indices for i in g}
    h.true(label + ': registers', [len(r) for r in got] == [len(r) for r in want])
    for i, (x, y) in enumerate(zip(got, want)):
        if i in inter:
            h.true(label + ': interchangeable target present', any(bool(x[0] == want[k][0]) for k in inter))
        else:
            for p, r in zip(x, y):
                h.true(label + ': target kept', p == r)


def parts(h, kind, nc, suffix='', ids=None):
    nt, mk = KINDS[kind]
    g = mk(h, suffix)
    if ids is None:
        ids = [h.int('q%d' % i, 0, 10 ** 6) for i in range(nt + nc)]
        distinct(h, ids)
    bits = ''.join(h.choice('b%s%d' % (suffix, i), ['0', '1']) for i in range(nc))
    return g, [[i] for i in ids[:nt]], ids[nt:], bits


def build(eng, g, t, c, bits, tags):
    return Command(eng, g, tuple([WeakQubitRef(eng, i) for i in r] for r in t), [WeakQubitRef(eng, i) for i in c], tags, bits)


def keep(h, kind, nc):
    eng = eng_()
    g, t, c, bits = parts(h, kind, nc)
    tags = h.choice('tags', TAGS)
    cmd = build(eng, g, t, c, bits, tags)
    want = list(zip(c, bits))

    def check(label, x, gate):
        gg, tt, cc, tg = meaning(x)
        same_ctrl(h, label, cc, want)
        same_targets(h, label, g, tt, t)
        h.true(label + ': tags', tg == tags)
        h.true(label + ': engine', x.engine is eng and all(q.engine is eng for r in x.all_qubits for q in r))
        if gate is not None:
            h.true(label + ': gate', gg == gate)
        h.true(label + ': pattern has one entry per control', len(x.control_state) == len(x.control_qubits))
    check('construction', cmd, g)
    d = deepcopy(cmd)
    check('deep copy', d, g)
    h.true('a copy equals the original', d == cmd)
    inv = cmd.get_inverse()
    check('inverse', inv, None)
    n = len(t)
    h.zero('inverse of the gate', diff(mm(spec(inv.gate, n), spec(g, n)), eye(n)))
    # independence
    d.tags.append(ComputeTag())
    if nc:
        d.control_state = ''.join('1' if x == '0' else '0' for x in d.control_state)
    inv.tags.append(ComputeTag())
    check('original after changing a copy', cmd, g)
    s = cmd.to_string()
    h.true('string shows the number of controls', s.startswith('C' * nc + g.to_string(False)))


def merge(h, kind, nc):
    """merging: only with the same controls, pattern and targets; result keeps them"""
    eng = eng_()
    g, t, c, bits = parts(h, kind, nc)
    g2 = KINDS[kind][1](h, 'z')
    bits2 = ''.join(h.choice('bz%d' % i, ['0', '1']) for i in range(nc))
    ttags, utags = h.choice('tags', [(TAGS[0], TAGS[0]), (TAGS[1], TAGS[1]), (TAGS[1], TAGS[0])])
    shift = h.bool('othertarget')
    c2 = c[::-1] if h.bool('reversed') else c
    cmd = build(eng, g, t, c, bits, ttags)
    if c2 is not c:
        bits2 = bits2[::-1]
    t2 = t
    if shift:
        x = h.int('t2', 0, 10 ** 6)
        distinct(h, [x] + [i for r in t for i in r] + c)
        t2 = [[x]] + t[1:]
    other = build(eng, g2, t2, c2, bits2, utags)
    same = dict(zip(map(id, c), bits)) == dict(zip(map(id, c2), bits2)) and ttags == utags and not shift
    try:
        m = cmd.get_merged(other)
    except NotMergeable:
        return
    h.true('only commands with equal qubits, controls, pattern and tags merge', same)
    _, tt, cc, tg = meaning(m)
    same_ctrl(h, 'merged', cc, list(zip(c, bits)))
    same_targets(h, 'merged', g, tt, t)
    h.true('merged: tags', tg == ttags)
    n = len(t)
    h.zero('merged gate', diff(spec(m.gate, n), mm(spec(g2, n), spec(g, n))))


def equal(h, kind, nc):
    """equality <=> same effect and tags, independent of listing order"""
    eng = eng_()
    g, t, c, bits = parts(h, kind, nc)
    diffk = h.choice('difference', ['none', 'gate', 'pattern', 'control', 'target', 'tags', 'fewer', 'values', 'role'])
    g2, t2, c2, b2, tg2 = g, [list(r) for r in t], list(c), bits, [ComputeTag()]
    if diffk == 'gate':
        g2 = ops.T if len(t) == 1 else ops.Rxx(1.0)
    elif diffk == 'pattern':
        if not nc:
            return
        k = h.choice('k', range(nc))
        b2 = bits[:k] + ('1' if bits[k] == '0' else '0') + bits[k + 1:]
    elif diffk in ('control', 'target'):
        if diffk == 'control' and not nc:
            return
        x = h.int('x', 0, 10 ** 6)
        distinct(h, [x] + [i for r in t for i in r] + c)
        if diffk == 'control':
            c2[h.choice('k', range(nc))] = x
        else:
            t2[h.choice('k', range(len(t)))] = [x]
    elif diffk == 'tags':
        tg2 = h.choice('tg', [[], [ComputeTag(), ComputeTag()], [DirtyQubitTag()], [ComputeTag(), DirtyQubitTag()]])
    elif diffk == 'values':
        b2 = ''.join(h.choice('value%d' % k, ['0', '1']) for k in range(nc))
    elif diffk == 'role':
        if not nc:
            return
        k, j = h.choice('k', range(nc)), h.choice('j', range(len(t)))
        c2[k], t2[j] = t[j][0], [c[k]]
    elif diffk == 'fewer':
        if not nc:
            return
        c2, b2 = c2[1:], b2[1:]
    same = diffk == 'none' or diffk == 'values' and b2 == bits
    if nc > 1 and h.bool('reversed'):
        c2, b2 = c2[::-1], b2[::-1]
    if g.interchangeable_qubit_indices and h.bool('swapped'):
        t2 = t2[::-1]
    x = build(eng, g, t, c, bits, [ComputeTag()])
    y = build(eng, g2, t2, c2, b2, tg2)
    h.true('equality', bool(x == y) == same, diffk)
    h.true('inequality', bool(x != y) != same, diffk)


def engines(h):
    e1, e2 = eng_(), eng_()
    i = h.int('i', 0, 100)
    a, b = build(e1, ops.X, [[i]], [], '', []), build(e2, ops.X, [[i]], [], '', [])
    h.true('commands of different engines differ', not (a == b))
    a.engine = e2
    h.true('changing the engine changes it for all qubits', all(q.engine is e2 for r in a.all_qubits for q in r))
    h.true('now equal', a == b)


def looptags(h):
    n = h.int('n', 0, 5)
    a, b = LoopTag(n), LoopTag(n)
    h.true('loop tags of different loops differ', not (a == b))
    h.true('loop tag equals itself', a == copy(a))
    i, j = h.int('i', 0, 9), h.int('j', 0, 9)
    h.true('logical id tags', bool(LogicalQubitIDTag(i) == LogicalQubitIDTag(j)) == bool(i == j))


def cases(tier):
    top = 5 if tier == 'thorough' else 4
    for k in KINDS:
        for nc in range(top if KINDS[k][0] == 1 else top - 1):
            if nc == 4 and k not in ('Rx', 'H') or nc == 3 and top == 4 and k != 'S':
                continue
            yield Case('keep/%s/%d' % (k, nc), keep, dict(kind=k, nc=nc), weight=nc, max_paths=20000)
            if nc < 3:
                yield Case('merge/%s/%d' % (k, nc), merge, dict(kind=k, nc=nc), weight=nc, max_paths=20000, thin_eq=2, thin_wrap=0)
                yield Case('equal/%s/%d' % (k, nc), equal, dict(kind=k, nc=nc), weight=nc, max_paths=20000, thin_eq=2, thin_wrap=0)
    yield Case('engines', engines)
    yield Case('looptags', looptags)
