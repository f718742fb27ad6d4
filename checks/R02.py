"""The automatic replacer: which rule is used, and what happens to everything else."""
from projectq.cengines import (AutoReplacer, BasicEngine, CommandModifier, DecompositionRule, DecompositionRuleSet, InstructionFilter)
from projectq.meta import Compute, ComputeTag, Control, Dagger, DirtyQubitTag, Uncompute, UncomputeTag
from projectq.setups.decompositions import controlstate

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='a three-level gate class hierarchy with an inverse in another three-level hierarchy, any subset of six rules registered for those '
                    'classes, every rule accepting by a comparison of the symbolic gate parameter with its own symbolic threshold; forward and inverse '
                    'use, negative and positive controls, tags, compute sections inside rules, two-step replacement, partial support by symbolic '
                    'parameter; one or two commands', thorough='all rule subsets with two rules per class')
OUTSIDE = 'recognisers with side effects'


class Base(ops.BasicGate):
    def __init__(self, a):
        super().__init__()
        self.a = a

    def __eq__(self, other):
        return type(self) is type(other)

    def __hash__(self):
        return 1

    def __str__(self):
        return type(self).__name__


class Mid(Base):
    pass


class Leaf(Mid):
    def get_inverse(self):
        return ILeaf(-self.a)


class IBase(Base):
    pass


class IMid(IBase):
    pass


class ILeaf(IMid):
    def get_inverse(self):
        return Leaf(-self.a)


class Mark(Base):
    def __init__(self, name, a=0, inv=False):
        super().__init__(a)
        self.name, self.inv = name, inv

    def get_inverse(self):
        return Mark(self.name, -self.a, not self.inv)

    def __str__(self):
        return self.name


RULES = [('Leaf', Leaf), ('Mid', Mid), ('Base', Base), ('ILeaf', ILeaf), ('IMid', IMid), ('IBase', IBase)]


def make_rule(h, name, cls, thr, log, compute=False):
    def recog(cmd):
        return cmd.gate.a > thr

    def decomp(cmd):
        log.append(name)
        with Control(cmd.engine, cmd.control_qubits):
            if compute:
                with Compute(cmd.engine):
                    Mark(name + '0') | cmd.qubits[0]
            Mark(name + '1', cmd.gate.a) | cmd.qubits[0]
            Mark(name + '2', cmd.gate.a) | cmd.qubits[0]
            if compute:
                Uncompute(cmd.engine)
    return DecompositionRule(cls, decomp, recog)


def selection(h, gate, present, dup=None):
    a = h.real('a', -2, 2)
    log, offered = [], []
    thr = {n: h.real('t' + n, -3, 3) for n in present}
    rules = [make_rule(h, n, c, thr[n], log) for n, c in RULES if n in present]
    if dup:
        thr['dup'] = h.real('tdup', -3, 3)
        rules.append(make_rule(h, 'dup', dict(RULES)[dup], thr['dup'], log))
    rs = DecompositionRuleSet(rules=rules)
    before = {k: list(map(id, v)) for k, v in rs.decompositions.items()}

    def chooser(cmd, lst):
        offered.append(len(lst))
        return lst[h.choice('pick', range(len(lst))) if len(lst) > 1 else 0]
    rep = AutoReplacer(rs, chooser)
    eng, rec = Q.engine([rep, InstructionFilter(lambda e, c: not isinstance(c.gate, (Leaf, ILeaf)))])
    q = eng.allocate_qureg(2)
    rec.cmds.clear()
    neg = h.bool('control')
    fwd = {'Leaf': ['Leaf', 'Mid', 'Base'], 'ILeaf': ['ILeaf', 'IMid', 'IBase', 'Base']}[gate]
    inv = {'Leaf': ['ILeaf', 'IMid', 'IBase', 'Base'], 'ILeaf': ['Leaf', 'Mid', 'Base']}[gate]

    def expected():
        for lvl in range(4):
            ok = []
            for lst, sgn in ((fwd, 1), (inv, -1)):
                if lvl < len(lst):
                    for n in [lst[lvl]] + (['dup'] if dup == lst[lvl] else []):
                        if n in thr and bool(a * sgn > thr[n]):
                            ok.append((n, sgn))
                if ok:
                    return ok
        return []
    want = expected()
    g = {'Leaf': Leaf, 'ILeaf': ILeaf}[gate](a)

    def run():
        with Control(eng, q[1:] if neg else []):
            g | q[0]
    if not want:
        rejects(h, 'no applicable rule: error', 'NoGateDecompositionError', run)
        h.true('nothing was passed on', rec.cmds == [])
        return
    run()
    h.true('one rule used', len(log) == 1, log)
    h.true('every rule offered is applicable at the most specific level, all of those are offered', offered == [len(want)])
    used = [w for w in want if w[0] == log[0]]
    h.true('the rule used is applicable', used, log)
    n, sgn = used[0]
    out = [(c.gate.name, c.gate.inv, c.gate.a, len(c.control_qubits), [x.id for x in c.qubits[0]]) for c in rec.cmds]
    seq = [n + '1', n + '2']
    h.true('replacement circuit, inverted for an inverse rule', [o[0] for o in out] == seq[::sgn] and all(o[1] == (sgn < 0) for o in out))
    h.zero('parameters', [o[2] - a for o in out])
    h.true('operands', all(o[3] == neg and o[4] == [q[0].id] for o in out))
    h.true('rule set not modified', before == {k: list(map(id, v)) for k, v in rs.decompositions.items()})


def supported(h):
    """what the rest of the pipeline supports is left untouched, the rest replaced, in order"""
    a, b, lim = h.real('a', -1, 1), h.real('b', -1, 1), h.real('limit', -1, 1)
    log = []
    rs = DecompositionRuleSet(rules=[make_rule(h, 'Leaf', Leaf, -5, log), make_rule(h, 'Base', Base, -5, log)])
    eng, rec = Q.engine([AutoReplacer(rs), InstructionFilter(lambda e, c: c.gate.a < lim if isinstance(c.gate, (Leaf, Mid)) and not isinstance(c.gate, Mark) else True)])
    q = eng.allocate_qureg(2)
    rec.cmds.clear()
    g1, g2 = Leaf(a), Mid(b)
    g1 | q[0]
    g2 | q[1]
    eng.flush()
    want = []
    for n, v, i, g in (('Leaf', a, 0, g1), ('Base', b, 1, g2)):
        if v < lim:
            want.append((type(g).__name__, i))
        else:
            want += [(n + '1', i), (n + '2', i)]
    got = [(str(c.gate), {x.id: k for k, x in enumerate(q)}[c.qubits[0][0].id]) for c in rec.cmds if not isinstance(c.gate, ops.FlushGate)]
    h.true('supported operations unchanged, others replaced', got == want, (got, want))
    h.true('flush forwarded last', isinstance(rec.cmds[-1].gate, ops.FlushGate) and rec.flushes == 1)


class T1:
    def __eq__(self, o):
        return type(o) is T1


class T2(T1):
    def __eq__(self, o):
        return type(o) is T2


def tags(h):
    """tags of the replaced operation are carried over to every replacement operation (also through two replacements)"""
    log = []
    steps = h.choice('steps', [1, 2])
    sgn = h.bool('inverse')

    def inner(cmd):
        Mark('x') | cmd.qubits[0]
        with Compute(cmd.engine):
            Mark('y') | cmd.qubits[0]
        Mark('z') | cmd.qubits[0]
        Uncompute(cmd.engine)
    rules = [make_rule(h, 'Leaf', Leaf, -5, log, compute=True)]
    if steps == 2:
        rules.append(DecompositionRule(Mark, inner, lambda c: c.gate.name == 'Leaf1' and not c.gate.inv))
    tg = [t for t, k in ((T1(), 'T1'), (T2(), 'T2')) if h.bool(k)]

    def tagger(cmd):
        cmd.tags = list(tg) + cmd.tags
        return cmd
    eng, rec = Q.engine([CommandModifier(tagger), AutoReplacer(DecompositionRuleSet(rules=rules)),
                         InstructionFilter(lambda e, c: not isinstance(c.gate, (Leaf, ILeaf)) and not (steps == 2 and str(c.gate) == 'Leaf1'))])
    q = eng.allocate_qureg(1)
    rec.cmds.clear()
    if sgn:
        with Dagger(eng):
            Leaf(0.5) | q[0]
    else:
        Leaf(0.5) | q[0]
    n = len(tg)
    h.true('tags carried over to every replacement operation', all(c.tags[:n] == tg for c in rec.cmds), [(str(c.gate), c.tags) for c in rec.cmds])
    rest = [(str(c.gate), [type(t).__name__ for t in c.tags[n:]]) for c in rec.cmds]
    mid = [('Leaf1', [])] if steps == 1 else [('x', []), ('y', ['ComputeTag']), ('z', []), ('y', ['UncomputeTag'])]
    want = [('Leaf0', ['ComputeTag'])] + mid + [('Leaf2', []), ('Leaf0', ['UncomputeTag'])]
    if sgn:
        names = [r[0] for r in rest]
        h.true('order', names == [w[0] for w in want][::-1], names)
    else:
        h.true('tags of sections inside the rule are added', rest == want, rest)


def negative(h):
    """a negatively controlled operation gets its controls made positive first, when that rule is present and only if needed"""
    log = []
    with_rule = h.bool('with rule')
    rs = DecompositionRuleSet(rules=[make_rule(h, 'Leaf', Leaf, -5, log)], modules=[controlstate] if with_rule else None)
    sup = h.bool('supported')
    eng, rec = Q.engine([AutoReplacer(rs), InstructionFilter(lambda e, c: sup or not isinstance(c.gate, Leaf))])
    q = eng.allocate_qureg(3)
    rec.cmds.clear()
    cs = h.choice('s0', '01') + h.choice('s1', '01')
    with Control(eng, q[:2], ctrl_state=cs):
        Leaf(0.5) | q[2]
    ids = [x.id for x in q]
    seq = [(str(c.gate), c.qubits[0][0].id, [x.id for x in c.control_qubits], str(c.control_state)) for c in rec.cmds]
    if sup:
        want = [('Leaf', ids[2], ids[:2], cs)]
        h.true('supported command unchanged', seq == want, seq)
        return
    flips = [('X', ids[i], [], '') for i in range(2) if cs[i] == '0']
    if not with_rule:
        h.true('without that rule the controls are kept by the rule', [s[:3] for s in seq] == [('Leaf1', ids[2], ids[:2]), ('Leaf2', ids[2], ids[:2])], seq)
        return
    body = [s for s in seq if s[0] != 'X']
    k = len(flips)
    h.true('flips around the operation', sorted(seq[:k]) == flips and sorted(seq[len(seq) - k:]) == flips and len(seq) == 2 * k + 2, seq)
    h.true('operation positively controlled', body == [('Leaf1', ids[2], ids[:2], '11'), ('Leaf2', ids[2], ids[:2], '11')], seq)


def repeated(h):
    """the outcome does not depend on what was replaced before"""
    a = h.real('a', -2, 2)
    t = h.real('t', -2, 2)
    log, offered = [], []
    rs = DecompositionRuleSet(rules=[make_rule(h, 'ILeaf', ILeaf, t, log), make_rule(h, 'Mid', Mid, t, log)])

    def chooser(cmd, lst):
        offered.append(len(lst))
        return lst[-1]
    eng, rec = Q.engine([AutoReplacer(rs, chooser), InstructionFilter(lambda e, c: not isinstance(c.gate, (Leaf, ILeaf)))])
    q = eng.allocate_qureg(1)
    res = []
    for _ in range(3):
        rec.cmds.clear()
        try:
            Leaf(a) | q[0]
            res.append([(str(c.gate), c.gate.inv) for c in rec.cmds])
        except Exception as e:
            res.append(type(e).__name__)
    h.true('same replacement every time', res[0] == res[1] == res[2], res)
    h.true('same candidates every time', len(set(offered)) <= 1, offered)


def construction(h):
    rejects(h, 'instances are rejected', 'ThisIsNotAGateClassError', lambda: DecompositionRule(ops.X, lambda c: None))
    rejects(h, 'metaclasses are rejected', 'ThisIsNotAGateClassError', lambda: DecompositionRule(ops.X.__class__.__class__, lambda c: None))
    r = DecompositionRule(ops.XGate, lambda c: None)
    h.true('default recogniser accepts', r.gate_recognizer(None) is True)


def cases(tier):
    names = [n for n, _ in RULES]
    for gate in ('Leaf', 'ILeaf'):
        for m in range(1 << len(names)):
            present = [n for i, n in enumerate(names) if m >> i & 1]
            if tier == 'quick' and len(present) > 3 and len(present) < 6:
                continue
            yield Case('selection/%s/%s' % (gate, '+'.join(present) or 'none'), selection, dict(gate=gate, present=present))
        for dup in ('Leaf', 'Base', 'ILeaf', 'IMid'):
            for present in ([dup], [dup, 'Leaf'], ['Mid', dup]) if tier == 'quick' else [[n for i, n in enumerate(names) if m >> i & 1] for m in range(64)]:
                yield Case('selection/%s/%s+%s' % (gate, '+'.join(present), dup), selection, dict(gate=gate, present=present, dup=dup))
    for f in (supported, tags, negative, repeated, construction):
        yield Case(f.__name__, f)
