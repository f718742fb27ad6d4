"""Small program trees with meta blocks: executed by the real library and, independently, by the reference semantics.

nodes:
 ('g', gate, (wires...))                gate on wires
 ('ctrl', (wires), state, body)         Control block (state None = default)
 ('dag', body)                          Dagger block
 ('cmp', cbody, abody, custom)          Compute / action / Uncompute (custom: CustomUncompute)
 ('cmpanc', w, cbody, abody)            helper w allocated inside Compute, used in the action, released by Uncompute
 ('loop', n, body)                      Loop block
 ('anc', w, body)                       helper w allocated, used by body, released
"""
from . import quantum as Q


def reference(h, s, body, ctr=(), cs='', inverse=False):
    """apply the tree to State s by definition"""
    from projectq import ops
    for node in (reversed(body) if inverse else body):
        k = node[0]
        if k == 'g':
            m = Q.spec_matrix(node[1], len(node[2]))
            if inverse:
                m = Q.dagger(m)
            s.apply(m, list(node[2]), list(ctr), cs)
        elif k == 'ctrl':
            st = node[2] if node[2] is not None else '1' * len(node[1])
            reference(h, s, node[3], tuple(ctr) + tuple(node[1]), cs + st, inverse)
        elif k == 'dag':
            reference(h, s, node[1], ctr, cs, not inverse)
        elif k == 'cmp':
            reference(h, s, node[1], ctr, cs, False)
            reference(h, s, node[2], ctr, cs, inverse)
            reference(h, s, node[1], ctr, cs, True)
        elif k == 'cmpanc':
            s.alloc(node[1])
            reference(h, s, node[2], ctr, cs, False)
            reference(h, s, node[3], ctr, cs, inverse)
            reference(h, s, node[2], ctr, cs, True)
            s.dealloc(node[1])
        elif k == 'loop':
            for _ in range(node[1]):
                reference(h, s, node[2], ctr, cs, inverse)
        elif k == 'anc':
            s.alloc(node[1])
            reference(h, s, node[2], ctr, cs, inverse)
            s.dealloc(node[1])
        else:
            raise AssertionError(k)


def execute(eng, body, w):
    """run the tree with the real library; w: wire name -> qubit"""
    from projectq.meta import Compute, Control, CustomUncompute, Dagger, Loop, Uncompute
    for node in body:
        k = node[0]
        if k == 'g':
            qs = [w[x] for x in node[2]]
            n = type(node[1]).__name__
            if n in ('Swap', 'SwapGate', 'SqrtSwapGate', 'Rzz', 'Rxx', 'Ryy'):
                node[1] | tuple(qs)
            elif n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
                node[1] | (qs[:-1], qs[-1])
            else:
                node[1] | (qs[0] if len(qs) == 1 else qs)
        elif k == 'ctrl':
            qs = [w[x] for x in node[1]]
            args = {} if node[2] is None else dict(ctrl_state=node[2])
            with Control(eng, qs, **args):
                del qs
                execute(eng, node[3], w)
        elif k == 'dag':
            with Dagger(eng):
                execute(eng, node[1], w)
        elif k == 'cmp':
            with Compute(eng):
                execute(eng, node[1], w)
            execute(eng, node[2], w)
            if node[3]:
                with CustomUncompute(eng):
                    execute(eng, [('dag', node[1])], w)
            else:
                Uncompute(eng)
        elif k == 'cmpanc':
            with Compute(eng):
                a = eng.allocate_qubit()
                w[node[1]] = a[0]
                execute(eng, node[2], w)
            execute(eng, node[3], w)
            Uncompute(eng)
            del w[node[1]]
            assert a[0].id == -1, 'helper qubit still alive after Uncompute'
        elif k == 'loop':
            with Loop(eng, node[1]):
                execute(eng, node[2], w)
        elif k == 'anc':
            a = eng.allocate_qubit()
            w[node[1]] = a[0]
            execute(eng, node[2], w)
            del w[node[1]]
            a[0].__del__()
            del a
        else:
            raise AssertionError(k)


def unroll(cmds):
    """commands with LoopTags -> plain list (outermost loop = last LoopTag)"""
    from projectq.meta import LoopTag

    def tags(c):
        return [t for t in c.tags if isinstance(t, LoopTag)]

    def rec(items):
        # items: (cmd, [remaining loop tags outermost last])
        out = []
        i = 0
        while i < len(items):
            c, t = items[i]
            if not t:
                out.append(c)
                i += 1
                continue
            top = t[-1]
            j = i
            group = []
            while j < len(items) and items[j][1] and items[j][1][-1] == top:
                group.append((items[j][0], items[j][1][:-1]))
                j += 1
            inner = rec(group)
            for _ in range(top.num):
                out.extend(inner)
            i = j
        return out
    return rec([(c, tags(c)) for c in cmds])


def repeats(body, ctr=()):
    """whether the program itself conditions something on the same qubit twice"""
    for node in body:
        if node[0] == 'ctrl':
            if set(ctr) & set(node[1]) or repeats(node[3], ctr + tuple(node[1])):
                return True
        else:
            if any(repeats(x, ctr) for x in node[1:] if isinstance(x, list)):
                return True
    return False


def compare(h, body, nq, label='block', loop_support=False, check_extra=None, swap_ids=False):
    """execute, then compare with the reference on all basis states of nq wires"""
    from projectq import ops
    eng, rec = Q.engine()
    if loop_support:
        from projectq.meta import LoopTag
        rec.is_meta_tag_handler = lambda tag: tag == LoopTag
    q = [eng.allocate_qubit()[0] for _ in range(nq)]
    if swap_ids:
        q = q[::-1]
    rec.cmds.clear()
    first = eng.next_engine
    execute(eng, body, {'q%d' % i: x for i, x in enumerate(q)})
    h.true(label + ': engines inserted by the blocks are removed again', eng.next_engine is first)
    cmds = unroll(rec.cmds)
    again = repeats(body)
    alive = {x.id for x in q}
    used = set()
    for c in cmds:
        if isinstance(c.gate, (ops.AllocateQubitGate, ops.DeallocateQubitGate)):
            h.true(label + ': allocation and release are not conditioned', not c.control_qubits)
            i = c.qubits[0][0].id
            if isinstance(c.gate, ops.AllocateQubitGate):
                h.true(label + ': helper allocated once', i not in alive and (loop_support or i not in used))
                alive.add(i)
                used.add(i)
            else:
                h.true(label + ': helper released once', i in alive)
                alive.discard(i)
        else:
            h.true(label + ': only live qubits are used', all(x.id in alive for r in c.all_qubits for x in r))
            used_ids = [x.id for r in c.all_qubits for x in r]
            h.true(label + ': every qubit occurs once in an operation', again or len(set(used_ids)) == len(used_ids), str(used_ids))
    h.true(label + ': all helpers released', alive == {x.id for x in q})
    h.true(label + ': active qubits', {x.id for x in eng.active_qubits} == {x.id for x in q})
    ids = [x.id for x in q]
    got = Q.State(ids)
    Q.Runner(h, got).run(cmds)
    want = Q.State(['q%d' % i for i in range(nq)])
    reference(h, want, body)
    want.wires = [ids[int(x[1:])] for x in want.wires]
    h.zero(label, Q.residual(got, want))
    if check_extra is not None:
        check_extra(cmds, ids)


# ------------------------------------------------------------------ fragment generators
def leaves(h, s, wires, full=True):
    """a fragment of plain operations with symbolic parameters; wires: list of names (>= 2)"""
    from projectq import ops
    a, b = wires[0], wires[1]
    opts = ['ry', 'ph', 'nonsym', 'cx', 'neg', 'anc']
    k = h.choice('leaf' + s, opts)
    if k == 'ry':
        return [('g', ops.Ry(h.angle('a' + s)), (a,)), ('g', ops.R(h.angle('b' + s)), (b,))]
    if k == 'ph':
        return [('g', ops.Ph(h.angle('a' + s)), (a,)), ('g', ops.H, (b,))]
    if k == 'nonsym':
        return [('g', ops.T, (a,)), ('g', ops.T, (a,)), ('g', ops.SqrtX, (a,)), ('g', ops.UniformlyControlledRy([h.angle('a' + s), h.angle('b' + s)]), (a, b))]
    if k == 'cx':
        return [('ctrl', (a,), None, [('g', ops.X, (b,))]), ('g', ops.Rx(h.angle('a' + s)), (a,)), ('g', ops.Swap, (a, b))]
    if k == 'neg':
        return [('ctrl', (b,), '0', [('g', ops.Ry(h.angle('a' + s)), (a,)), ('g', ops.Ph(h.angle('b' + s)), (a,))])]
    w = 'x' + s
    return [('anc', w, [('ctrl', (a,), None, [('g', ops.X, (w,))]), ('g', ops.R(h.angle('a' + s)), (w,)),
                        ('ctrl', (w,), None, [('g', ops.Ry(h.angle('b' + s)), (b,))]),
                        ('ctrl', (a,), None, [('g', ops.X, (w,))])])]


def block(h, s, kind, wires, inner):
    """wrap fragment `inner` (list) in a block of the given kind; wires: extra control wires available"""
    from projectq import ops
    if kind == 'plain':
        return list(inner)
    if kind == 'ctrl':
        st = h.choice('state' + s, ['1', '0'])
        return [('ctrl', (wires[-1],), st, inner)]
    if kind == 'dag':
        return [('dag', inner)]
    if kind == 'loop':
        return [('loop', h.choice('n' + s, [0, 1, 2, 3]), inner)]
    if kind == 'compute':
        return [('cmp', inner, [('g', ops.Rx(h.angle('act' + s)), (wires[0],))], h.bool('custom' + s))]
    if kind == 'action':
        return [('cmp', [('g', ops.Ry(h.angle('com' + s)), (wires[0],)), ('ctrl', (wires[0],), None, [('g', ops.X, (wires[1],))])], inner, False)]
    if kind == 'cmpanc':
        w = 'y' + s
        return [('cmpanc', w, [('ctrl', (wires[0],), None, [('g', ops.X, (w,))])] + inner, [('ctrl', (w,), None, [('g', ops.Ry(h.angle('act' + s)), (wires[2],))])])]
    raise AssertionError(kind)


KINDS = ['plain', 'ctrl', 'dag', 'loop', 'compute', 'action', 'cmpanc']


def wire_names(kinds):
    n = 2 + bool(set(kinds) & {'ctrl', 'cmpanc'}) + (set(kinds) >= {'ctrl', 'cmpanc'})
    return ['q%d' % i for i in range(n)]


def nested(h, kinds, prefix=True):
    """innermost kind first; returns (tree, number of wires)"""
    ws = wire_names(kinds)
    frag = leaves(h, '1', ['q0', 'q1'])
    for i, k in enumerate(kinds):
        if i % 2:
            frag = block(h, str(i + 2), k, ['q1', 'q0'] + ws[2:], frag)
        else:
            frag = block(h, str(i + 2), k, ws, frag)
    return frag, len(ws)
