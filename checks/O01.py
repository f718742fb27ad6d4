"""The local optimiser keeps the meaning of every circuit."""
from projectq.cengines import LocalOptimizer
from projectq.meta import Control

from vf import progs
from vf.hlib import *
from vf.runner import Case

DISCRETE = ('self', 'three fixed')
BOUNDS = dict(quick='all sequences of 3 commands over six parametrised command alphabets and of 5 over two fixed ones (one-qubit rotations and fixed gates; two-qubit and mutually controlled '
                    'rotations; self-inverse gates and swaps; three qubits with negative controls, Toffoli and doubly controlled rotations; operators, time evolutions, matrix gates; '
                    'controlled phases) with independent symbolic parameters - so any of them may be an identity, inverse to or mergeable with another - '
                    'on 2-3 qubits, cache sizes 2 and 10 (2 and 3 for the fixed ones), an optional flush in the middle',
              thorough='sequences of 4 parametrised and 6 fixed commands, cache sizes 1 to 5 and 10')
OUTSIDE = 'longer dependency chains, more than 3 qubits'

ALPH = {
    'one': 'Rx0 Rz0 S0 Sdag0 Ph0 H0',
    'two': 'Rzz01 cRz01 cRz10 Rx0 Rx1',
    'self': 'CX01 CX10 X0 H1 Swap01 nX01',
    'three': 'CX01 cRx12 nRx12 CCX012 Rz1 CX20',
    'three fixed': 'CX01 CX12 nX12 CCX012 S1 H2',
    'three cc': 'ccRy012 Rz2 ccRy102 X0 H1 ccRz012',
    'ops': 'QOp01 TE01 M0 Rxx01 UCRy01',
    'ph': 'cPh01 cPh10 cR01 nPh01 Rx1 R0',
}


def command(h, name, k, q):
    """one symbolic command: (gate, target indices, control indices, control state)"""
    i = [int(c) for c in name if c.isdigit()]
    n = name.rstrip('0123456789')
    a = lambda: h.angle('a%d' % k, 0, 6.2831 if n.endswith(('Ph', 'R')) else 12.5662)  # noqa: E731 (one period; normalisation is G01)
    if n in ('Rx', 'Rz', 'Ph', 'R'):
        return getattr(ops, n)(a()), i, [], ''
    if n in ('S', 'Sdag', 'T', 'H', 'X'):
        return getattr(ops, n), i, [], ''
    if n in ('Rzz', 'Rxx'):
        return getattr(ops, n)(a()), i, [], ''
    if n == 'CX':
        return ops.X, i[1:], i[:1], '1'
    if n == 'nX':
        return ops.X, i[1:], i[:1], '0'
    if n == 'CCX':
        return ops.X, i[2:], i[:2], '11'
    if n == 'Swap':
        return ops.Swap, i, [], ''
    if n in ('ccRy', 'ccRz'):
        return getattr(ops, n[2:])(a()), i[2:], i[:2], '11'
    if n in ('cRz', 'cRx', 'cPh', 'cR', 'nRx', 'nPh'):
        return getattr(ops, n[1:])(a()), i[1:], i[:1], '1' if n[0] == 'c' else '0'
    if n == 'QOp':
        return ops.QubitOperator('X0 Z1', h.choice('c%d' % k, [1, 1j])), i, [], ''
    if n == 'TE':
        return ops.TimeEvolution(h.real('a%d' % k, -3, 3), ops.QubitOperator('X0 Z1', 0.75)), i, [], ''
    if n == 'M':
        return ops.MatrixGate(Q.rot(Q.Y2, a())), i, [], ''
    if n == 'UCRy':
        return ops.UniformlyControlledRy([a(), h.angle('b%d' % k, 0, 12.5662)]), i, [], ''
    raise AssertionError(name)


def send(eng, c, q):
    g, t, ctr, cs = c
    qs = [q[i] for i in t]
    n = type(g).__name__
    arg = (qs[:-1], qs[-1]) if n == 'UniformlyControlledRy' else tuple(qs) if n in ('Rxx', 'Rzz', 'SwapGate') else qs if len(qs) > 1 else qs[0]
    with Control(eng, [q[i] for i in ctr], **(dict(ctrl_state=cs) if ctr else {})):
        g | arg


def circuit(h, alph, first, cache, n, flush):
    names = [first] + [h.choice('g%d' % k, ALPH[alph].split()) for k in range(1, n)]
    at = n // 2 if flush and h.bool('flush') else None
    opt = LocalOptimizer(cache_size=cache)
    eng, rec = Q.engine([opt])
    nq = 3 if alph.startswith('three') else 1 if alph == 'one' else 2
    q = [eng.allocate_qubit()[0] for _ in range(nq)]
    eng.flush()
    ids = [x.id for x in q]
    h.true('allocations forwarded by a flush', [c.qubits[0][0].id for c in rec.cmds if isinstance(c.gate, ops.AllocateQubitGate)] == ids)
    rec.cmds.clear()
    want = Q.State(ids)
    for k in range(n):
        c = command(h, names[k], k, q)
        send(eng, c, q)
        t, ctr = [ids[i] for i in c[1]], [ids[i] for i in c[2]]
        if type(c[0]).__name__ == 'TimeEvolution':
            Q.apply_time_evolution(want, c[0], t, ctr, c[3])
        else:
            want.apply(Q.spec_matrix(c[0], len(t)), t, ctr, c[3])
        if at == k:
            eng.flush()
            check(h, rec.cmds, ids, want, 'after flush')
    eng.flush()
    check(h, rec.cmds, ids, want, 'circuit')
    h.true('flush is forwarded after everything else', isinstance(rec.cmds[-1].gate, ops.FlushGate))
    k = len(rec.cmds)
    eng.flush()
    h.true('nothing is sent twice', len(rec.cmds) == k + 1)
    h.true('no more operations than before', sum(1 for c in rec.cmds if not isinstance(c.gate, ops.FlushGate)) <= n)


def check(h, cmds, ids, want, label):
    got = Q.State(ids)
    Q.Runner(h, got).run(cmds)
    h.zero(label, Q.residual(got, want))


def cases(tier):
    for alph, names in ALPH.items():
        for first in names.split():
            n = (5 if tier == 'quick' else 6) if alph in DISCRETE else 3 if tier == 'quick' else 4
            for cache in ((2, 3) if alph in DISCRETE else (2, 10)) if tier == 'quick' else (1, 2, 3, 4, 5, 10):
                yield Case('%s/%s/%d' % (alph, first, cache), circuit, dict(alph=alph, first=first, cache=cache, n=n, flush=cache in (3, 10)),
                           thin_eq=2, thin_wrap=1, witnesses=2, budget=40 if tier == 'quick' else 600)
