"""Every decomposition rule, one step at a time: the replacement acts like the original operation."""
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.meta import Control
import projectq.setups.decompositions as dec
from projectq.setups.decompositions import arb1qubit2rzandry, carb1qubit2cnotrzandry, cnu2toffoliandcu, controlstate

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='every applicable rule (forward or inverse, chosen by a free choice) of the complete built-in set for every gate family with symbolic '
                    'angles, 0-3 controls of either sign, two qubit orders; the generic one-qubit, controlled one-qubit and multi-controlled rules on '
                    'their own for every gate with 0-4 controls, nine gates with up to 7; exact up to a global phase on all basis states of up to 6 qubits plus helpers',
              thorough='4 controls for every gate, all qubit orders')
OUTSIDE = 'registers larger than 3, more controls; with more than 4 controls only the last 3 have both signs; tolerance-boundary inputs (see D02)'
MODULES = dict(arb1=[arb1qubit2rzandry], carb1=[carb1qubit2cnotrzandry, arb1qubit2rzandry], cnu=[cnu2toffoliandcu])


def place(g, qs):
    """argument of the | operator"""
    n = type(getattr(g, '_gate', g)).__name__
    if n in ('SwapGate', 'SqrtSwapGate', 'Rxx', 'Ryy', 'Rzz'):
        return tuple(qs)
    if n in ('UniformlyControlledRy', 'UniformlyControlledRz'):
        return (qs[:-1], qs[-1])
    return qs[0] if len(qs) == 1 else qs


def rule(h, name, nctrl, modules, orders, free=4):
    nq, mk = gate_makers()[name]
    g = mk(h, '')
    n = nq + nctrl
    cs = ''.join(h.choice('c%d' % i, '10') if i >= nctrl - free else '1' for i in range(nctrl))
    order = h.choice('order', orders)
    state = {'done': False, 'first': True}

    def chooser(cmd, lst):
        i = h.choice('rule', range(len(lst)))
        state['done'] = True
        return lst[i]

    def avail(e, cmd):
        if state['done'] or isinstance(cmd.gate, ops.ClassicalInstructionGate):
            return True
        return not {x.id for r in cmd.qubits for x in r} <= targets or type(cmd.gate) is not kind
    rs = DecompositionRuleSet(modules=[dec] if modules == 'all' else [controlstate] + MODULES[modules])
    eng, rec = Q.engine([AutoReplacer(rs, chooser), InstructionFilter(avail)])
    q = [eng.allocate_qubit()[0] for _ in range(n)]
    ids = [x.id for x in q]
    rec.cmds.clear()
    if order == 'rev':
        q = q[::-1]
    elif order == 'mix':
        q = q[1:] + q[:1]
    ctr, tgt = q[:nctrl], q[nctrl:]
    if order == 'ctrl last':
        tgt, ctr = q[:nq], q[nq:]
    targets, kind = {x.id for x in tgt}, type(g)
    with Control(eng, ctr, **(dict(ctrl_state=cs) if nctrl else {})):
        g | place(g, tgt)
    h.true('a rule was used', state['done'])
    got, want = Q.State(ids), Q.State(ids)
    live = set(ids)
    for c in rec.cmds:
        if isinstance(c.gate, ops.AllocateQubitGate):
            live.add(c.qubits[0][0].id)
        h.true('only live qubits', all(x.id in live for r in c.all_qubits for x in r))
        if isinstance(c.gate, ops.DeallocateQubitGate):
            live.discard(c.qubits[0][0].id)
    h.true('helpers released', live == set(ids) and len(eng.active_qubits) == n)
    Q.Runner(h, got).run(rec.cmds)
    if name.startswith('TimeEvolution'):
        Q.apply_time_evolution(want, g, [x.id for x in tgt], [x.id for x in ctr], cs)
    else:
        m = spec(g, nq)
        if name.startswith('QFT') and modules == 'all':      # the rule leaves out the final swaps (a documented relabelling)
            m = m[[int(format(i, '0%db' % nq)[::-1], 2) for i in range(1 << nq)]]
        want.apply(m, [x.id for x in tgt], [x.id for x in ctr], cs)
    h.zero('replacement', Q.residual(got, want, phase=True))


def applicable(name, nctrl):
    """does the complete rule set have a rule to offer?"""
    nq = gate_makers()[name][0]
    if name.startswith(('Entangle', 'QFT', 'Swap', 'SqrtSwap', 'Uniformly', 'QubitOperator', 'TimeEvolution', 'Barrier', 'Dag(E', 'Dag(SqrtSwap')):
        return not (nctrl and name.startswith(('Barrier',)))
    if name.startswith('FlipBits'):
        return False     # applies its X gates directly
    if nq == 1:
        return name not in ('MatrixPhase',)
    return nctrl >= 2


def cases(tier):
    mk = gate_makers()
    o2, o3 = ['asc', 'rev'], ['asc', 'rev', 'mix', 'ctrl last']
    for name, (nq, _) in mk.items():
        for nctrl in range(0, 4):
            if nq + nctrl > (5 if tier == 'quick' else 6) or not applicable(name, nctrl):
                continue
            yield Case('all/%s/%d' % (name, nctrl), rule, dict(name=name, nctrl=nctrl, modules='all', orders=o2 if tier == 'quick' else o3),
                       weight=1 << nctrl, budget=60 if tier == 'quick' else 600, pin_root=True)
    for name, (nq, _) in mk.items():
        if name.startswith('FlipBits'):
            continue
        for mod, cs in (('arb1', [0]), ('carb1', [1]), ('cnu', [2, 3, 4])):
            if mod != 'cnu' and (nq > 1 or name in ROT1 + ['MatrixPhase'] or name.startswith('TimeEv')):
                continue
            for nctrl in cs:
                if nq + nctrl > 5 or (name, nctrl) == ('X', 2) or name == 'MatrixPhase' and tier == 'quick':
                    continue
                yield Case('%s/%s/%d' % (mod, name, nctrl), rule, dict(name=name, nctrl=nctrl, modules=mod, orders=['asc', 'mix'] if name != 'MatrixPhase' else ['mix']),
                           weight=1 << nctrl, budget=60 if tier == 'quick' else 600, pin_root=True)
    for name in ('X', 'Z', 'H', 'Rz', 'S', 'Ph', 'Swap', 'Rx', 'T'):
        for nctrl in (5, 6, 7) if tier == 'quick' else (5, 6, 7, 8):
            for mod in ('cnu', 'all'):
                if name in mk and (nctrl < 6 or mod == 'cnu' and name != 'Swap'):
                    yield Case('%s/%s/%d' % (mod, name, nctrl), rule, dict(name=name, nctrl=nctrl, modules=mod, orders=['mix'], free=3), weight=8, budget=60 if tier == 'quick' else 600, pin_root=True)
