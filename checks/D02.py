"""arb1qubit2rzandry / carb1qubit2cnotrzandry on arbitrary unitaries."""
from projectq.cengines import AutoReplacer, DecompositionRuleSet, InstructionFilter
from projectq.meta import Control
import projectq.setups.decompositions as dec
from projectq.setups.decompositions import arb1qubit2rzandry, carb1qubit2cnotrzandry

from vf import progs
from vf.hlib import *
from vf.runner import Case

BOUNDS = dict(quick='U(2) matrices [[e^ia cos t, -e^ib sin t], [e^ig sin t, e^i(b+g-a) cos t]] with symbolic t in [0, pi/2] and symbolic a, b, g '
                    'within (-pi, pi) (families with any subset symbolic), 0 or 1 control (positive or negative), 18 families; paths on which up to 3 '
                    'tolerance tests hold exactly; time budget per family; nearly diagonal matrices at listed angles', thorough='longer budgets')
OUTSIDE = ('matrices within 1e-7 of a tolerance boundary but not on it (only the listed nearly diagonal ones); families whose path tree is not finished '
           'within the budget are reported as inconclusive in the evidence')


def matrix(h, kind):
    pi = math.pi
    al, be, ga = [h.angle(n, -3.1415926, 3.1415926) if n[0] in kind else 0.0 for n in ('a', 'b', 'g')]
    if 't' in kind:
        th = h.angle('t', 0.0, 1.5707963)
        c, s = Q.cos(th), Q.sin(th)
    elif 'd' in kind:
        c, s = 1.0, 0.0
    else:
        c, s = 0.0, 1.0
    e = lambda x: Q.cexp(x)
    return Q.mat([[e(al) * c, e(be) * s * -1.0], [e(ga) * s, e(be + ga - al) * c]])


def unitary(h, kind, nctrl):
    check(h, matrix(h, kind), nctrl)


def check(h, m, nctrl):
    rs = DecompositionRuleSet(modules=[dec.controlstate, arb1qubit2rzandry if nctrl == 0 else carb1qubit2cnotrzandry])
    st = [False]
    g = ops.MatrixGate(m)

    def avail(e, cmd):
        if isinstance(cmd.gate, ops.ClassicalInstructionGate):
            return True
        return cmd.gate is not g and not isinstance(cmd.gate, ops.MatrixGate)
    eng, rec = Q.engine([AutoReplacer(rs), InstructionFilter(avail)])
    q = [eng.allocate_qubit()[0] for _ in range(2)]
    rec.cmds.clear()
    neg = h.bool('negative control') if nctrl else False
    with Control(eng, [q[0]] if nctrl else [], **(dict(ctrl_state='0') if neg else {})):
        g | q[1]
    ids = [x.id for x in q]
    got, want = Q.State([x.id for x in q]), Q.State([x.id for x in q])
    for c in rec.cmds:
        h.true('only rotations, phases and CNOTs', type(c.gate).__name__ in ('Rz', 'Ry', 'Ph', 'XGate') and len(c.control_qubits) <= nctrl, str(c.gate) if not h.symbolic else '')
    Q.Runner(h, got).run(rec.cmds)
    want.apply(m, [q[1].id], [q[0].id] if nctrl else [], '0' if neg else '1' * nctrl)
    h.zero('unitary', Q.residual(got, want))


def nearly(h, nctrl):
    """nearly diagonal and nearly anti-diagonal matrices: the rotation angle must not be lost to rounding"""
    e = h.choice('exponent', list(range(1, 14)))
    g = h.choice('gate', [ops.Ry, ops.Rx])
    t = h.choice('offset', [0.0, 1.0, 2.0]) * math.pi + h.choice('factor', [1.0, -3.3, 7.7]) * 10.0 ** -e
    rest = h.choice('times', [0.0, 0.37])
    check(h, Q.mat((np.asarray(g(t).matrix) @ np.asarray(ops.Rz(rest).matrix)).tolist()), nctrl)


def cases(tier):
    for n in (0, 1):
        yield Case('nearly/%d' % n, nearly, dict(nctrl=n))
        for k in ('d', 'o', 'da', 'oa', 't', 'ta', 'tb', 'tab', 'tabg'):
            yield Case('%d/%s' % (n, k), unitary, dict(kind=k, nctrl=n), split_q=True, fastthin=True, pool=32, thin_eq=3, thin_wrap=2, branch_ms=250, full_ms=5000,
                       budget=25 if tier == 'quick' else 400)
