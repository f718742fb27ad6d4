"""Harness for the back-ends of quantum devices: the job handed to the client is read back, the client's answer is an arbitrary table."""
import contextlib
import itertools
import json
import math
import random
import re

import numpy as np

from . import quantum as Q
from . import shims
from . import sym as S
from .engine import PathAbort

BOX = {}


class Device:
    """a back-end: how to make it, where its job goes, how the job reads, how an answer is written"""
    needs_mapper = True
    module = None

    def sent(self, info, **kw):
        BOX['jobs'].append(self.read(info, kw))
        return BOX['answer'](BOX['jobs'][-1])

    def retrieved(self, *a, **kw):
        BOX['retrieved'].append(kw)
        return BOX['answer'](None)


def number(x):
    """a parameter of a job: the value itself, or a printed value"""
    if isinstance(x, str):
        x = x.strip()
        m = re.fullmatch(r'(-?)SYM(\d+)', x)
        if m:
            v = S.TOKENS[int(m.group(2))]
            return -v if m.group(1) else v
        t = x.replace(' ', '')
        if re.fullmatch(r'-?(\d+\*)?pi(/\d+)?', t):
            return eval(t, {'pi': math.pi})
        return float(x)
    return x


def u3(theta, phi, lam):
    c, s = Q.cos(theta * 0.5), Q.sin(theta * 0.5)
    e = lambda v: Q.cexp(v)
    return Q.mat([[c, -1 * (e(lam) * s)], [e(phi) * s, e(phi + lam) * c]])


def named(name, params, n):
    """matrix of a named instruction on n target qubits"""
    from projectq import ops
    fixed = dict(x='X', y='Y', z='Z', h='H', s='S', t='T', v='SqrtX', swap='Swap', si='Sdag', ti='Tdag', sdg='Sdag', tdg='Tdag')
    if name in fixed:
        return Q.from_any(Q.spec_matrix(getattr(ops, fixed[name])))
    if name == 'vi':
        return Q.from_any(Q.dagger(Q.spec_matrix(ops.SqrtX)))
    rots = dict(rx='Rx', ry='Ry', rz='Rz', xx='Rxx', yy='Ryy', zz='Rzz', rxx='Rxx', ryy='Ryy', rzz='Rzz', X='Rx', Y='Ry', MS='Rxx', phaseshift='R')
    if name in rots:
        return Q.spec_matrix(getattr(ops, rots[name])(params[0]))
    if name == 'u1':
        return Q.mat([[1, 0], [0, Q.cexp(params[0])]])
    if name == 'u2':
        return u3(math.pi / 2, params[0], params[1])
    if name == 'u3':
        return u3(*params)
    raise KeyError(name)


class Op:
    """one instruction of a job"""

    def __init__(self, name, targets, controls=(), params=()):
        self.name, self.targets, self.controls, self.params = name, list(targets), list(controls), list(params)

    def __repr__(self):
        return '%s%s %s/%s' % (self.name, self.params or '', self.targets, self.controls)


class Job:
    def __init__(self, ops, nq, shots, device, measures=None, extra=None):
        self.ops, self.nq, self.shots, self.device, self.measures, self.extra = ops, nq, shots, device, measures, extra


# ---------------------------------------------------------------- the devices
def read_qasm(text):
    """instructions of an assembly text; measurements as (qubit, bit)"""
    out, meas, size = [], [], {}
    for line in text.split('\n'):
        line = line.strip()
        if not line:
            continue
        assert line.endswith(';'), line
        line = line[:-1]
        if line.startswith('OPENQASM') or line.startswith('include'):
            continue
        m = re.fullmatch(r'(qreg|creg) (\w)\[(\d+)\]', line)
        if m:
            size[m.group(2)] = int(m.group(3))
            continue
        m = re.fullmatch(r'measure q\[(\d+)\] -> c\[(\d+)\]', line)
        if m:
            meas.append((int(m.group(1)), int(m.group(2))))
            continue
        m = re.fullmatch(r'(\w+)(?:\(([^)]*)\))? (.*)', line)
        name, params, args = m.group(1), m.group(2), m.group(3)
        qs = [int(re.fullmatch(r'q\[(\d+)\]', a.strip()).group(1)) for a in args.split(',')]
        params = [number(p) for p in params.split(',')] if params else []
        k = 0
        while name.startswith('c') and name[1:] in ('x', 'z', 'cx', 'cz', 'y'):
            name, k = name[1:], k + 1
        out.append(Op(name, qs[k:], qs[:k], params))
    return out, meas, size


class IBM(Device):
    name = 'ibm'

    def load(self):
        import projectq.backends._ibm._ibm as m
        return m, m.IBMBackend

    def install(self, m):
        m.send, m.retrieve = self.sent, self.retrieved

    def read(self, info, kw):
        ops, meas = [], []
        for i in info['json']:
            n = i['name']
            if n == 'measure':
                meas.append((i['qubits'], i['memory']))
            elif n == 'cx':
                ops.append(Op('x', i['qubits'][1:], i['qubits'][:1]))
            else:
                ops.append(Op(n, i['qubits'], (), i.get('params', [])))
        return Job(ops, info['nq'], info['shots'], info['backend']['name'], [(a, b) for qs, ms in meas for a, b in zip(qs, ms)], kw)

    def gates(self):
        return ['h', 'rx', 'ry', 'rz', 'cx', 'barrier']

    def has(self, kind, nctrl):
        return (nctrl == 0 and kind in ('H', 'Rx', 'Ry', 'Rz', 'Barrier')) or (nctrl == 1 and kind == 'X')

    def answer(self, job, rows, weights, runs):
        """rows: tuples of bits by location"""
        return {'data': {'counts': {hex(sum(b << i for i, b in enumerate(r))): w for r, w in zip(rows, weights)}}}


class AQT(Device):
    name = 'aqt'
    needs_mapper = False

    def load(self):
        import projectq.backends._aqt._aqt as m
        return m, m.AQTBackend

    def install(self, m):
        m.send, m.retrieve = self.sent, self.retrieved

    def read(self, info, kw):
        text = re.sub(r'(?<!")(SYM\d+)', r'"\1"', info['circuit'])
        ops = [Op(n, q, (), [number(a)]) for n, a, q in json.loads(text)]
        return Job(ops, info['nq'], info['shots'], info['backend']['name'], None, kw)

    def gates(self):
        return ['rx', 'ry', 'rxx', 'barrier']

    def has(self, kind, nctrl):
        return nctrl == 0 and kind in ('Rx', 'Ry', 'Rxx', 'Barrier')


class IonQ(Device):
    name = 'ionq'

    def load(self):
        import projectq.backends._ionq._ionq as m
        return m, m.IonQBackend

    def install(self, m):
        m.http_client.send, m.http_client.retrieve = self.sent, self.retrieved

    def read(self, info, kw):
        ops = [Op(d['gate'], d['targets'], d.get('controls', ()), [d['rotation']] if 'rotation' in d else ()) for d in info['circuit']]
        return Job(ops, info['nq'], info['shots'], kw.get('device'), [(q, i) for i, q in enumerate(info['meas_mapped'])], info['meas_qubit_ids'])

    def gates(self):
        return ['x', 'y', 'z', 'h', 's', 'sdag', 't', 'tdag', 'sqrtx', 'swap', 'rx', 'ry', 'rz', 'rxx', 'ryy', 'rzz', 'cx', 'ccx']

    def has(self, kind, nctrl):
        if nctrl == 0:
            return kind in ('X', 'Y', 'Z', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX', 'Swap', 'Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'Barrier')
        return nctrl <= 7 and kind == 'X'

    def answer(self, job, rows, weights, runs):
        return {'output_probs': {str(sum(b << i for i, b in enumerate(r))): w for r, w in zip(rows, weights)}, 'meas_qubit_ids': BOX.get('ids'), 'meas_mapped': BOX.get('mapped'), 'nq': 3}


class Braket(Device):
    name = 'braket'
    needs_mapper = False
    which = 'SV1'

    def load(self):
        import projectq.backends._awsbraket._awsbraket as m
        return m, m.AWSBraketBackend

    def install(self, m):
        m.send, m.retrieve = self.sent, self.retrieved
        json.JSONEncoder.default = lambda self, o: str(o)

    def read(self, info, kw):
        d = json.loads(info['circuit'])
        assert d['braketSchemaHeader'] == {'name': 'braket.ir.jaqcd.program', 'version': '1'} and d['results'] == [] and d['basis_rotation_instructions'] == []
        ops = []
        for i in d['instructions']:
            n = i['type']
            tg = i['targets'] if 'targets' in i else [i['target']]
            ct = i['controls'] if 'controls' in i else [i['control']] if 'control' in i else []
            assert ('control' in i) == (n in ('cnot', 'cz', 'cy', 'cphaseshift', 'cswap')) and ('controls' in i) == (n == 'ccnot'), i
            assert ('targets' in i) == (n in ('swap', 'cswap')), i
            base = dict(cnot='x', ccnot='x', cz='z', cy='y', cphaseshift='phaseshift', cswap='swap').get(n, n)
            ops.append(Op(base, tg, ct, [number(i['angle'])] if 'angle' in i else ()))
            BOX['names'].append(n)
        return Job(ops, info['nq'], info['shots'], info['backend']['name'], None, kw)

    OFFERED = {'Aspen-8': 'cz ccnot cnot cphaseshift cswap h phaseshift rx ry rz s si swap t ti x y z',
               'IonQ Device': 'x y z rx ry rz h cnot s si t ti v vi swap',
               'SV1': 'cz ccnot cnot cphaseshift cswap h phaseshift rx ry rz s si swap t ti x y z v vi cy'}
    NAMES = dict(x=('X', 0), y=('Y', 0), z=('Z', 0), h=('H', 0), s=('S', 0), si=('Sdag', 0), t=('T', 0), ti=('Tdag', 0), swap=('Swap', 0), rx=('Rx', 0), ry=('Ry', 0), rz=('Rz', 0), phaseshift=('R', 0),
                 v=('SqrtX', 0), cnot=('X', 1), ccnot=('X', 2), cz=('Z', 1), cy=('Y', 1), cphaseshift=('R', 1), cswap=('Swap', 1))

    def gates(self):
        g = ['x', 'y', 'z', 'h', 's', 'sdag', 't', 'tdag', 'swap', 'rx', 'ry', 'rz', 'cx']
        if self.which != 'Aspen-8':
            g += ['sqrtx']
        if self.which != 'IonQ Device':
            g += ['r', 'cz', 'cr', 'cswap', 'ccx']
        if self.which == 'SV1':
            g += ['cy']
        return g

    def has(self, kind, nctrl):
        return kind == 'Barrier' and nctrl == 0 or any(self.NAMES.get(n) == (kind, nctrl) for n in self.OFFERED[self.which].split())

    def options(self):
        return dict(use_hardware=True, device=self.which)

    def answer(self, job, rows, weights, runs):
        return {''.join(map(str, r)): w for r, w in zip(rows, weights)}


class Azure(Device):
    name = 'azure'
    which = 'ionq'

    def load(self):
        import projectq.backends._azure._azure_quantum as m

        class Workspace:
            name = 'w'

            def append_user_agent(self, s):
                pass
        self.workspace = Workspace()
        return m, m.AzureQuantumBackend

    def options(self):
        return dict(workspace=self.workspace, target_name='ionq.simulator' if self.which == 'ionq' else 'quantinuum.qpu.h1-1', use_hardware=True)

    def install(self, m):
        dev = self

        class Target:
            current_availability = 'Available'

            def submit(self, circuit, num_shots, metadata=None, **kw):
                BOX['jobs'].append(dev.read(circuit, dict(shots=num_shots, metadata=metadata)))
                res = BOX['answer'](BOX['jobs'][-1])

                class J:
                    id = 7

                    def get_results(self, **kw):
                        return res
                return J()

            class workspace:
                @staticmethod
                def get_job(job_id):
                    BOX['retrieved'].append(job_id)
                    res = BOX['answer'](None)

                    class J:
                        id = 7

                        def get_results(self, **kw):
                            return res
                    return J()
        m.AzureQuantumBackend._target = property(lambda self: Target())

    def read(self, circuit, kw):
        if self.which == 'ionq':
            ops = [Op(d['gate'], d['targets'], d.get('controls', ()), [d['rotation']] if 'rotation' in d else ()) for d in circuit['circuit']]
            md = kw['metadata']
            assert md['num_qubits'] == circuit['qubits']
            return Job(ops, circuit['qubits'], kw['shots'], None, [(q, i) for i, q in enumerate(md['meas_map'])])
        ops, meas, size = read_qasm(circuit)
        assert size['q'] == size['c']
        return Job(ops, size['q'], kw['shots'], None, meas)

    def gates(self):
        if self.which == 'ionq':
            return ['x', 'y', 'z', 'h', 's', 'sdag', 't', 'tdag', 'sqrtx', 'vdag', 'swap', 'rx', 'ry', 'rz', 'rxx', 'ryy', 'rzz', 'cx', 'ccx']
        return ['x', 'y', 'z', 'h', 's', 'sdag', 't', 'tdag', 'rx', 'ry', 'rz', 'rxx', 'ryy', 'rzz', 'cx', 'ccx', 'cz', 'ccz', 'barrier']

    def has(self, kind, nctrl):
        if self.which == 'ionq':
            if nctrl == 0:
                return kind in ('X', 'Y', 'Z', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX', 'SqrtXdag', 'Swap', 'Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz')
            return nctrl <= 7 and kind == 'X'
        if nctrl == 0:
            return kind in ('X', 'Y', 'Z', 'H', 'S', 'Sdag', 'T', 'Tdag', 'Rx', 'Ry', 'Rz', 'Rxx', 'Ryy', 'Rzz', 'Barrier')
        return nctrl <= 2 and kind in ('X', 'Z')

    def answer(self, job, rows, weights, runs):
        if self.which == 'ionq':
            return {'histogram': {str(sum(b << i for i, b in enumerate(r))): w for r, w in zip(rows, weights)}}
        return {'c': [''.join(map(str, r)) for r, w in zip(rows, weights) for _ in range(w)]}


def device(name):
    kind, _, which = name.partition('/')
    d = dict(ibm=IBM, aqt=AQT, ionq=IonQ, braket=Braket, azure=Azure)[kind]()
    if which:
        d.which = which
    return d


# ---------------------------------------------------------------- set-up
@contextlib.contextmanager
def bench(h, name):
    """a back-end module with its client replaced, printing of symbolic values by number, random numbers as inputs"""
    d = device(name)
    m, cls = d.load()
    old = random.random, np.random.choice, json.JSONEncoder.default
    saved = {k: getattr(m, k) for k in ('send', 'retrieve') if hasattr(m, k)}
    tgt = getattr(cls, '_target', None)
    BOX.clear()
    BOX.update(jobs=[], retrieved=[], names=[], draws=[])

    def rnd():
        u = h.unit_random('u%d' % len(BOX['draws']))
        BOX['draws'].append(u)
        h.assume(u > 0)
        return u

    def pick(a, size=None, replace=True, p=None):
        a = list(a)
        p = list(p)
        h.true('one probability per option', len(a) == len(p))
        k = h.choice('pick%d' % len(BOX['draws']), range(len(a)))
        BOX['draws'].append((a, p, k))
        if not bool(p[k] > 0):
            raise PathAbort
        return a[k]
    try:
        S.TOKENS = []
        shims.random_hook = rnd
        shims.choice_hook = pick
        random.random = rnd
        np.random.choice = pick
        d.install(m)
        yield d, cls
    finally:
        S.TOKENS = None
        shims.random_hook = shims.choice_hook = None
        random.random, np.random.choice, json.JSONEncoder.default = old
        for k, v in saved.items():
            setattr(m, k, v)
        if name.startswith('azure'):
            cls._target = tgt
        if name == 'ionq':
            import importlib
            importlib.reload(m.http_client)


def start(h, d, cls, perm, runs=100, **kw):
    from projectq import MainEngine
    from projectq.cengines import ManualMapper
    kw = dict(getattr(d, 'options', dict)(), **kw)
    be = cls(num_runs=runs, **kw)
    eng = MainEngine(be, [ManualMapper(lambda i: perm[i] if i < len(perm) else i + 10)] if perm else [])
    return be, eng


KINDS = dict(x='X', y='Y', z='Z', h='H', s='S', sdag='Sdag', t='T', tdag='Tdag', sqrtx='SqrtX', swap='Swap', barrier='Barrier', rx='Rx', ry='Ry', rz='Rz', r='R', rxx='Rxx', ryy='Ryy', rzz='Rzz')


def one(h, k, kind, n):
    """a gate applied to freely chosen qubits: (gate, targets, controls, matrix)"""
    from projectq import ops
    nc = 0
    if kind == 'vdag':
        g = ops.get_inverse(ops.SqrtX)
    else:
        while kind.startswith('c'):
            kind, nc = kind[1:], nc + 1
        nm = KINDS[kind]
        g = getattr(ops, nm)
        if kind in ('rx', 'ry', 'rz', 'r', 'rxx', 'ryy', 'rzz'):
            g = g(h.angle('a%d' % k))
    nt = 2 if kind in ('swap', 'rxx', 'ryy', 'rzz', 'barrier') else 1
    qs, left = [], list(range(n))
    for i in range(nc + nt):
        if len(left) > 1:
            qs.append(h.choice('q%d_%d' % (k, i), left))
        else:
            qs.append(left[0])
        left.remove(qs[-1])
    return g, qs[nc:], qs[:nc]


def apply(g, qubits, ctrl):
    from projectq import ops
    from projectq.meta import Control
    arg = tuple(qubits) if len(qubits) > 1 and not isinstance(g, type(ops.Barrier)) else qubits if len(qubits) > 1 else qubits[0]
    if ctrl:
        with Control(ctrl[0].engine, ctrl):
            g | arg
    else:
        g | arg


def compare(h, d, op, g, tg, ct):
    """an instruction of the job is the gate on its qubits"""
    from projectq import ops
    used = tg + ct
    if isinstance(g, type(ops.Barrier)):
        h.true('barrier', op.name == 'barrier' and sorted(op.targets) == sorted(tg))
        return
    h.true('qubits of an instruction', sorted(op.targets + op.controls) == sorted(used), '%s %s %s' % (op, tg, ct))
    h.true('qubits are numbers', all(type(i) is int for i in op.targets + op.controls))
    if d.name == 'aqt':
        kind = {'Rx': 'X', 'Ry': 'Y', 'Rxx': 'MS'}[type(g).__name__]
        h.true('kind of instruction', op.name == kind and not op.controls)
        e = op.params[0] - g.angle / math.pi
        h.true('angle in units of pi to two decimals', bool(e <= 0.005 + 1e-9) and bool(e >= -0.005 - 1e-9))
        return
    got, want = Q.State(used), Q.State(used)
    try:
        m = named(op.name, op.params, len(op.targets))
    except KeyError:
        h.true('a known instruction', False, op)
    got.apply(m, op.targets, op.controls, '1' * len(op.controls))
    want.apply(Q.from_any(Q.spec_matrix(g)), tg, ct, '1' * len(ct))
    h.zero('instruction acts like the gate', Q.residual(got, want, phase=True))


def circuit(h, dev, alphabet, length, perm, n=3, qasm=False):
    """a program of freely chosen operations, then every qubit measured in a chosen order"""
    from projectq import ops
    from projectq.meta import Compute, CustomUncompute
    from contextlib import nullcontext
    with bench(h, dev) as (d, cls):
        BOX['answer'] = lambda job: blank(d, job, n, perm)
        be, eng = start(h, d, cls, perm, runs=7)
        loc = list(perm or range(n))
        q = eng.allocate_qureg(n)
        prog = []
        where = h.choice('where', ['plain', 'compute', 'uncompute'])
        if where == 'uncompute':
            with Compute(eng):
                pass
        with {'plain': nullcontext, 'compute': Compute, 'uncompute': CustomUncompute}[where](*[eng] * (where != 'plain')):
            for k in range(length):
                kind = h.choice('op%d' % k, alphabet)
                g, tg, ct = one(h, k, kind, n)
                apply(g, [q[i] for i in tg], [q[i] for i in ct])
                prog.append((g, [loc[i] for i in tg], [loc[i] for i in ct]))
        if where == 'compute':
            with CustomUncompute(eng):
                pass
        order = h.choice('measured', [(0, 1, 2)[:n], (2, 0)[-n + 1:] if n > 1 else (0,)])
        order = [i for i in order if i < n]
        for i in order:
            ops.Measure | q[i]
        eng.flush()
        text = be.get_qasm() if qasm else None
        for x in q:
            x.id = -1
        real = [p for p in prog if d.name in ('ibm', 'azure') or not isinstance(p[0], type(ops.Barrier))]
        jobs = BOX['jobs']
        if d.name in ('aqt', 'ionq', 'braket') and not real:
            return
        if d.name == 'azure' and not real:
            return
        h.true('one job', len(jobs) == 1)
        job = jobs[0]
        h.true('number of runs', job.shots == 7)
        h.true('one instruction per operation', len(job.ops) == len(real), '%s %s' % (job.ops, real))
        for op, p in zip(job.ops, real):
            compare(h, d, op, *p)
        fits(h, d, job)
        if job.measures is not None:
            h.true('measured qubits', sorted(a for a, b in job.measures) == sorted(loc[i] for i in order) and len({b for a, b in job.measures}) == len(order))
        if d.name == 'braket':
            h.true('instructions offered by the device', set(BOX['names']) <= set(d.OFFERED[d.which].split()), BOX['names'])
        if qasm:
            got, meas, _ = read_qasm(text)
            h.true('assembly: one line per operation', len(got) == len(real))
            for op, p in zip(got, real):
                if isinstance(p[0], type(ops.H)):
                    c = Q.State(p[1])
                    w = Q.State(p[1])
                    c.apply(named(op.name, op.params, 1), op.targets)
                    w.apply(Q.from_any(Q.spec_matrix(p[0])), p[1])
                    h.zero('assembly: Hadamard gate', Q.residual(c, w, phase=True))
                else:
                    compare(h, d, op, *p)
            h.true('assembly: measurements', sorted(meas) == sorted((loc[i], loc[i]) for i in order))


def fits(h, d, job):
    used = {i for op in job.ops for i in op.targets + op.controls} | {a for a, b in job.measures or ()}
    if d.name == 'braket':              # a number of qubits, not a register
        h.true('number of qubits', len(used) <= job.nq, '%s %s' % (job.nq, job.ops))
    else:
        h.true('register holds every qubit', max(used) < job.nq, '%s %s' % (job.nq, job.ops))


def blank(d, job, n, perm):
    """an answer with every outcome 0"""
    if d.name == 'aqt':
        return [0]
    top = max(perm or range(n)) + 1
    return d.answer(job, [(0,) * top], [7 if d.name == 'ibm' or (d.name, getattr(d, 'which', '')) == ('azure', 'quantinuum') else 1.0], 7)


def table(h, d, width, rows, runs, tag=''):
    """weights of the rows: arbitrary, adding up to one (or to the number of runs)"""
    counts = d.name == 'ibm'
    total = runs if counts else 1
    ws = []
    for i in range(len(rows) - 1):
        ws.append(h.int('%sc%d' % (tag, i), 0, runs) if counts else h.real('%sp%d' % (tag, i), 0, 1))
    last = total
    for w in ws:
        last = last - w
    if len(rows) > 1:
        h.assume(last >= 0)
    ws.append(last)
    return ws, ([w * (1.0 / runs) for w in ws] if counts else ws)


def bits_of(v, n):
    return tuple((v >> i) & 1 for i in range(n))


def results(h, dev, perm, n, measured, rows, runs=8, released=(), retrieve=False, regs=None, rounds=1):
    """outcomes and probabilities of an arbitrary answer, under the program's qubits"""
    from projectq import ops
    from projectq.cengines._main import NotYetMeasuredError
    with bench(h, dev) as (d, cls):
        kw = {}
        if retrieve:
            kw = dict(retrieve_execution='job')
        be, eng = start(h, d, cls, perm, runs=runs, **kw)
        loc = {}
        kept, alive = [], []
        for rnd in range(rounds):
            tag = 'r%d' % rnd
            q = eng.allocate_qureg(n)
            for i, x in enumerate(q):
                loc[x.id] = (perm[x.id] if x.id < len(perm) else x.id + 10) if perm else x.id
            place = [loc[x.id] for x in q]
            for x in q:
                ops.Rx(0.25) | x
            order = h.choice(tag + 'order', measured)
            for i in order:
                ops.Measure | q[i]
            BOX['ids'], BOX['mapped'] = [q[i].id for i in order], [place[i] for i in order]
            BOX['draws'].clear()
            index = h.choice(tag + 'rows', rows)
            # a row gives the outcome of every qubit of the program by position in q (only measured ones where the device reports only those)
            partial = d.name in ('ibm', 'ionq', 'azure')
            seen = {}
            data = []
            for v in index:
                b = bits_of(v, n)
                if partial:
                    b = tuple(x if i in order else 0 for i, x in enumerate(b))
                if b in data:
                    continue
                data.append(b)
            if d.name == 'aqt' or (d.name == 'azure' and d.which == 'quantinuum'):
                samples = [h.choice('%ss%d' % (tag, i), range(len(data))) for i in range(runs)]
                keep = [i for i in range(len(data)) if samples.count(i)]
                prob = [samples.count(i) / runs for i in keep]
                data = [data[i] for i in keep]
            else:
                weights, prob = table(h, d, n, data, runs, tag)

            def answer(job):
                width = max(place) + 1
                if d.name == 'aqt':
                    return [sum(b << place[k] for k, b in enumerate(data[keep.index(s)])) for s in samples]
                if d.name == 'ionq' or (d.name == 'azure' and d.which == 'ionq'):
                    bit = {a: b for a, b in job.measures} if job else {a: i for i, a in enumerate(BOX['mapped'])}
                    out = []
                    for b in data:
                        r = [0] * len(order)
                        for i in order:
                            r[bit[place[i]]] = b[i]
                        out.append(tuple(r))
                    return d.answer(job, out, weights, runs)
                out = []
                for b in data:
                    r = [0] * width
                    for k, x in enumerate(b):
                        if d.name in ('ibm', 'azure') and k not in order:
                            continue
                        r[place[k]] = x
                    out.append(tuple(r))
                if d.name == 'azure':
                    return d.answer(job, [out[keep.index(s)] for s in samples], [1] * runs, runs)
                return d.answer(job, out, weights, runs)
            BOX['answer'] = answer
            jobs = len(BOX['jobs'])
            eng.flush()
            if retrieve:
                h.true('nothing is submitted', not BOX['jobs'] and len(BOX['retrieved']) == 1)
            else:
                h.true('one job', len(BOX['jobs']) == jobs + 1 and not BOX['retrieved'])
                job = BOX['jobs'][-1]
                h.true('number of runs', job.shots == runs, job.shots)
                h.true('only this program', len(job.ops) == n and sorted(i for o in job.ops for i in o.targets) == sorted(place), job.ops)
                fits(h, d, job)
                if job.measures is not None:
                    h.true('measures only the measured', sorted(a for a, b in job.measures) == sorted(place[i] for i in order))
            got = {}
            for i in range(n):
                if i in order:
                    got[i] = int(q[i])
                    h.true('outcome is a bit', got[i] in (0, 1))
                else:
                    h.raises('not measured', NotYetMeasuredError, lambda: int(q[i]))
            outcome(h, d, order, got, data, prob)
            for reg in regs or [tuple(range(n)), tuple(range(n))[::-1], (n - 1,), (0,)]:
                if d.name == 'aqt' and not perm and not set(reg) <= set(order):
                    continue            # without a mapper the back-end knows the measured qubits only
                probs = be.get_probabilities([q[i] for i in reg])
                sums = {}
                for b, p in zip(data, prob):
                    s = ''.join(str(b[i]) for i in reg)
                    sums[s] = sums.get(s, 0) + p
                h.true('no other outcomes', set(probs) <= {format(v, '0%db' % len(reg)) for v in range(1 << len(reg))})
                for v in range(1 << len(reg)):
                    s = format(v, '0%db' % len(reg))
                    h.same('probability of an outcome', probs.get(s, 0), sums.get(s, 0))
                    if hasattr(be, 'get_probability'):
                        h.same('probability of one outcome', be.get_probability(s, [q[i] for i in reg]), sums.get(s, 0))
            jobs = len(BOX['jobs']) + len(BOX['retrieved'])
            eng.flush()
            h.true('no job without operations', len(BOX['jobs']) + len(BOX['retrieved']) == jobs)
            kept += [(q[i], got[i]) for i in order]
            for x, v in kept:
                h.true('a result stays', int(x) == v)
            alive.extend(q)
        for x in alive:
            x.id = -1


def outcome(h, d, order, got, data, prob):
    """the outcome is one of the answer's, chosen with its probability"""
    match = [k for k, b in enumerate(data) if all(b[i] == got[i] for i in order)]
    h.true('an outcome of the answer', bool(match), got)
    h.true('one random number', len(BOX['draws']) == 1)
    u = BOX['draws'][0]
    if isinstance(u, tuple):
        options, p, k = u
        h.true('options are the outcomes', len(options) == len(prob))
        h.same('probabilities of the options', sum(p[1:], p[0]), 1)
        h.true('chosen with its probability', any(bool(p[k] == prob[i]) for i in match))
        return
    lo = 0
    ok = False
    # the answer's order may be changed by the back-end: accept the order of the answer or of the bit strings
    orders = [range(len(data))]
    if d.name == 'aqt' and len(data) <= 3:
        orders = itertools.permutations(range(len(data)))
    for o in orders:
        lo = 0
        for k in o:
            hi = lo + prob[k]
            if k in match and bool(lo <= u) and bool(u <= hi + 1e-9):
                ok = True
                break
            lo = hi
        if ok:
            break
    h.true('chosen with its probability', ok, '%s %s %s' % (got, data, prob))


def strange():
    """gates of every kind: name -> (gate, number of targets)"""
    from projectq import ops
    from projectq.libs.math import AddConstant
    out = {k: (getattr(ops, k), 1) for k in ('X', 'Y', 'Z', 'H', 'S', 'Sdag', 'T', 'Tdag', 'SqrtX')}
    out.update({k: (getattr(ops, k)(0.3), 1) for k in ('Rx', 'Ry', 'Rz', 'R', 'Ph')})
    out.update({k: (getattr(ops, k)(0.3), 2) for k in ('Rxx', 'Ryy', 'Rzz')})
    out.update(Swap=(ops.Swap, 2), SqrtSwap=(ops.SqrtSwap, 2), Barrier=(ops.Barrier, 2), SqrtXdag=(ops.get_inverse(ops.SqrtX), 1), SqrtSwapdag=(ops.get_inverse(ops.SqrtSwap), 2), Entangle=(ops.Entangle, 2), QFT=(ops.QFT, 2),
               QFTdag=(ops.get_inverse(ops.QFT), 2), Matrix=(ops.MatrixGate(np.array([[0.6, -0.8], [0.8, 0.6]])), 1), Time=(ops.TimeEvolution(0.5, ops.QubitOperator('X0')), 1), Add=(AddConstant(1), 2), Uniform=(ops.UniformlyControlledRy([0.1, 0.2]), 2))
    return out


def available(h, dev, names, most=3):
    """what the device offers, and nothing else; what is received directly is refused or submitted as it is"""
    from projectq import ops
    from projectq.meta import LogicalQubitIDTag
    from .observers import command
    with bench(h, dev) as (d, cls):
        n = 10
        BOX['answer'] = lambda job: blank(d, job, n, None)
        be, eng = start(h, d, cls, tuple(range(n)), runs=7)
        name = h.choice('gate', names)
        g, nt = strange()[name]
        nc = h.choice('controls', range(most + 1))
        state = ''.join(h.choice('s%d' % i, '10') if i < 3 else '1' for i in range(nc))
        tg = list(range(nt))
        if h.choice('reversed', [0, 1]):
            tg = [9 - i for i in tg]
        ct = list(range(2, 2 + nc))
        wires = [[i] for i in tg] if not isinstance(g, (type(ops.Barrier), type(ops.QFT), type(ops.Entangle))) and not name.startswith('QFT') else [tg]
        if name == 'Add':
            wires = [tg]
        c = command(eng, g, wires, ct, state=state or None)
        want = d.has(name, nc) and '0' not in state
        if not (name == 'Barrier' and nc):
            h.true('available exactly when the device offers it', bool(be.is_available(c)) == want, '%s/%d/%s: %s' % (name, nc, state, be.is_available(c)))
        for g2 in (ops.Allocate, ops.Deallocate, ops.Measure):
            h.true('always available', be.is_available(command(eng, g2, ([0],))))
        if name == 'Barrier' and nc:
            return
        cmds = [command(eng, ops.Allocate, ([i],)) for i in range(n)]
        eng.mapper.current_mapping = {i: i for i in range(n)}
        before = command(eng, ops.Rx(0.5), ([0],))
        meas = command(eng, ops.Measure, ([0],), tags=[LogicalQubitIDTag(0)])
        try:
            be.receive(cmds + [before, c])
        except Exception as e:
            h.true('an offered operation is accepted', not want, '%s %s' % (name, e))
            h.true('nothing is submitted', not BOX['jobs'])
            return
        be.receive([meas, command(eng, ops.FlushGate(), ([0],))])
        if name == 'Barrier' and d.name not in ('ibm', 'azure'):
            h.true('one job', len(BOX['jobs']) == 1 and len(BOX['jobs'][0].ops) == 1)
            return
        h.true('one job', len(BOX['jobs']) == 1 and len(BOX['jobs'][0].ops) == 2, '%s accepted' % name)
        op = BOX['jobs'][0].ops[1]
        if '0' in state or name in ('Matrix', 'Time', 'Add', 'Uniform', 'QFT', 'QFTdag', 'Entangle', 'SqrtSwap', 'SqrtSwapdag', 'Ph'):
            h.fail('an operation outside the set is declined', '%s/%d/%s submitted as %s' % (name, nc, state, op))
        compare(h, d, op, g, tg, ct)
        if d.name == 'braket':
            h.true('instructions offered by the device', set(BOX['names']) <= set(d.OFFERED[d.which].split()), BOX['names'])


def measured_first(h, dev, perm, n=3):
    """a gate on a measured qubit is rejected, any other is not"""
    from projectq import ops
    with bench(h, dev) as (d, cls):
        BOX['answer'] = lambda job: blank(d, job, n, perm)
        be, eng = start(h, d, cls, perm)
        q = eng.allocate_qureg(n)
        ops.X | q[0]
        m = h.choice('measured', range(n))
        ops.Measure | q[m]
        kind = h.choice('gate', ['x', 'cx', 'swap', 'ccx'])
        g, tg, ct = one(h, 1, kind, n)
        try:
            apply(g, [q[i] for i in tg], [q[i] for i in ct])
            raised = None
        except Exception as e:
            raised = type(e).__name__
        h.true('rejected exactly when the qubit was measured', raised == ('MidCircuitMeasurementError' if m in tg + ct else None), '%s %s %s' % (m, tg + ct, raised))
        be._reset()
        for x in q:
            x.id = -1


def release(h, dev, n=3):
    """helper qubits released before the job is sent"""
    from projectq import ops
    from projectq.backends._ionq._ionq_mapper import BoundedQubitMapper
    from projectq import MainEngine
    with bench(h, dev) as (d, cls):
        BOX['answer'] = lambda job: blank(d, job, n, None)
        be = cls(num_runs=5, **getattr(d, 'options', dict)())
        eng = MainEngine(be, [BoundedQubitMapper(8)])
        q = eng.allocate_qureg(n)
        for x in q:
            ops.Rx(0.5) | x
        gone = h.choice('released', range(n))
        where = dict(eng.mapper.current_mapping)
        place = [where[x.id] for x in q]
        eng.deallocate_qubit(q[gone])
        keep = [i for i in range(n) if i != gone]
        for i in keep:
            ops.Measure | q[i]
        eng.flush()
        h.true('one job', len(BOX['jobs']) == 1)
        job = BOX['jobs'][0]
        h.true('one instruction per operation', [o.targets for o in job.ops] == [[p] for p in place])
        fits(h, d, job)
        for i in keep:
            h.true('outcome', int(q[i]) == 0)
        for x in q:
            x.id = -1
