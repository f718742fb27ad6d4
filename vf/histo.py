"""Harness for the histogram: an arbitrary table of probabilities behind the back-end, bars read back."""
import os

from . import sym as S


class Axes:
    """stand-in for the axes while values are symbolic: keeps the bars"""

    def __init__(self):
        self.bars = []

    def bar(self, x, height, *a, **kw):
        names = kw.get('tick_label') or x
        self.bars += list(zip(names, height))

    def set_xticklabels(self, names, *a, **kw):
        self.bars = [(n, v) for n, (_, v) in zip(names, self.bars)]

    def set_xticks(self, pos, labels=None, *a, **kw):
        if labels is not None:
            self.set_xticklabels(labels)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: None


class Fig(Axes):
    pass


def histogram(h, n, shape, kind):
    """shape: positions of the qubits as an (unnested or nested) list"""
    os.environ['MPLBACKEND'] = 'Agg'
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import BasicEngine
    import projectq.libs.hist._histogram as m
    from projectq.types import Qureg
    P = [h.real('p%d' % v, 0, 1) for v in range(1 << n)]
    asked = []

    def prob(bits, ids):
        """probability that the qubits ids have the given values"""
        want = dict(zip(ids, [int(b) for b in bits]))
        return sum((P[v] for v in range(1 << n) if all((v >> i & 1) == b for i, b in want.items())), 0)

    class Sim(Simulator):
        def __init__(self):
            BasicEngine.__init__(self)

        def get_probability(self, bits, qureg):
            h.true('one value per qubit', len(bits) == len(qureg))
            return prob(list(bits), [q.id for q in qureg])

        def is_available(self, cmd):
            return True

        def receive(self, cl):
            pass

    class Device(BasicEngine):
        def is_available(self, cmd):
            return True

        def receive(self, cl):
            pass

        def get_probabilities(self, qureg):
            ids = [q.id for q in qureg]
            asked.append(ids)
            out = {}
            for v in range(1 << len(ids)):
                k = format(v, '0%db' % len(ids))
                if v in present:
                    out[k] = prob(k, ids)
            return out
    be = dict(sim=Sim, device=Device, other=None)[kind]
    flat = [i for s in shape for i in (s if isinstance(s, (list, tuple)) else [s])]
    present = set(range(1 << len(flat)))
    if kind == 'device':
        present = {h.choice('missing', list(range(1 << len(flat))) + [-1])} ^ present - {-1}
        present.discard(-1)
    if kind == 'other':
        from projectq.backends import CommandPrinter
        be = lambda: CommandPrinter(accept_input=False)
    be = be()
    eng = MainEngine(be, [])
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        q = [eng.allocate_qubit()[0] for _ in range(n)]
        reg = Qureg([Qureg([q[i] for i in s]) if isinstance(s, (list, tuple)) else q[s] for s in shape]) if any(isinstance(s, (list, tuple)) for s in shape) else Qureg([q[i] for i in shape])
        old = m.plt.subplots
        try:
            if h.symbolic:
                m.plt.subplots = lambda *a, **kw: (Fig(), Axes())
            if kind == 'other':
                h.raises('no probabilities', RuntimeError, lambda: m.histogram(be, reg))
                return
            fig, ax, probs = m.histogram(be, reg)
        finally:
            m.plt.subplots = old
            for x in q:
                x.id = -1
    if h.symbolic:
        bars = ax.bars
    else:
        fig.canvas.draw()
        bars = list(zip([t.get_text() for t in ax.get_xticklabels()], [p.get_height() for p in ax.patches]))
        h.true('one label per bar', len(ax.get_xticklabels()) == len(ax.patches))
        plt.close('all')
    k = len(flat)
    want = {}
    for v in range(1 << k):
        s = format(v, '0%db' % k)
        if v in present:
            want[s] = prob(s, flat)
    h.true('a bar for every outcome', sorted(b for b, _ in bars) == sorted(want), [b for b, _ in bars])
    h.true('the outcomes', sorted(probs) == sorted(want))
    for s, v in want.items():
        h.same('height of a bar', dict(bars)[s], v)
        h.same('probability returned', probs[s], v)
    if kind == 'device':
        h.true('qubits in order', asked == [flat], asked)
