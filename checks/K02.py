"""Histograms show the probabilities of the back-end."""
from vf import histo as T
from vf.runner import Case

BOUNDS = dict(quick='registers of 1-4 of 4 qubits in several orders, as a list, a register and nested registers; an arbitrary (symbolic) distribution over the 16 outcomes, behind the simulator interface and behind a device (with one outcome missing); registers of 5 and 6 qubits of the simulator',
              thorough='registers of up to 6 qubits')
OUTSIDE = 'the rendered pixels; registers of more than 6 qubits'
NOTE = 'symbolic runs record the bars at the plotting call, replays read them from the real figure'


def cases(tier):
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if tier == 'quick' else 600, max_paths=20000)
    shapes = [[0], [2], [0, 1], [1, 0], [2, 0], [0, 1, 2], [2, 0, 1], [3, 1, 0], [1, 3, 2, 0], [[0, 1]], [[1, 0], 2], [2, [0, 1]], [[3], [1, 0]], [[2, 0], [1, 3]]]
    n = 4
    for s in ([4, 1, 0, 2, 3], [[3, 0], [1, 5, 2], 4]):
        yield Case('sim/%s' % str(s).replace(' ', ''), T.histogram, dict(n=max(map(max, [x if isinstance(x, list) else [x] for x in s])) + 1, shape=s, kind='sim'), **K)
    if tier != 'quick':
        shapes += [[0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [[4, 2], 0, [1, 3]], [5, 3, 1, 0, 2, 4], [0, 1, 2, 3, 4, 5]]
        n = 6
    for s in shapes:
        for kind in ('sim', 'device'):
            yield Case('%s/%s' % (kind, str(s).replace(' ', '')), T.histogram, dict(n=n, shape=s, kind=kind), **K)
    yield Case('other', T.histogram, dict(n=2, shape=[0, 1], kind='other'), **K)
