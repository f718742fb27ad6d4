"""The AQT back-end submits the circuit it was given and reads back the results."""
from vf import device as D
from vf.runner import Case

BOUNDS = dict(quick='AQT: every program of 2 operations of the device (every gate it offers, every choice of qubits among 3, symbolic angles) under 3-4 placements, followed by measurements; '
                    'availability and direct submission of 28 gates with 0-3 (8) controls of either sign; answers with arbitrary symbolic samples over up to 8 outcomes of 3 qubits, symbolic random number, '
                    'measured subsets in several orders, every register read back; two jobs in a row, flushes without operations, retrieved jobs',
              thorough='programs of 3 operations')
OUTSIDE = 'the client (HTTP) and the device; rounding of printed numbers; qubits kept across jobs; measured qubits released before the flush'
NOTE = 'the client is replaced by a stand-in that reads the submitted job back and answers with an arbitrary table'
PERMS = [(0, 1, 2), (2, 0, 1), (3, 1, 0)]


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=60000, branch_ms=300, full_ms=4000)
    L = 2 if quick else 3
    for dev in ('aqt',):
        d = D.device(dev)
        for perm in PERMS + [None]:
            tag = dev + '/' + ''.join(map(str, perm or ()))
            gates = d.gates()
            for g in gates:
                yield Case('one/%s/%s' % (tag, g), D.circuit, dict(dev=dev, alphabet=[g], length=1, perm=perm), **K)
            two = [g for g in gates if g in ('rx', 'ry', 'rxx')]
            yield Case('program/%s' % tag, D.circuit, dict(dev=dev, alphabet=two, length=L, perm=perm), weight=5, **K)
        names = sorted(D.strange())
        for i in range(0, len(names), 4):
            yield Case('available/%s/%s' % (dev, '+'.join(names[i:i + 4])), D.available, dict(dev=dev, names=names[i:i + 4]), **K)
        yield Case('available/%s/many' % dev, D.available, dict(dev=dev, names=['X', 'Z', 'Swap'], most=8 if dev in ('ionq', 'azure/ionq') else 4), **K)
        R = [(0, 3, 5), (1, 6, 4, 2), (0, 1, 2, 3, 4, 5, 6, 7)]
        M3 = [(0, 1, 2), (2, 0, 1), (1,), (2, 0)]
        for perm in PERMS + [None]:
            tag = dev + '/' + ''.join(map(str, perm or ()))
            yield Case('results/%s/2' % tag, D.results, dict(dev=dev, perm=perm, n=2, measured=[(0, 1), (1, 0), (1,)], rows=[(0, 1, 2, 3), (3, 1)], runs=2), weight=3, **K)
            yield Case('results/%s/3' % tag, D.results, dict(dev=dev, perm=perm, n=3, measured=M3, rows=R, runs=2), weight=5, **K)
            yield Case('retrieve/%s' % tag, D.results, dict(dev=dev, perm=perm, n=2, measured=[(0, 1), (1, 0)], rows=[(0, 1, 2, 3)], runs=2, retrieve=True), weight=2, **K)
        yield Case('two jobs/%s' % dev, D.results, dict(dev=dev, perm=(2, 0, 1, 3), n=2, measured=[(0, 1), (1,)], rows=[(0, 3), (2, 1)], runs=2, rounds=2), weight=4, **K)
