"""Shared harness of the two state-vector simulators (same interface): construction, reference linear algebra, histories."""
import importlib.util
import itertools
import os
import random
import subprocess
import sys
import threading

from . import cppbuild, cppglue, shims

_portable = {}


def prebuild(symbolic):
    """build the variants needed now at the same time; those of the replay process in the background"""
    if symbolic:
        subprocess.Popen([sys.executable, '-m', 'vf.cppbuild', 'plain', 'plain-portable'], cwd=cppbuild.HERE,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = 'sym' if symbolic else 'plain'
    errs = []

    def one(k):
        try:
            cppbuild.build(k)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=one, args=(k,)) for k in (p, p + '-portable')]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return cppbuild.build(p)


def portable(symbolic):
    k = ('sym' if symbolic else 'plain') + '-portable'
    if k not in _portable:
        spec = importlib.util.spec_from_file_location('vf_portable._cppsim', cppbuild.build(k))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _portable[k] = m
    return _portable[k]


def make(h, backend):
    """a fresh simulator whose random numbers are inputs of the harness"""
    count = itertools.count()

    def rnd():
        return h.unit_random('rnd%d' % next(count))
    cppglue.hook = rnd
    if h.symbolic:
        shims.random_hook = rnd
    else:
        random.random = rnd
    if backend == 'py':
        from projectq.backends._sim._pysim import Simulator
    elif backend == 'cpp':
        from projectq.backends._sim._cppsim import Simulator
    else:
        Simulator = portable(h.symbolic).Simulator
    return Simulator(1)


def release(h):
    cppglue.hook = None
    shims.random_hook = None


def apply(state, m, pos, mask):
    """reference: the 2^k x 2^k matrix m on the bits pos (pos[0] is the least significant) where all bits of mask are set"""
    out = list(state)
    pm = sum(1 << p for p in pos)
    for i in range(len(state)):
        if i & mask != mask:
            continue
        row = sum(((i >> p) & 1) << j for j, p in enumerate(pos))
        acc = 0
        for col in range(1 << len(pos)):
            src = (i & ~pm) | sum(((col >> j) & 1) << p for j, p in enumerate(pos))
            acc = acc + m[row][col] * state[src]
        out[i] = acc
    return out


def permuted(state, frm, to):
    """amplitudes listed for the bit order frm, listed for the bit order to (sequences of qubit ids, least significant first)"""
    out = [0] * len(state)
    for i, a in enumerate(state):
        j = sum(((i >> frm.index(q)) & 1) << k for k, q in enumerate(to))
        out[j] = a
    return out


def amplitudes(h, n, prefix='a', real=False):
    return [h.real('%s%d' % (prefix, i)) if real else h.cplx('%s%d' % (prefix, i)) for i in range(1 << n)]


def matrix(h, k, prefix='m', real=False):
    d = 1 << k
    return [[h.real('%s%d_%d' % (prefix, i, j)) if real else h.cplx('%s%d_%d' % (prefix, i, j)) for j in range(d)] for i in range(d)]


SHAPES = ('diagonal', 'antidiagonal', 'cycle', 'block', 'triangle', 'phases', 'identity block')


def shaped(h, k, shape, prefix='m', real=False):
    """a matrix with a pattern of zeros (or ones); other entries are arbitrary"""
    d = 1 << k
    new = lambda i, j: h.real('%s%d_%d' % (prefix, i, j)) if real else h.cplx('%s%d_%d' % (prefix, i, j))  # noqa: E731
    keep = {'diagonal': lambda i, j: i == j, 'antidiagonal': lambda i, j: i + j == d - 1, 'cycle': lambda i, j: j == (i + 1) % d,
            'block': lambda i, j: i // 2 == j // 2, 'triangle': lambda i, j: j <= i, 'phases': lambda i, j: i == j, 'identity block': lambda i, j: i >= d // 2 and j >= d // 2}[shape]
    one = {'phases': lambda i, j: i == j and i < d - 1, 'identity block': lambda i, j: i == j and i < d // 2}.get(shape, lambda i, j: False)
    return [[1.0 if one(i, j) else new(i, j) if keep(i, j) else 0.0 for j in range(d)] for i in range(d)]


def read(sim, order):
    """amplitudes of the simulator for the given order of the qubits"""
    mp, st = sim.cheat()
    mp = dict(mp)
    frm = [q for q, _ in sorted(mp.items(), key=lambda x: x[1])]
    return mp, permuted(list(st), frm, order)


def consistent(h, mp, ids, size):
    h.true('qubits', sorted(mp) == sorted(ids) and sorted(mp.values()) == list(range(len(ids))), '%r for %r' % (mp, ids))
    h.true('size of the state', size == 1 << len(ids), '%d amplitudes for %d qubits' % (size, len(ids)))
