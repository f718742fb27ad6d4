"""The classical simulator on every bit state."""
import itertools

from vf import classical as C
from vf.runner import Case

BOUNDS = dict(quick='programs of up to 3 operations on 3-5 qubits in an arbitrary bit state (symbolic): NOT and arithmetic gates with 0-2 controls of either polarity, reading, writing, measuring, '
                    'allocating and releasing, all placements of targets and controls up to rotation and reflection; without other engines, behind the automatic replacer, behind a mapper and behind an optimiser',
              thorough='programs of up to 4 operations on up to 6 qubits')
OUTSIDE = 'longer programs, more qubits; releasing and reusing a qubit that is not 0 is executed as documented only for the remaining qubits'
NOTE = 'the bit state is one bit vector; the simulator forks only where it tests a bit'

UNARY = [('x', 0), ('x', 1), ('x', 2), ('add', 0), ('add', 1), ('addmod', 0), ('addmod', 1), ('quantum', 0), ('quantum', 1), ('compare', 0), ('compare', 1), ('user', 0), ('user', 1), ('many', 0), ('many', 1),
         ('write', 0), ('register', 0), ('measure', 0), ('release', 0), ('new', 0)]


def name(ops):
    return '+'.join('%s%s' % (k, c or '') for k, c in ops)


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=20000, max_concretize=600)
    for op in UNARY:
        for layout in ('plain', 'holes'):
            for pipe in ('bare', 'replacer', 'mapper', 'full'):
                if pipe != 'bare' and layout == 'holes' and (quick or pipe == 'mapper'):
                    continue
                if pipe == 'mapper' and op[0] == 'new':
                    pass
                for n in ((4,) if quick else (4, 5, 6)):
                    yield Case('one/%s/%s/%s/%d' % (name([op]), layout, pipe, n), C.program, dict(n=n, ops=[op], layout=layout, pipe=pipe), **K)
    SHORT = [('x', 1), ('add', 1), ('write', 0), ('measure', 0), ('release', 0), ('new', 0), ('user', 0)]
    for ops in itertools.product(SHORT, repeat=2):
        yield Case('two/%s' % name(ops), C.program, dict(n=3, ops=list(ops)), **K)
    for ops in [(('release', 0), ('new', 0), ('x', 1)), (('new', 0), ('release', 0), ('x', 1)), (('release', 0), ('release', 0), ('x', 0)), (('x', 2), ('release', 0), ('measure', 0)),
                (('new', 0), ('x', 1), ('release', 0)), (('release', 0), ('x', 1), ('new', 0))] + ([] if quick else list(itertools.product(SHORT, repeat=3))):
        yield Case('three/%s' % name(ops), C.program, dict(n=3, ops=list(ops)), weight=5, **K)
    for n in (3, 4):
        for layout in ('plain', 'holes', 'written'):
            for perm in ((0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)):
                yield Case('write/%d/%s/%s' % (n, layout, ''.join(map(str, perm))), C.write, dict(n=n, layout=layout, perm=[p for p in perm if p < n]), **K)
    for which in ('h', 'z', 'r', 'swap', 'qft', 'wide x', 'unknown'):
        yield Case('refuse/' + which, C.refuse, dict(which=which), **K)
    yield Case('forward', C.forwards, {}, **K)
