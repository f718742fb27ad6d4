"""The unitary simulator: product of the executed gates, history, measurement."""
import itertools

from vf import unitary as U
from vf.runner import Case

BOUNDS = dict(quick='programs of 2-7 steps (allocation, release, one- to three-qubit gates with symbolic matrices, 0-2 controls of either polarity, flush, measurement) on up to 3 qubits, every choice of qubits and their order; '
                    'measurement programs with symbolic rotations and symbolic random numbers',
              thorough='programs of up to 8 steps, 4 qubits')
OUTSIDE = 'larger programs; floating-point rounding; the distribution after releasing a qubit that is in superposition'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=20000, branch_ms=300)
    for steps in ('aag', 'aat', 'aaat', 'aaau', 'aac', 'aaaC', 'aaae', 'aagfg', 'aagt', 'aatg', 'agag', 'agat', 'aacc', 'aatt', 'afaft', 'aaX', 'agfac', 'a', 'aa', 'af', 'aafag'):
        yield Case('unitary/' + steps, U.program, dict(steps=steps), weight=len(steps), **K)
    for steps in ('aagdg', 'aacdg', 'aatdag', 'aagda', 'agdaa', 'aaadt', 'agdag', 'aadda', 'aaadct'):
        yield Case('release/' + steps, U.program, dict(steps=steps, unitary_gates=True, release_any=True), weight=len(steps), **K)
    for steps in ('agm', 'aagm', 'aaggm', 'aagcm', 'agfgm', 'aagfcm', 'agmm', 'agmgm', 'aagmc', 'aaxdm', 'aaxdgm', 'agmxm', 'aagmdm', 'agfam', 'agfagm', 'aaXxm', 'aagmam', 'aagmdgm', 'agmag'):
        yield Case('measure/' + steps, U.program, dict(steps=steps, unitary_gates=True), weight=len(steps), **K)
    for steps in ('aaX', 'aaxX', 'aaXX'):
        yield Case('replacer/' + steps, U.program, dict(steps=steps, replacer=True), weight=len(steps), **K)
    for n in (1, 2, 3):
        yield Case('random number 0/%d' % n, U.zero_number, dict(n=n), **K)
    yield Case('available', U.available, {}, **K)
    yield Case('mapped', U.mapped, {}, **K)
