"""Tag remover, modifiers, comparison and dummy engines."""
from vf import observers as B
from vf.runner import Case

BOUNDS = dict(quick='tag remover: 8 tag lists (default, empty, overlapping, subclasses), every ordered list of up to 3 tags from six kinds, two commands; modifier and forwarder: every mix of kept, tagged and '
                    'replaced commands in every partition of 3-4 commands into lists; dummy and compare engine: every partition of 3-4 commands; comparison: every pair of programs of 3 commands (or 3 and 2) from ten '
                    'alphabets with rotations of symbolic angles, controls of either sign, tags, flushes',
              thorough='programs of 4 commands, 4 tags')
OUTSIDE = 'longer programs; tags that define equality by something other than their contents'
NOTE = 'angles are symbolic: equality of programs is decided for every coincidence pattern of the angles'


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=60000, branch_ms=300)
    for listed in (None, '', 'c', 'u', 'm', 's', 'so', 'ms', 'cud', 'om'):
        yield Case('tags/%s' % ('default' if listed is None else listed or 'empty'), B.tag_remover, dict(listed=listed, n=3 if quick else 4, ncmds=1), weight=2, **K)
    for listed in (None, 'so', 'm'):
        yield Case('tags/%s/two' % (listed or 'default'), B.tag_remover, dict(listed=listed, n=2, ncmds=2), weight=2, **K)
    for which in ('modifier', 'forwarder'):
        for n in (1, 3) if quick else (1, 3, 5):
            yield Case('%s/%d' % (which, n), B.modifier, dict(which=which, length=n), **K)
    for last in (True, False):
        for save in (True, False):
            yield Case('dummy/%s/%s' % (save, last), B.dummy, dict(save=save, last=last, length=3 if quick else 5), **K)
        yield Case('compare engine passes on/%s' % last, B.dummy, dict(save=False, last=last, length=3 if quick else 5, compare=True), **K)
    AL = dict(disjoint=('X 0', 'H 1', 'X 1', 'H 2'), entangling=('X 0 c1', 'X 1 c0', 'X 2', 'X 0'), swap=('W 01', 'W 10', 'X 0', 'W 12'), rotations=('R 0', 'R 1', 'R 0 c1'), signs=('X 0 c1', 'X 0 c1 s0', 'X 1', 'X 0 c12 s01'),
              tags=('X 0', 'X 0 t1', 'X 0 t12', 'X 1'), measure=('M 0', 'X 0', 'X 1', 'flush'), control=('X 0 c12', 'X 0 c21', 'X 0 c21 s01', 'X 0 c12 s01'), rot2=('R 0', 'X 1 c0', 'R 1'), lone=('X 0', 'X 3', 'X 1 c3', 'flush'))
    for name, al in AL.items():
        for shorter in (False, True):
            yield Case('compare/%s%s' % (name, '/shorter' if shorter else ''), B.compare, dict(alphabet=al, length=3 if quick else 4, shorter=shorter), weight=3, **K)
