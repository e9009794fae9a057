import vgcheck

LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE + '; conversions and deduction decided by the type checker'


def check(rep):
    vgcheck.check(rep, 'span over 4 element types, fixed and dynamic extents, for all pointers, sizes, offsets and counts within the preconditions, against std::span:',
                  [('seq.cpp', {'': ['-DPART=3']}, {}, None)], [vgcheck.CLANG])
