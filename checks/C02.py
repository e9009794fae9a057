import vgcheck

LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE


def check(rep):
    vgcheck.check(rep, 'integral_range and its iterators over 8 integer types and 3 pointer types, for all bounds, values and offsets:',
                  [('seq.cpp', {'': ['-DPART=2']}, {}, None)], [vgcheck.CLANG])
