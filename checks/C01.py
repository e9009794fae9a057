import vgcheck

LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE + '; compensated summation by compile-time evaluation of witness sequences'


def check(rep):
    vgcheck.check(rep, 'accumulator over 8 integer and 3 floating-point types and vectors: 0 to 4 samples, one at a time, as a range, through the constructor, merged with another accumulator '
                  '(either may be empty), merged with itself, copied:', [('seq.cpp', {'': ['-DPART=1']}, {}, None)],
                  [vgcheck.REALS + ' (but 17 witness sequences whose sum needs the rounding errors to be carried along are evaluated by the compiler)', vgcheck.CLANG])
