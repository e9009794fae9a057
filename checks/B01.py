import re
from vgcheck import *
import vgcheck
LEVEL = 'other'
NAMES = r'^(popcount|has_single_bit|countl_(zero|one)|countr_(zero|one)|bit_width)_'


def check(rep):
    f = lambda n: re.match(NAMES, n)
    vgcheck.check(rep, 'Each bit-counting function (every unsigned width, enums, 128-bit integers; intrinsic and constant-evaluation branch)', [
        ('bits.cpp', {'run time': []}, {}, f),
        ('bits.cpp', {'constant evaluation': CE}, {'unroll': 66}, f),
    ], [CLANG])
