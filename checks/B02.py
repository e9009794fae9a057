import re
from vgcheck import *
import vgcheck
LEVEL = 'other'
NAMES = r'^(bit_ceil|bit_floor|bit_fill|bit_pack|bit_cast|byte_|swizzle|align)'


def check(rep):
    f = lambda n: re.match(NAMES, n)
    vgcheck.check(rep, 'Each bit and byte rearranging function (every unsigned width, enums, signed arguments; run-time and constant-evaluation branch)', [
        ('bits.cpp', {'run time': []}, {}, f),
        ('bits.cpp', {'constant evaluation': CE}, {'unroll': 66}, f),
    ], [CLANG])
