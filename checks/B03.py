from vgcheck import *
import vgcheck
LEVEL = 'other'


def check(rep):
    vgcheck.check(rep, 'Each tagged_ptr operation (alignments 2 to 65536; 64, 57 and 48 address bits)', [
        ('tptr.cpp', {'64 address bits': [], '57 address bits': ['-DMUU_TAGGED_PTR_BITS=57'], '48 address bits': ['-DMUU_TAGGED_PTR_BITS=48']}, {}, None),
    ], [CLANG, 'pointers are the canonical addresses of the platform'])
