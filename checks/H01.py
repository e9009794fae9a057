import os
from common import *
import vgcheck


LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE


def have_state():
    """the digest words of a hasher under construction can be named (otherwise the sizes with partial blocks stay undecided)"""
    src = os.path.join(tmpdir(), 'probe.cpp')
    open(src, 'w').write('#include <muu/hashing.h>\nvoid f(muu::sha1& h) { h.state.digest.value[4] = unsigned(h.processed_blocks); }\n')
    return run([CLANG, '-std=c++20', '-w', '-fno-access-control', '-fsyntax-only', *INC, src]).returncode == 0


def check(rep):
    h = have_state()
    st = ['-DHAVE_STATE', '-fno-access-control'] if h else []
    o = {'lin': 16, 'elem': 'i8', 'words': 1, 'xorcut': 4, 'npoints': 20, 'stop': 2, 'bddlimit': 6000000}
    runs = [('hash.cpp', {'sha1.%d' % k: ['-DPART_SHA=%d' % k] + st for k in (1, 2, 3, 4) + ((6,) if h else ())}, o, None),
            ('hash.cpp', {'sha1.5': ['-DPART_SHA=5'] + st}, dict(o, unroll=6), None),
            ('hash.cpp', {'fnv': ['-DPART_FNV']}, {'lin': 16, 'elem': 'i8', 'words': 1}, None)]
    vgcheck.check(rep, 'SHA-1 over messages of each listed length split into calls in each listed way (all message contents, and any number of '
                  'preceding blocks), FNV-1a over 0-20 bytes and the integral hash combiners: each', runs,
                  ['message lengths and call splits are the listed ones (every padding case of FIPS 180-4 is among them)', vgcheck.CLANG])
