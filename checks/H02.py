import vgcheck
from vg import ci, Unsupported, NODES


LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE


def insert(g, i, ops):
    """std::__ostream_insert(os, p, n): records the characters behind the stream object, for comparison with the specification"""
    os, p, n = NODES[ops[0]], NODES[ops[1]], NODES[ops[2]]
    if os[0] != 'ptr' or p[0] != 'ptr' or os[3] or p[3] or n[0] != 'c' or n[1] > 64: raise Unsupported('stream insertion')
    cs = [g.load_from(g.mem, p[1], p[2] + k, 1, 'i8') for k in range(n[1])]
    for k, c in enumerate(cs): g.store_at(os[1], os[2] + 4096 + k, 1, c, 'i8')
    return ops[0]


CALLS = {'_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': insert}


def check(rep):
    o = {'lin': 16, 'elem': 'i8', 'words': 1, 'xorcut': 4, 'npoints': 20, 'stop': 2}
    runs = [('hash.cpp', {'uuid': ['-DPART_UUID']}, {'elem': 'i8', 'order': 'field'}, lambda n: n != 'uuid_hash'),
            ('hash.cpp', {'uuid': ['-DPART_UUID']}, {'elem': 'i8', 'lin': 16, 'words': 1}, lambda n: n == 'uuid_hash'),
            ('hash.cpp', {'src': ['-DPART_UUIDSRC']}, dict(o, unroll=3), lambda n: 'named' in n),
            ('hash.cpp', {'src': ['-DPART_UUIDSRC']}, {'elem': 'i8', 'calls': CALLS}, lambda n: 'print' in n)]
    vgcheck.check(rep, 'every uuid constructor, field accessor, version and variant classification, relation, hash, name-based (version 5) '
                  'construction and the stream output: each', runs,
                  ['names of the listed lengths; parsing of text is part of the text properties', vgcheck.CLANG])
