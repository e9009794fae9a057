import sys, unicodedata as U
import vgcheck
from vg import mk
LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE


def ranges(f):
    out = []
    for c in range(0x110000):
        if f(c):
            if out and out[-1][1] == c - 1: out[-1][1] = c
            else: out.append([c, c])
    return tuple(tuple(r) for r in out)


def sets():
    """the defining sets: general categories and derived properties from Python's copy of the character database, the rest from PropList.txt"""
    cat = [U.category(chr(c)) for c in range(0x110000)]
    one = lambda *xs: tuple(x if isinstance(x, tuple) else (x, x) for x in xs)
    return {
        'letter': ranges(lambda c: cat[c] in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo')),
        'number': ranges(lambda c: cat[c] in ('Nd', 'Nl')),
        'combining_mark': ranges(lambda c: cat[c] in ('Mn', 'Mc')),
        'lowercase': ranges(lambda c: chr(c).islower()),
        'uppercase': ranges(lambda c: chr(c).isupper()),
        'whitespace': one((9, 13), 0x20, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000),
        'hyphen': one(0x2D, 0xAD, 0x58A, 0x1806, 0x2010, 0x2011, 0x2E17, 0x30FB, 0xFE63, 0xFF0D, 0xFF65),
        'code_point': one((0, 0x10FFFF)),
        'octal_digit': one((0x30, 0x37)), 'decimal_digit': one((0x30, 0x39)),
        'hexadecimal_digit': one((0x30, 0x39), (0x41, 0x46), (0x61, 0x66)),
    }


def calls():
    c = {}
    for n, rs in sets().items():
        c['ucd_' + n] = lambda g, i, ops, rs=rs: mk('inset', rs, ops[0])
    return c


def check(rep):
    o = {'order': 'msb', 'calls': calls(), 'npoints': 20, 'bddlimit': 8000000}
    runs = [('text.cpp', {'utf32.%d' % k: ['-DPART_32=%d' % k] for k in (1, 2, 3, 4)}, o, None),
            ('text.cpp', {'utf16': ['-DPART_16'], 'utf8': ['-DPART_8'], 'hex': ['-DPART_HEX']}, o, None)]
    vgcheck.check(rep, 'Every classification function of a code unit type over all 2^32, 2^16 or 2^8 code units: each', runs,
                  ['the character database is version %s (general categories; Lowercase, Uppercase, White_Space and Hyphen properties)' % U.unidata_version, vgcheck.CLANG])
