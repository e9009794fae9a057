"""named mathematical constants: the members of muu::constants<T> are enumerated from clang's AST, their values are read from the constant
initialisers that the compiler folds, and each is compared with the value its name denotes, computed to 60 digits"""
import json, os, re
from fractions import Fraction
import mpmath
from common import *

mpmath.mp.dps = 60
INTS = dict(zero=0, one=1, two=2, three=3, four=4, five=5, six=6, seven=7, eight=8, nine=9, ten=10, one_hundred=100, one_thousand=1000)
NAMED = dict(pi=mpmath.pi, e=mpmath.e, phi=mpmath.phi)
SPECIAL = {'degrees_to_radians': lambda: mpmath.pi / 180, 'radians_to_degrees': lambda: 180 / mpmath.pi}


def denoted(name):
    """the number a constant's name denotes, or None"""
    if name in SPECIAL:
        return SPECIAL[name]()
    if '_over_' in name:
        a, b = name.split('_over_', 1)
        a, b = factor(a), factor(b)
        return None if a is None or b is None else a / b
    return factor(name)


def factor(n):
    if n.startswith('sqrt_'):
        v = factor(n[5:])
        return None if v is None else mpmath.sqrt(v)
    if n in INTS:
        return mpmath.mpf(INTS[n])
    if n in NAMED:
        return +NAMED[n]
    for k, v in NAMED.items():
        if n.endswith('_' + k) and n[:-len(k) - 1] in INTS:
            return INTS[n[:-len(k) - 1]] * v
    return None


# type -> (bits, explicit precision, decoder)
def ieee(bits, ebits, mbits):
    s, ex, m = bits >> (ebits + mbits), (bits >> mbits) & ((1 << ebits) - 1), bits & ((1 << mbits) - 1)
    bias = (1 << (ebits - 1)) - 1
    if ex == (1 << ebits) - 1:
        return ('nan' if m else 'inf', s, m)
    v = Fraction(m, 1 << mbits) * Fraction(2) ** (1 - bias) if ex == 0 else (1 + Fraction(m, 1 << mbits)) * Fraction(2) ** (ex - bias)
    return -v if s else v


def x87(bits):
    s, ex, m = bits >> 79, (bits >> 64) & 0x7FFF, bits & ((1 << 64) - 1)
    if ex == 0x7FFF:
        return ('nan' if m & ((1 << 63) - 1) else 'inf', s, m & ((1 << 63) - 1))
    v = Fraction(m, 1 << 63) * Fraction(2) ** (ex - 16383 if ex else -16382)
    return -v if s else v


TYPES = {
    'half': ('muu::half', 2, 11, lambda b: ieee(b, 5, 10), 15),
    'float': ('float', 4, 24, lambda b: ieee(b, 8, 23), 127),
    'double': ('double', 8, 53, lambda b: ieee(b, 11, 52), 1023),
    'long double': ('long double', 10, 64, x87, 16383),
    'float128': ('muu::float128_t', 16, 113, lambda b: ieee(b, 15, 112), 16383),
}
QUIET = {'half': 1 << 9, 'float': 1 << 22, 'double': 1 << 51, 'long double': 1 << 62, 'float128': 1 << 111}


def members(flags):
    """names of the static data members visible in muu::constants<T>, from the AST of each class template"""
    src = os.path.join(tmpdir(), 'members.cpp')
    open(src, 'w').write('#include <muu/half.h>\n')
    out = {}
    for cls in ('ascii_character_constants', 'floating_point_named_constants', 'integer_positive_constants', 'floating_point_special_constants', 'integer_limits', 'floating_point_traits'):
        r = run([CLANG, '-std=c++20', *INC, *flags, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=muu::impl::' + cls, src])
        names = []
        dec, i = json.JSONDecoder(), 0
        t = r.stdout
        while True:
            i = t.find('{', i)
            if i < 0:
                break
            d, i = dec.raw_decode(t, i)
            st = [d]
            while st:
                x = st.pop()
                if x.get('kind') == 'VarDecl' and x.get('storageClass') == 'static' and x['name'] not in names:
                    names.append(x['name'])
                st.extend(x.get('inner', []))
        if not names:
            raise Broken('no members found in muu::impl::%s: %s' % (cls, r.stderr[:500]))
        out[cls] = sorted(names)
    return out


def values(flags, names, types):
    """{type: {name: bits}} as folded by the compiler"""
    src = os.path.join(tmpdir(), 'consts.cpp')
    with open(src, 'w') as f:
        f.write('#include <muu/half.h>\n')
        for ti, t in enumerate(types):
            cxx, size = TYPES[t][0], TYPES[t][1]
            for n in names:
                # half wraps either a _Float16 or its bits
                e = 'muu::constants<%s>::%s' % (cxx, n)
                f.write('template <typename T, typename = void> struct g_%d_%s { };\n' % (ti, n))
                f.write('template <typename T> struct g_%d_%s<T, decltype(void(muu::constants<T>::%s))> { static constexpr auto v = muu::constants<T>::%s; };\n' % (ti, n, n, n))
                f.write('extern "C" const __attribute__((used)) auto c__%d__%s = g_%d_%s<%s>::v;\n' % (ti, n, ti, n, cxx))
    return parse(src, flags, types)


def parse(src, flags, types):
    ll = src + '.ll'
    r = run([CLANG, '-std=c++20', '-O0', *INC, *flags, '-ferror-limit=0', '-S', '-emit-llvm', src, '-o', ll])
    if r.returncode:
        raise Broken('constants do not compile: ' + r.stderr[:1500])
    res = {t: {} for t in types}
    for m in re.finditer(r'^@c__(\d+)__(\w+) = .*?(?:constant|global) (.*?)(?:, align.*)?$', open(ll).read(), re.M):
        t = types[int(m.group(1))]
        res[t][m.group(2)] = m.group(3)
    return res


def limits(flags):
    """the functions of std::numeric_limits<muu::half>, as folded by the compiler"""
    src = os.path.join(tmpdir(), 'limits.cpp')
    with open(src, 'w') as f:
        f.write('#include <muu/half.h>\nusing L = std::numeric_limits<muu::half>;\n')
        for n in LIMITS:
            f.write('extern "C" const __attribute__((used)) muu::half c__0__%s = (L::%s)();\n' % (n, n))
        for n in LIMIT_DATA:
            f.write('extern "C" const __attribute__((used)) int c__1__%s = int(L::%s);\n' % (n, n))
    return parse(src, flags, ['half', 'int'])


LIMITS = dict(min=0x400, lowest=0xFBFF, max=0x7BFF, epsilon=0x1400, round_error=0x3800, infinity=0x7C00, denorm_min=1, quiet_NaN=None, signaling_NaN=None)
LIMIT_DATA = dict(is_specialized=1, is_signed=1, is_integer=0, is_exact=0, has_infinity=1, has_quiet_NaN=1, radix=2, digits=11, digits10=3, min_exponent=-13, min_exponent10=-4,
                  max_exponent=16, max_exponent10=4, max_digits10=5, is_bounded=1, is_modulo=0, round_style=1)


def check_limits(rep, flags, variant):
    vals = limits(flags)
    cov = rep.coverage
    for n, want in LIMITS.items():
        b = bits_of(vals['half'][n], 'half')
        v = ieee(b, 5, 10)
        cov['obligations'] = cov.get('obligations', 0) + 1
        if (b == want) if want is not None else (isinstance(v, tuple) and v[0] == 'nan' and (n != 'quiet_NaN' or b & 0x200)):
            cov['discharged'] = cov.get('discharged', 0) + 1
            cov.setdefault('proved', []).append('numeric_limits<half>::%s%s' % (n, variant))
        else:
            rep.violation('numeric_limits<half>::' + n, '%s std::numeric_limits<muu::half>::%s() has the bits %#06x' % (variant, n, b))
    for n, want in LIMIT_DATA.items():
        v = int(vals['int'][n].split()[-1]) if 'zeroinitializer' not in vals['int'][n] else 0
        cov['obligations'] += 1
        if v == want:
            cov['discharged'] += 1
            cov['proved'].append('numeric_limits<half>::%s%s' % (n, variant))
        else:
            rep.violation('numeric_limits<half>::' + n, '%s std::numeric_limits<muu::half>::%s is %d' % (variant, n, v))


def check_float128(rep):
    """the __float128 constants exist only with gcc: its folded initialisers are read from the assembly it emits"""
    names = members([])['floating_point_named_constants']
    src = os.path.join(tmpdir(), 'c128.cpp')
    with open(src, 'w') as f:
        f.write('#include <muu/core.h>\n#if !MUU_HAS_FLOAT128\n#error no float128\n#endif\n')
        for n in names:
            f.write('extern "C" const __attribute__((used)) __float128 c__%s = muu::constants<__float128>::%s;\n' % (n, n))
    r = run(['g++', '-std=gnu++17', *INC, '-S', src, '-o', src + '.s'])
    if r.returncode:
        raise Broken('float128 constants do not compile: ' + r.stderr[:1500])
    cov = rep.coverage
    found = {}
    for m in re.finditer(r'^c__(\w+):\n((?:\s+\.\w+\s+-?\d+\n)+)', open(src + '.s').read(), re.M):
        size = dict(quad=8, long=4, value=2, word=2, byte=1, zero=None)
        raw = b''
        for k, v in re.findall(r'\.(\w+)\s+(-?\d+)', m.group(2)):
            if k == 'zero': raw += bytes(int(v))
            elif k in size: raw += (int(v) % (1 << 8 * size[k])).to_bytes(size[k], 'little')
        if len(raw) >= 16: found[m.group(1)] = int.from_bytes(raw[:16], 'little')
    for n in names:
        want = denoted(n)
        if n not in found: raise Broken('no initialiser for %s of float128' % n)
        if want is None: continue
        v = ieee(found[n], 15, 112)
        ulp = mpmath.mpf(2) ** (mpmath.floor(mpmath.log(abs(want), 2)) - 112)
        cov['obligations'] += 1
        if not isinstance(v, tuple) and abs(exact(v) - want) <= ulp / 2 + mpmath.mpf(10) ** -36:
            cov['discharged'] += 1
            cov['proved'].append('%s<float128>' % n)
        else:
            rep.violation('%s<float128>' % n, 'muu::constants<__float128>::%s is %s, the value denoted by its name is %s' % (n, v if isinstance(v, tuple) else mpmath.nstr(exact(v), 40), mpmath.nstr(want, 40)))


def bits_of(text, t):
    """the bit pattern of an LLVM initialiser"""
    if t == 'half':
        m = re.search(r'half 0xH([0-9A-Fa-f]+)', text)
        if m: return int(m.group(1), 16)
        m = re.search(r'\{ i16 (-?\d+)', text)
        if m: return int(m.group(1)) & 0xFFFF
        if 'zeroinitializer' in text: return 0
    text = text.split(' ', 1)[1]
    import struct
    if t == 'float':
        d = int(text, 16) if text.startswith('0x') else struct.unpack('<Q', struct.pack('<d', float(text)))[0]
        s, ex, m = d >> 63, (d >> 52) & 2047, d & ((1 << 52) - 1)
        if ex == 2047: return s << 31 | 255 << 23 | m >> 29
        return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', d))[0]))[0]
    if t == 'double':
        return int(text, 16) if text.startswith('0x') else struct.unpack('<Q', struct.pack('<d', float(text)))[0]
    if t == 'long double':
        return int(text[3:], 16)
    if t == 'float128':
        h = text[3:]
        return int(h[16:] + h[:16], 16)
    raise Broken('initialiser ' + text)


CHARS = dict(backspace=8, escape=27, tab=9, new_line=10, vertical_tab=11, form_feed=12, carriage_return=13, space=32)
CHARS['del'] = 127
CHARS.update({'letter_' + chr(c): c for r in (range(65, 91), range(97, 123)) for c in r}, **{'digit_%d' % i: 48 + i for i in range(10)})
CHARS.update({n: ord(c) for n, c in dict(
    exclamation_mark='!', quote='"', number_sign='#', dollar_sign='$', percent='%', ampersand='&', apostrophe="'", left_parenthesis='(', right_parenthesis=')', asterisk='*', plus='+',
    comma=',', hyphen='-', period='.', forward_slash='/', colon=':', semi_colon=';', less_than='<', equal='=', greater_than='>', question_mark='?', at='@', left_square_bracket='[',
    back_slash='\\', right_square_bracket=']', hat='^', underscore='_', backtick='`', left_brace='{', bar='|', right_brace='}', tilde='~').items()})
INTTYPES = {'char': (8, 1), 'wchar_t': (32, 1), 'char8_t': (8, 0), 'char16_t': (16, 0), 'char32_t': (32, 0), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1),
            'unsigned short': (16, 0), 'int': (32, 1), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0),
            'muu::int128_t': (128, 1), 'muu::uint128_t': (128, 0)}


def check_integers(rep):
    """integer-valued constants of the integer and character types"""
    mem = members([])
    src = os.path.join(tmpdir(), 'ints.cpp')
    exp = {}
    with open(src, 'w') as f:
        f.write('#include <muu/core.h>\n')
        for i, (t, (bits, sgn)) in enumerate(INTTYPES.items()):
            names = mem['integer_positive_constants'] + mem['integer_limits'] + (mem['ascii_character_constants'] if t.startswith(('char', 'wchar')) else [])
            for n in names:
                want = INTS.get(n, CHARS.get(n))
                if n in ('lowest', 'highest'):
                    want = (-(1 << bits - 1) if sgn else 0) if n == 'lowest' else (1 << bits - sgn) - 1
                if want is None:
                    rep.coverage.setdefault('undecided', []).append('%s/%s: no defining value known for this name' % (n, t))
                    continue
                for part, sh in (('lo', 0), ('hi', 64)):
                    if sh and bits < 128: continue
                    exp['%d__%s%s' % (i, n, part)] = (t, n, (want >> sh) % (1 << 64))
                    f.write('extern "C" const __attribute__((used)) unsigned long c__%d__%s%s = (unsigned long)((%s)muu::constants<%s>::%s >> %d);\n' % (
                        i, n, part, t, t, n, sh))
    vals = parse(src, [], list(INTTYPES))
    flat = {}
    for i, t in enumerate(INTTYPES):
        for n, x in vals[t].items():
            flat['%d__%s' % (i, n)] = 0 if 'zeroinitializer' in x else int(x.split()[-1]) % (1 << 64)
    cov = rep.coverage
    bad = set()
    for k, (t, n, want) in exp.items():
        if k not in flat: raise Broken('no initialiser for %s of %s' % (n, t))
        cov['obligations'] = cov.get('obligations', 0) + 1
        if flat[k] == want:
            cov['discharged'] = cov.get('discharged', 0) + 1
            cov.setdefault('proved', []).append('%s<%s>' % (n, t))
        elif (t, n) not in bad:
            bad.add((t, n))
            rep.violation('%s<%s>' % (n, t), 'muu::constants<%s>::%s is %d modulo 2^64, the value denoted by its name is %d' % (t, n, flat[k], want))


def exact(v):
    return mpmath.mpf(v.numerator) / v.denominator


def check_named(rep, flags, variant, types):
    mem = members(flags)
    known = mem['floating_point_named_constants'] + mem['integer_positive_constants']
    special = mem['floating_point_special_constants'] + mem['integer_limits']
    vals = values(flags, known + special, types)
    faithful = 'emulated' in variant
    done = []
    cov = rep.coverage
    for t in types:
        cxx, size, prec, dec, bias = TYPES[t]
        digits = {'float128': 36}.get(t, 21)
        for n in known:
            want = denoted(n)
            if n not in vals[t]:
                raise Broken('no initialiser for %s of %s' % (n, t))
            if want is None:
                cov.setdefault('undecided', []).append('%s/%s: no defining value known for this name' % (n, t))
                continue
            b = bits_of(vals[t][n], t)
            v = dec(b)
            cov['obligations'] = cov.get('obligations', 0) + 1
            ok = not isinstance(v, tuple)
            if ok:
                ulp = mpmath.mpf(2) ** (max(mpmath.floor(mpmath.log(abs(want), 2)), 1 - bias) - (prec - 1)) if want else mpmath.mpf(0)
                ok = abs(exact(v) - want) <= (ulp if faithful else ulp / 2) + mpmath.mpf(10) ** -digits * (1 if ulp else 0)
            if ok:
                cov['discharged'] = cov.get('discharged', 0) + 1
                done.append('%s<%s>%s' % (n, t, variant))
            else:
                rep.violation('%s<%s>' % (n, t), '%s muu::constants<%s>::%s is %s, the value denoted by its name is %s' % (
                    variant, cxx, n, v if isinstance(v, tuple) else mpmath.nstr(exact(v), 25), mpmath.nstr(want, 25)))
        top = (2 - Fraction(1, 1 << (prec - 1))) * Fraction(2) ** bias
        for n, test in (('infinity', lambda v: v == ('inf', 0, 0)), ('negative_infinity', lambda v: v == ('inf', 1, 0)),
                        ('nan', lambda v: isinstance(v, tuple) and v[0] == 'nan' and v[2] & QUIET[t]),
                        ('signaling_nan', lambda v: isinstance(v, tuple) and v[0] == 'nan'),
                        ('highest', lambda v: v == top), ('lowest', lambda v: v == -top)):
            if n not in vals[t]: continue
            v = dec(bits_of(vals[t][n], t))
            cov['obligations'] += 1
            if test(v):
                cov['discharged'] += 1
                done.append('%s<%s>%s' % (n, t, variant))
            else:
                rep.violation('%s<%s>' % (n, t), '%s muu::constants<%s>::%s is %s' % (variant, cxx, n, v if isinstance(v, tuple) else mpmath.nstr(exact(v), 25)))
        if 'negative_zero' in vals[t]:
            b = bits_of(vals[t]['negative_zero'], t)
            cov['obligations'] += 1
            if b == 1 << (size * 8 - 1):
                cov['discharged'] += 1
                done.append('negative_zero<%s>%s' % (t, variant))
            else:
                rep.violation('negative_zero<%s>' % t, '%s muu::constants<%s>::negative_zero has the bits %#x' % (variant, cxx, b))
    cov.setdefault('proved', []).extend(done)
