"""Exact boolean-function domain (BDDs) for integer value graphs.  Every bit of a value is a boolean function of the input
bits in canonical form, so two values are equal iff their bit vectors are identical."""
import random
from vg import NODES, node, Unsupported, width, FLT, sext
import realnf


class Budget(Exception):
    pass


class BDD:
    def __init__(self, limit=3000000):
        self.lv = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.limit = limit

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.lv)
            if r > self.limit:
                raise Budget('bdd size')
            self.lv.append(v)
            self.lo.append(l)
            self.hi.append(h)
            self.uniq[k] = r
        return r

    def var(self, v):
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        lv = self.lv
        v = min(lv[f], lv[g], lv[h])
        f0, f1 = (self.lo[f], self.hi[f]) if lv[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if lv[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if lv[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def NOT(self, a): return self.ite(a, 0, 1)
    def AND(self, a, b): return self.ite(a, b, 0)
    def OR(self, a, b): return self.ite(a, 1, b)
    def XOR(self, a, b): return self.ite(a, self.NOT(b), b)

    def support(self, fs):
        """variables the functions depend on"""
        seen, vs, st = set(), set(), [f for f in fs if f > 1]
        while st:
            f = st.pop()
            if f in seen: continue
            seen.add(f)
            vs.add(self.lv[f])
            st += [g for g in (self.lo[f], self.hi[f]) if g > 1]
        return vs

    def sat(self, f):
        """one satisfying assignment {level: 0/1}"""
        if f == 0:
            return None
        out = {}
        while f > 1:
            if self.hi[f] != 0:
                out[self.lv[f]] = 1
                f = self.hi[f]
            else:
                out[self.lv[f]] = 0
                f = self.lo[f]
        return out


class Dom:
    def __init__(self, atoms, opts=None, limit=3000000):
        self.o = opts or {}
        self.B = BDD(limit)
        self.atoms = {}
        K = max(1, len(atoms)) + 1
        self.names = {}
        self.K = K
        sep = self.o.get('order') == 'separate'
        bases = {}
        for j, a in enumerate(atoms):
            T = a[2] if a[0] == 'arg' else a[-1]
            w = width(T)
            ws = []
            for i in range(w):
                lvl = (j * 128 + i) if sep else (i * K + j)
                if self.o.get('order') == 'msb':
                    lvl = (w - 1 - i) * K + j
                if self.o.get('order') == 'field':   # byte by byte, the same byte of every object together
                    if a[0] == 'ld' and isinstance(a[1], str):
                        bn = bases.setdefault(a[1], len(bases))
                        lvl = (a[2] * 8 + i) * 64 + bn
                    else:
                        lvl = i * 64 + 32 + j % 32 + (j // 32 << 18)
                self.names[lvl] = (a, i)
                ws.append(self.B.var(lvl))
            self.atoms[a] = ws
        self.next = 1 << 20
        self.opq = {}
        self.isopq = set()
        self.memo = {}
        self.lin = {}
        self.xset = {}
        self.xnode = {}

    def opaque(self, key, w):
        r = self.opq.get(key)
        if r is None:
            r = []
            for i in range(w):
                r.append(self.B.var(self.next))
                self.isopq.add(self.next)
                self.next += 1
            self.opq[key] = r
        return r

    def xorlin(self, x, y):
        """sums modulo 2 of many bits are kept as sets of bits (canonical) instead of being spread out as BDDs"""
        B = self.B
        X = self.xset
        def setof(n):
            if n < 2: return frozenset(), n
            r = X.get(n)
            if r is None and (B.lo[n], B.hi[n]) in ((0, 1), (1, 0)):
                r = (frozenset((B.lv[n],)), B.lo[n])
                X[n] = r
            if r is None:
                m = B.NOT(n)
                r = X.get(m)
                if r is not None: r = (r[0], 1 - r[1])
            return r
        a, b = setof(x), setof(y)
        if a is None or b is None: return B.XOR(x, y)
        vs, c = a[0] ^ b[0], a[1] ^ b[1]
        n = self.xnode.get(vs)
        if n is None:
            if len(vs) <= self.o['xorcut']:
                n = 0
                for v in sorted(vs, reverse=True): n = B.mk(v, n, B.NOT(n))
            else:
                n = self.opaque(('xor', vs), 1)[0]
            self.xnode[vs] = n
            if n > 1:
                X[n] = (vs, 0)
                X[B.NOT(n)] = (vs, 1)
        return B.NOT(n) if c else n

    # ---- word ops
    def const(self, v, w):
        return [(v >> i) & 1 for i in range(w)]

    def add(self, a, b, cin=0):
        B = self.B
        out = []
        c = cin
        for x, y in zip(a, b):
            xy = B.XOR(x, y)
            out.append(B.XOR(xy, c))
            c = B.ite(xy, c, x)
        self.carry = c
        return out

    def neg(self, a):
        return [self.B.NOT(x) for x in a]

    def sub(self, a, b):
        return self.add(a, self.neg(b), 1)

    def isc(self, a):
        return all(x in (0, 1) for x in a)

    def val(self, a):
        return sum(x << i for i, x in enumerate(a))

    def sel(self, c, a, b):
        return [self.B.ite(c, x, y) for x, y in zip(a, b)]

    def eq(self, a, b):
        r = 1
        for x, y in zip(reversed(a), reversed(b)):
            r = self.B.AND(r, self.B.NOT(self.B.XOR(x, y)))
            if r == 0: break
        return r

    def ult(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = self.B.ite(self.B.XOR(x, y), y, r)
        return r

    def lnadd(self, a, b, sign, w):
        """sums and products kept as canonical polynomials over words, modulo 2^w"""
        la = self.linof(a, w)
        lb = self.linof(b, w)
        m = (1 << w) - 1
        r = dict(la)
        for k, c in lb.items():
            r[k] = (r.get(k, 0) + sign * c) & m
            if not r[k]: del r[k]
        return self.fromlin(r, w)

    def lnmul(self, a, b, w):
        la = self.linof(a, w)
        lb = self.linof(b, w)
        m = (1 << w) - 1
        if len(la) * len(lb) > 4000: raise Budget('polynomial')
        r = {}
        for k, c in la.items():
            for q, d in lb.items():
                x = tuple(sorted(k + q))
                v = (r.get(x, 0) + c * d) & m
                if v: r[x] = v
                else: r.pop(x, None)
        return self.fromlin(r, w)

    def linof(self, a, w):
        k = tuple(a)
        l = self.lin.get(k)
        if l is not None: return l
        if self.isc(a):
            v = self.val(a)
            return {(): v} if v else {}
        # constant one bits are an addend; the complement of a word is -1 minus the word
        c = sum(1 << i for i, x in enumerate(a) if x == 1)
        rest = tuple(0 if x == 1 else x for x in a)
        first = next(x for x in rest if x > 1)
        sign = 1
        while first > 1: first = self.B.lo[first]
        if first == 1:
            mask = sum(1 << i for i, x in enumerate(rest) if x > 1)
            rest = tuple(self.B.NOT(x) if x > 1 else x for x in rest)
            c += mask
            sign = -1
        m = (1 << w) - 1
        l = dict(self.lin.get(rest) or {(rest,): 1})
        if sign < 0: l = {k: -v & m for k, v in l.items()}
        c = (c + l.pop((), 0)) & m
        if c: l[()] = c
        return l

    def fromlin(self, r, w):
        if not r: return self.const(0, w)
        if len(r) == 1:
            (k, c), = r.items()
            if k == (): return self.const(c, w)
            if c == 1 and len(k) == 1: return list(k[0])
        # words that never have a one in the same place: their sum is their union
        if all(c == 1 and len(k) == 1 for k, c in r.items() if k != ()):
            bits = self.const(r.get((), 0), w)
            for k in r:
                if k == (): continue
                for i, x in enumerate(k[0]):
                    if x != 0:
                        if bits[i] != 0: break
                        bits[i] = x
                else: continue
                break
            else: return bits
        # x and -1 - x are complements of each other: keep one of the two
        lead = r[min(k for k in r if k != ())]
        m = (1 << w) - 1
        if (-lead & m, m - r.get((), 0)) < (lead, r.get((), 0)):
            q = {k: -v & m for k, v in r.items() if k != ()}
            c = m - r.get((), 0)
            if c: q[()] = c
            return [self.B.NOT(x) for x in self.fromlin(q, w)]
        key = ('lin', w, tuple(sorted(r.items())))
        x = self.opaque(key, w)
        self.lin[tuple(x)] = r
        return x

    def shift(self, kind, a, s, w):
        B = self.B
        fill = a[-1] if kind == 'ashr' else 0
        cur = list(a)
        k = 0
        while (1 << k) < w:
            n = 1 << k
            if s[k] != 0:
                if kind == 'shl':
                    sh = [0] * n + cur[:w - n]
                else:
                    sh = cur[n:] + [fill] * n
                cur = self.sel(s[k], sh, cur)
            k += 1
        # shift amounts >= w are undefined behaviour in C++ (poison in the IR)
        return cur

    def popcount(self, bits, w):
        words = [[b] for b in bits]
        while len(words) > 1:
            nxt = []
            for i in range(0, len(words) - 1, 2):
                x, y = words[i], words[i + 1]
                n = max(len(x), len(y))
                x = x + [0] * (n - len(x))
                y = y + [0] * (n - len(y))
                s = self.add(x, y)
                nxt.append(s + [self.carry])
            if len(words) % 2: nxt.append(words[-1])
            words = nxt
        r = words[0]
        return (r + [0] * w)[:w]

    def clz(self, a, w, trailing=False):
        seq = a if trailing else a[::-1]
        r = self.const(w, w)
        for i in range(len(seq) - 1, -1, -1):
            r = self.sel(seq[i], self.const(i, w), r)
        return r

    def ev(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self.ev1(n)
            self.memo[n] = r
        return r

    def b(self, n):
        return self.ev(n)[0]

    def ev1(self, n):
        t = NODES[n]
        k = t[0]
        B = self.B
        E = self.ev
        if k == 'c': return self.const(t[1], t[2])
        if k == 'fc': return self.const(t[1], width(t[2]))
        if k in ('arg', 'ld', 'vld'):
            if t in self.atoms: return self.atoms[t]
            return self.opaque(t, width(t[-1] if k != 'arg' else t[2]))
        if k == 'tab':
            w = width(t[5])
            i = E(t[4])
            i = self.sub(i, self.const(t[3], len(i))) if t[3] else i
            vals = t[2]
            nb = max(1, (len(vals) - 1).bit_length())
            hi = 0
            for x in i[nb:]: hi = B.OR(hi, x)
            out = self.opaque(('oob', n), w)      # an index outside the array: any value
            memo = {}
            def look(b, lo, hi_):                     # entries lo .. lo + 2^b, as a word
                if lo >= len(vals): return out
                if b == 0: return self.const(vals[lo], w)
                h = 1 << (b - 1)
                return self.sel(i[b - 1], look(b - 1, lo + h, hi_), look(b - 1, lo, hi_))
            return self.sel(hi, out, look(nb, 0, 0))
        if k == 'inset':
            x = E(t[2])
            rs = t[1]
            def build(j, lo, part):                   # is lo + (the low j bits) in one of the ranges
                end = lo + (1 << j) - 1
                part = [r for r in part if r[0] <= end and r[1] >= lo]
                if not part: return 0
                if any(r[0] <= lo and r[1] >= end for r in part): return 1
                return B.ite(x[j - 1], build(j - 1, lo + (1 << (j - 1)), part), build(j - 1, lo, part))
            return [build(len(x), 0, rs)]
        if k == 'ite':
            c = self.b(t[1])
            if c == 1: return E(t[2])
            if c == 0: return E(t[3])
            return self.sel(c, E(t[2]), E(t[3]))
        if k == 'not': return [B.NOT(self.b(t[1]))]
        if k in ('and', 'or', 'xor'):
            f = {'and': B.AND, 'or': B.OR, 'xor': self.xorlin if self.o.get('xorcut') else B.XOR}[k]
            return [f(x, y) for x, y in zip(E(t[2]), E(t[3]))]
        if k in ('add', 'sub'):
            a, b = E(t[2]), E(t[3])
            if self.o.get('lin') and t[1] >= self.o['lin']:
                return self.lnadd(a, b, 1 if k == 'add' else -1, t[1])
            return self.add(a, b) if k == 'add' else self.sub(a, b)
        if k == 'mul':
            a, b = E(t[2]), E(t[3])
            w = t[1]
            if self.o.get('lin') and w >= self.o['lin']:
                return self.lnmul(a, b, w)
            if self.isc(a): a, b = b, a
            if self.isc(b):
                c = self.val(b)
                if bin(c).count('1') <= self.o.get('mulbits', 4) or w <= 16:
                    r = self.const(0, w)
                    for i in range(w):
                        if c >> i & 1: r = self.add(r, [0] * i + a[:w - i])
                    return r
            elif sum(x not in (0, 1) for x in a) + sum(x not in (0, 1) for x in b) <= 20:
                r = self.const(0, w)
                for i in range(w):
                    if b[i] != 0:
                        r = self.add(r, [B.AND(b[i], x) for x in [0] * i + a[:w - i]])
                return r
            x, y = sorted((tuple(a), tuple(b)))
            return self.opaque(('mul', w, x, y), w)
        if k in ('shl', 'lshr', 'ashr'):
            a, s = E(t[2]), E(t[3])
            w = t[1]
            if self.isc(s):
                c = self.val(s)
                if c >= w: return self.opaque(('undef', n), w)
                fill = a[-1] if k == 'ashr' else 0
                return [0] * c + a[:w - c] if k == 'shl' else a[c:] + [fill] * c
            return self.shift(k, a, s, w)
        if k == 'zext': return E(t[3]) + [0] * (t[2] - t[1])
        if k == 'sext':
            a = E(t[3])
            return a + [a[-1]] * (t[2] - t[1])
        if k == 'ext': return E(t[1])[t[2]:t[2] + t[3]]
        if k == 'cat':
            out = []
            for i in range(2, len(t), 2): out += E(t[i])
            return out
        if k == 'icmp':
            a, b = E(t[2]), E(t[3])
            if t[1] == 'eq': return [self.eq(a, b)]
            if t[1] == 'ult': return [self.ult(a, b)]
            if t[1] == 'slt':
                return [self.ult(a[:-1] + [B.NOT(a[-1])], b[:-1] + [B.NOT(b[-1])])]
        if k == 'bc':
            return E(t[1])
        if k == 'int1':
            a = E(t[3])
            w = t[2]
            if t[1] == 'ctpop': return self.popcount(a, w)
            if t[1] == 'ctlz': return self.clz(a, w)
            if t[1] == 'cttz': return self.clz(a, w, True)
            if t[1] == 'bswap':
                return [x for i in range(w // 8 - 1, -1, -1) for x in a[i * 8:i * 8 + 8]]
            if t[1] == 'bitreverse': return a[::-1]
            if t[1] == 'abs':
                return self.sel(a[-1], self.add(self.neg(a), self.const(1, w)), a)
        if k == 'fsh':
            w = t[2]
            a, b, s = E(t[3]), E(t[4]), E(t[5])
            if self.isc(s):
                c = self.val(s) % w
                v = b + a  # low first
                return v[w - c:2 * w - c] if t[1] == 'fshl' else v[c:c + w]
            import math
            nb = w.bit_length() - 1
            v = b + a
            s = s[:nb]
            wide = self.shift('shl' if t[1] == 'fshl' else 'lshr', v, s + [0] * 20, 2 * w)
            return wide[w:] if t[1] == 'fshl' else wide[:w]
        if k == 'sat':
            a, b = E(t[3]), E(t[4])
            w = t[2]
            if t[1] == 'usub': return self.sel(self.ult(a, b), self.const(0, w), self.sub(a, b))
            if t[1] == 'uadd':
                r = self.add(a, b)
                return self.sel(self.carry, self.const(-1, w), r)
        if k in ('udiv', 'urem'):
            a, b = E(t[2]), E(t[3])
            w = t[1]
            if self.isc(b):
                c = self.val(b)
                if c and c & (c - 1) == 0:
                    s = c.bit_length() - 1
                    return a[s:] + [0] * s if k == 'udiv' else a[:s] + [0] * (w - s)
            nz = sum(x not in (0, 1) for x in a)
            if self.o.get('order') == 'msb' and nz > 16 and self.isc(b) and len(B.support(a)) <= 21: nz = 0
            if nz <= 16 and (self.isc(b) or nz + sum(x not in (0, 1) for x in b) <= 16):
                q, r = [0] * w, [0] * w
                for i in range(w - 1, -1, -1):
                    r = [a[i]] + r[:-1]
                    ge = B.NOT(self.ult(r, b))
                    r = self.sel(ge, self.sub(r, b), r)
                    q[i] = ge
                return q if k == 'udiv' else r
            return self.opaque((k, tuple(a), tuple(b)), w)
        if k in ('sdiv', 'srem'):
            return self.opaque((k, tuple(E(t[2])), tuple(E(t[3]))), t[1])
        if k == 'fcmp' and t[1] == 'uno' and t[2] == t[3]:
            return [self.isnan(t[2])]
        if k == 'fpclass':
            return [self.fpclass(t[1], t[2])]
        if k == 'fneg':
            a = E(t[2])
            return a[:-1] + [B.NOT(a[-1])]
        if k == 'fn1' and t[1] == 'fabs':
            return E(t[3])[:-1] + [0]
        if k == 'fn2' and t[1] == 'copysign':
            return E(t[3])[:-1] + [E(t[4])[-1]]
        if k == 'undef':
            return self.opaque(t, width(t[1]) if t[1] != '?' else 64)
        if k == 'p2i': return self.opaque(('p2i', t[1]), 64)
        if k == 'pcmp': return self.opaque(t, 1)
        if k == 'fcmp':
            return self.opaque(('fcmp', t[1], tuple(E(t[2])), tuple(E(t[3]))), 1)
        if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.opaque((k, t[1], tuple(E(t[2])), tuple(E(t[3]))), width(t[1]))
        if k in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            return self.opaque((k, t[1], t[2], tuple(E(t[3]))), width(t[2]))
        if k == 'tload':
            return self.opaque((k, t[1], t[2], tuple((tuple(E(v)), s) for v, s in t[3])), width(t[5]))
        if k == 'ovf' and t[1] in ('sadd', 'ssub'):
            a, b = E(t[3]), E(t[4])
            b2 = self.neg(b) if t[1] == 'ssub' else b
            r = self.add(a, b2, 1 if t[1] == 'ssub' else 0)
            same = B.NOT(B.XOR(a[-1], b2[-1])) if t[1] == 'sadd' else B.XOR(a[-1], b[-1])
            return [B.AND(same, B.XOR(r[-1], a[-1]))]
        if k == 'ptr' or k == 'null':
            return self.opaque(('ptr', n), 64)
        if k in ('lane', 'xv', 'opaque', 'fn1', 'fn2', 'fnN', 'ovf', 'sat'):
            raise Unsupported('bit node %s' % k)
        raise Unsupported('bit node %s' % (t,))

    def fparts(self, n):
        a = self.ev(n)
        w = len(a)
        m = {16: 10, 32: 23, 64: 52}[w]
        B = self.B
        e1 = 1
        ez = 1
        for x in a[m:w - 1]:
            e1 = B.AND(e1, x)
            ez = B.AND(ez, B.NOT(x))
        mz = 1
        for x in a[:m]: mz = B.AND(mz, B.NOT(x))
        return a, m, e1, ez, mz

    def isnan(self, n):
        a, m, e1, ez, mz = self.fparts(n)
        return self.B.AND(e1, self.B.NOT(mz))

    def fpclass(self, mask, n):
        a, m, e1, ez, mz = self.fparts(n)
        B = self.B
        s = a[-1]
        ns = B.NOT(s)
        nan = B.AND(e1, B.NOT(mz))
        q = a[m - 1]
        inf = B.AND(e1, mz)
        zero = B.AND(ez, mz)
        sub = B.AND(ez, B.NOT(mz))
        norm = B.AND(B.NOT(e1), B.NOT(ez))
        cl = [B.AND(nan, B.NOT(q)), B.AND(nan, q), B.AND(inf, s), B.AND(norm, s), B.AND(sub, s), B.AND(zero, s),
              B.AND(zero, ns), B.AND(sub, ns), B.AND(norm, ns), B.AND(inf, ns)]
        r = 0
        for i, c in enumerate(cl):
            if mask >> i & 1: r = B.OR(r, c)
        return r


def decide_all(pairs, opts):
    """all outputs in one domain: the indices of the pairs not shown equal"""
    ats = [x for x in realnf.atoms_of([n for p in pairs for n in p]) if x[0] != 'vld' and (x[2] if x[0] == 'arg' else x[-1]) != 'ptr']
    left = []
    try:
        D = Dom(ats, opts, limit=opts.get('bddlimit', 400000))
        for k, (a, b) in enumerate(pairs):
            if D.ev(a) != D.ev(b): left.append(k)
        return left
    except (Budget, Unsupported, KeyError):
        return list(range(len(pairs)))


def decide(a, b, opts=None):
    opts = opts or {}
    if realnf.is_bool(a) and realnf.is_bool(b) and not opts.get('nosplit'):
        sub = dict(opts, nosplit=True)
        if not realnf.split_bool([(a, b)], lambda x, y: decide(x, y, sub).status == 'proved'):
            return realnf.Result('proved', leaves=1)
    atoms = realnf.atoms_of([a, b])
    atoms = [x for x in atoms if not (x[0] == 'vld')]
    ats = []
    for x in atoms:
        T = x[2] if x[0] == 'arg' else x[-1]
        if T == 'ptr': continue
        ats.append(x)
    why = None
    muls = has_mul([a, b]) and not opts.get('lin')
    plans = [(opts.get('order'), opts.get('lin'))] if opts.get('order') else [(None, 16 if muls else opts.get('lin'))]
    if not opts.get('order'):
        plans += [(None, None)] if muls else []
        plans += [('msb', opts.get('lin')), ('separate', opts.get('lin'))]
        if not opts.get('lin') and not muls: plans.append((None, 16))
    for order, lin in plans:
        o = dict(opts)
        if order: o['order'] = order
        if lin: o['lin'] = lin
        D = Dom(ats, o, limit=opts.get('bddlimit', 400000))
        try:
            x, y = D.ev(a), D.ev(b)
            if x == y:
                return realnf.Result('proved', leaves=len(x), regions=len(D.B.lv))
            d = 0
            for p, q in zip(x, y):
                d = D.B.OR(d, D.B.XOR(p, q))
            s = D.B.sat(d)
            if s is not None and not any(l in D.isopq for l in s):
                pt = {at: 0 for at in ats}
                for l, v in s.items():
                    at, i = D.names[l]
                    pt[at] |= v << i
                ev = lambda ws: sum(bddval(D.B, f, s) << i for i, f in enumerate(ws))
                return realnf.Result('differ', 1, len(x), pt, (a, b, ev(x), ev(y)))
            why = 'opaque'
            continue
        except (Budget, Unsupported, KeyError) as e:
            why = str(e)
            if not isinstance(e, Budget): break
    # points that separate the two graphs after constant folding
    regions = 0
    for pt in realnf.default_points(ats, 1, opts.get('npoints', 400)):
        for at in pt:
            if not isinstance(pt[at], int):
                T = at[2] if at[0] == 'arg' else at[-1]
                pt[at] = random.Random(str(at) + str(regions)).getrandbits(width(T))
        memo = {}
        try:
            x, y = realnf.evalnode(a, pt, memo), realnf.evalnode(b, pt, memo)
        except realnf.Bad:
            continue
        regions += 1
        if x != y:
            return realnf.Result('differ', regions, 0, pt, (a, b, x, y))
    return realnf.Result('undecided', regions, 0, None, why)


def has_mul(nodes):
    seen, st = set(), list(nodes)
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        t = NODES[n]
        if t[0] == 'mul' and t[1] >= 16 and NODES[t[2]][0] != 'c' and NODES[t[3]][0] != 'c':
            return True
        st.extend(realnf.kids_all(t))
    return False


def bddval(B, f, s):
    while f > 1:
        f = B.hi[f] if s.get(B.lv[f], 0) else B.lo[f]
    return f
