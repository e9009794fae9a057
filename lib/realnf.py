"""Real-arithmetic normal forms for value graphs: rational functions over atoms, split by the signs of the gate polynomials.

equal(a, b) decides whether two float-valued (or boolean) nodes denote the same function over the reals:
  'proved'    every reachable or unreachable combination of gate signs gives the same normal form on both sides
  ('differ', point, detail)  a sign region, witnessed by the rational point, on which the normal forms differ
  'undecided' neither
"""
import random, itertools, math
from fractions import Fraction
import mpmath
from vg import NODES, node, mk, Unsupported, fbits_value, width, sext, intop, ICMP, FLT

mpmath.mp.dps = 50
EPS = mpmath.mpf(10) ** -30
TOL = {'double': 1e-14, 'float': 4e-7, 'half': 2e-3, 'x86_fp80': 1e-17}


class NeedSplit(Exception):
    def __init__(self, kind, key):
        self.kind = kind
        self.key = key


class Budget(Exception):
    pass


# ------------------------------------------------------------------------------------------------ polynomials
MAXTERMS = 6000


class Atoms:
    def __init__(self):
        self.desc = []
        self.index = {}
        self.fn = {}  # fname -> list of (argkey poly-rational, atom)
        self.consts = []  # irrational constants (value, atom or poly)

    def get(self, d):
        i = self.index.get(d)
        if i is None:
            i = len(self.desc)
            self.desc.append(d)
            self.index[d] = i
        return i


class Domain:
    def __init__(self):
        self.A = Atoms()
        self.sq = {}  # atom -> poly (sqrt argument)
        self.cosof = {}  # cos atom -> sin atom
        self.memo = {}
        self.gatefree = {}
        self.ONE = {(): Fraction(1)}

    # poly ops -------------------------------------------------------------
    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > 400000:
            raise Budget('poly')
        r = {}
        pend = []
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = c1 * c2
                red = None
                for at, e in m:
                    if e >= 2 and (at in self.sq or at in self.cosof):
                        red = at
                        break
                if red is None:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
                else:
                    pend.append((m, c))
        for m, c in pend:
            p = {(): c}
            rest = []
            for at, e in m:
                if at in self.sq and e >= 2:
                    for _ in range(e // 2):
                        p = self.pmul(p, self.sq[at])
                    if e % 2:
                        rest.append((at, 1))
                elif at in self.cosof and e >= 2:
                    s = self.cosof[at]
                    q = {(): Fraction(1), ((s, 2),): Fraction(-1)}
                    for _ in range(e // 2):
                        p = self.pmul(p, q)
                    if e % 2:
                        rest.append((at, 1))
                else:
                    rest.append((at, e))
            if rest:
                p = self.pmul(p, {tuple(rest): Fraction(1)})
            r = self.padd(r, p)
        if len(r) > MAXTERMS:
            raise Budget('poly terms')
        return r

    @staticmethod
    def mmul(m1, m2):
        if not m1: return m2
        if not m2: return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    # rational ops ---------------------------------------------------------
    def radd(self, x, y, s=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.rnorm(self.padd(n1, n2, s), d1)
        if len(d1) == 1 and len(d2) == 1:
            (m1, c1), = d1.items()
            (m2, c2), = d2.items()
            # lcm of monomials
            e1, e2 = dict(m1), dict(m2)
            l = {a: max(e1.get(a, 0), e2.get(a, 0)) for a in set(e1) | set(e2)}
            f1 = tuple(sorted((a, l[a] - e1.get(a, 0)) for a in l if l[a] > e1.get(a, 0)))
            f2 = tuple(sorted((a, l[a] - e2.get(a, 0)) for a in l if l[a] > e2.get(a, 0)))
            n = self.padd(self.pmul(n1, {f1: 1 / c1}), self.pmul(n2, {f2: 1 / c2}), s)
            return self.rnorm(n, {tuple(sorted(l.items())): Fraction(1)})
        return self.rnorm(self.padd(self.pmul(n1, d2), self.pmul(n2, d1), s), self.pmul(d1, d2))

    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if n1 == d2 and d1 == n2:
            return (self.ONE, self.ONE)
        if n1 == d2: return self.rnorm(n2, d1)
        if n2 == d1: return self.rnorm(n1, d2)
        return self.rnorm(self.pmul(n1, n2), self.pmul(d1, d2))

    def rdiv(self, x, y):
        if not y[0]:
            raise ZeroDivisionError
        return self.rmul(x, (y[1], y[0]))

    def rnorm(self, n, d):
        if not n:
            return (n, self.ONE)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: Fraction(1)}
            if m:
                # cancel common monomial factor
                e = dict(m)
                for k in n:
                    kd = dict(k)
                    for a in list(e):
                        x = min(e[a], kd.get(a, 0))
                        if x:
                            e[a] = x
                        else:
                            del e[a]
                    if not e:
                        break
                if e:
                    def div(k):
                        kd = dict(k)
                        for a, x in e.items():
                            kd[a] = kd.get(a, 0) - x
                        return tuple(sorted((a, x) for a, x in kd.items() if x))
                    n = {div(k): v for k, v in n.items()}
                    d = {div(m): Fraction(1)}
        else:
            if n == d:
                return (self.ONE, self.ONE)
            lead = max(d)
            c = d[lead]
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {k: v / c for k, v in d.items()}
        return (n, d)

    def req(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return self.pclose(n1, n2)
        return self.pclose(self.pmul(n1, d2), self.pmul(n2, d1))

    def req_mod(self, x, y, env):
        """equality on a region, using the polynomials that vanish on it"""
        if self.req(x, y):
            return True
        zeros = [dict(k) for k, v in env.items() if not isinstance(k, int) and v == 0]
        if not zeros:
            return False
        d = self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), -1)
        for _ in range(3):
            for i in range(len(zeros)):
                z = zeros[i]
                if not z: continue
                # z = c*v + rest with v a single atom that does not occur in rest
                for m, c in z.items():
                    if len(m) == 1 and m[0][1] == 1:
                        v = m[0][0]
                        if v in self.sq: continue
                        if any(v == a for mm in z if mm != m for a, _ in mm): continue
                        rest = {k: -q / c for k, q in z.items() if k != m}
                        d = self.psubst(d, v, rest)
                        zeros = [self.psubst(w, v, rest) if j != i else {} for j, w in enumerate(zeros)]
                        break
                else:
                    if len(z) == 1:
                        (m, c), = z.items()
                        # a monomial vanishes: drop the terms it divides
                        md = dict(m)
                        d = {k: q for k, q in d.items() if not all(dict(k).get(a, 0) >= e for a, e in md.items())}
                        # squares of sums of squares vanish only if each part does
                    elif all(q > 0 for q in z.values()) and all(self.positive_mono(k) for k in z):
                        for k in z:
                            if len(k) == 1:
                                d = {t: q for t, q in d.items() if not any(a == k[0][0] for a, _ in t)}
        if d:
            d = self.reduce(d, [z for z in zeros if z])
        if not d:
            return True
        return self.pclose(d, {})

    def reduce(self, d, zeros):
        """d modulo the zeros by multivariate division (exact: what is removed is a multiple of a vanishing polynomial)"""
        if not zeros or len(d) > 400:
            return d
        key = lambda m: (sum(e for _, e in m), [(-a, e) for a, e in sorted(m)])
        leads = [(max(z, key=key), z) for z in zeros]
        for _ in range(400):
            for m in sorted(d, key=key, reverse=True):
                md = dict(m)
                for l, z in leads:
                    if all(md.get(a, 0) >= e for a, e in l):
                        q = dict(md)
                        for a, e in l:
                            q[a] -= e
                        qm = tuple(sorted((a, e) for a, e in q.items() if e))
                        d = self.padd(d, self.pmul(z, {qm: d[m] / z[l]}), -1)
                        break
                else:
                    continue
                break
            else:
                break
            if not d or len(d) > 2000:
                break
        return d

    def psubst(self, p, v, rest):
        out = {}
        pw = {0: self.ONE}
        for m, c in p.items():
            e = 0
            mm = []
            for a, x in m:
                if a == v: e = x
                else: mm.append((a, x))
            if e == 0:
                out = self.padd(out, {m: c})
                continue
            for k in range(1, e + 1):
                if k not in pw: pw[k] = self.pmul(pw[k - 1], rest)
            out = self.padd(out, self.pmul(pw[e], {tuple(mm): c}))
        return out

    def pclose(self, a, b):
        if a == b:
            return True
        # coefficients that come from rounded constants: compare with tolerance
        big = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [Fraction(0)])
        tol = big * Fraction(1, 10 ** 6) if self.inexact else 0
        for m in set(a) | set(b):
            if abs(a.get(m, 0) - b.get(m, 0)) > tol:
                return False
        return True

    inexact = False

    def const(self, c):
        return ({(): Fraction(c)} if c else {}, self.ONE)

    def atom(self, d):
        return ({((self.A.get(d), 1),): Fraction(1)}, self.ONE)

    def snap(self, bits, t):
        v = fbits_value(bits, t)
        if isinstance(v, str):
            return self.atom(('const', v))
        if v == 0:
            return self.const(0)
        tol = TOL[t]
        for lim in (1, 12, 360, 2000):
            q = v.limit_denominator(lim)
            if q and abs(q - v) <= abs(v) * Fraction(tol).limit_denominator(10 ** 20):
                return self.const(q)
        f = mpmath.mpf(v.numerator) / v.denominator
        for nm, k in (('pi', mpmath.pi), ('1/pi', 1 / mpmath.pi), ('e', mpmath.e), ('sqrt2', mpmath.sqrt(2)),
                      ('sqrt3', mpmath.sqrt(3)), ('phi', mpmath.phi), ('sqrt5', mpmath.sqrt(5)),
                      ('sqrtpi', mpmath.sqrt(mpmath.pi))):
            r = f / k
            q = Fraction(int(mpmath.nint(r * 2520)), 2520)
            if q and abs(r - mpmath.mpf(q.numerator) / q.denominator) < abs(r) * tol:
                a = self.A.get(('K', nm))
                return ({((a, 1),): q}, self.ONE)
        # decimal with few digits (0.001, 0.9995)
        for d in range(1, 13):
            q = Fraction(round(v * 10 ** d), 10 ** d)
            if q and abs(q - v) <= abs(v) * Fraction(tol).limit_denominator(10 ** 20):
                return self.const(q)
        self.inexact = True
        return self.const(v)

    # function atoms --------------------------------------------------------
    def fatom(self, name, arg):
        """atom for name(arg) with arg canonicalised by equality search"""
        l = self.A.fn.setdefault(name, [])
        for a, at in l:
            if self.req(a, arg):
                return at
        at = self.A.get(('F', name, len(l)))
        l.append((arg, at))
        self.A.desc[at] = ('F', name, len(l) - 1)
        return at

    def lead_sign(self, n):
        return 1 if n[min(n)] > 0 else -1

    def sqrt(self, x, env):
        n, d = x
        if not n:
            return self.const(0)
        if d != self.ONE:
            # sqrt(n/d) = sqrt(n*d)/|d|
            s = self.sign_poly(d, env)
            if s < 0:
                d = self.padd({}, d, -1)
                n = self.padd({}, n, -1)
            r = self.sqrt((self.pmul(n, d), self.ONE), env)
            return self.rmul(r, (self.ONE, d))
        # content
        c = abs(n[min(n)])
        p = {k: v / c for k, v in n.items()}
        k = Fraction(1)
        a, b = c.numerator, c.denominator
        # sqrt(a/b) = sqrt(a*b)/b ; extract square factor
        ab = a * b
        sqf, root = 1, 1
        f = 2
        m = ab
        while f * f <= m and f < 2000:
            while m % (f * f) == 0:
                m //= f * f
                root *= f
            f += 1
        r = math.isqrt(m)
        if r * r == m:
            root *= r
            m = 1
        k = Fraction(root, b)
        res = self.const(k)
        if m != 1:
            at = self.fatom('sqrt', self.const(m))
            self.sq[at] = {(): Fraction(m)}
            res = self.rmul(res, ({((at, 1),): Fraction(1)}, self.ONE))
        if p != self.ONE:
            if len(p) == 1:
                (mono, cc), = p.items()
                if cc == 1 and all(e % 2 == 0 for _, e in mono):
                    h = {tuple((a, e // 2) for a, e in mono): Fraction(1)}
                    s = self.sign_poly(h, env)
                    return self.rmul(res, (h if s >= 0 else self.padd({}, h, -1), self.ONE))
            at = self.fatom('sqrt', (p, self.ONE))
            self.sq[at] = p
            res = self.rmul(res, ({((at, 1),): Fraction(1)}, self.ONE))
        return res

    def trig(self, name, x):
        n, d = x
        if not n:
            return self.const(0 if name in ('sin', 'tan', 'asin', 'atan') else 1) if name != 'acos' else \
                ({((self.A.get(('K', 'pi')), 1),): Fraction(1, 2)}, self.ONE)
        sg = 1
        if name in ('sin', 'cos', 'tan', 'asin', 'atan') and self.lead_sign(n) < 0:
            n = self.padd({}, n, -1)
            sg = -1 if name != 'cos' else 1
        if name in ('sin', 'cos', 'tan'):
            s = self.fatom('sin', (n, d))
            c = self.fatom('cos', (n, d))
            self.cosof[c] = s
            S = ({((s, 1),): Fraction(sg)}, self.ONE)
            C = ({((c, 1),): Fraction(1)}, self.ONE)
            return S if name == 'sin' else C if name == 'cos' else self.rdiv(S, C)
        at = self.fatom(name, (n, d))
        return ({((at, 1),): Fraction(sg)}, self.ONE)

    # gates -------------------------------------------------------------------
    def positive_mono(self, m):
        return all(a in self.sq or self.A.desc[a][0] == 'K' or e % 2 == 0 for a, e in m)

    def sign_poly(self, p, env):
        """sign of polynomial p in env (-1,0,1) or NeedSplit"""
        if not p:
            return 0
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return 1 if c > 0 else -1
            if all(a in self.sq or self.A.desc[a][0] == 'K' for a, e in m):
                pass
        # canonical key
        lead = min(p)
        c = p[lead]
        sg = 1 if c > 0 else -1
        ac = abs(c)
        key = tuple(sorted((m, v / ac * sg) for m, v in p.items()))
        if key in env:
            return sg * env[key]
        # infinity constants
        hi = self.infsign(p)
        if hi:
            return hi
        # match an equal key up to tolerance
        raise NeedSplit('sign', key)

    def infsign(self, p):
        for m, c in p.items():
            for a, e in m:
                d = self.A.desc[a]
                if d[0] == 'const' and d[1] in ('inf', '-inf') and len(m) == 1:
                    return (1 if d[1] == 'inf' else -1) * (1 if c > 0 else -1)
        return 0

    def sign(self, r, env):
        s = self.sign_poly(r[0], env)
        if s == 0:
            return 0
        if r[1] == self.ONE:
            return s
        return s * self.sign_poly(r[1], env)

    # evaluation -----------------------------------------------------------------
    def hasgate(self, n):
        g = self.gatefree.get(n)
        if g is None:
            t = NODES[n]
            g = t[0] in ('ite', 'icmp', 'fcmp', 'pcmp', 'not', 'and', 'or', 'xor', 'fpclass') or \
                (t[0] == 'fn1' and t[1] in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc')) or  (t[0] == 'fn2') or t[0] in ('uitofp', 'sitofp')
            if not g:
                for x in self.kids(t):
                    if self.hasgate(x):
                        g = True
                        break
            self.gatefree[n] = g
        return g

    @staticmethod
    def kids(t):
        k = t[0]
        if k in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return t[2:4]
        if k == 'fneg': return t[2:3]
        if k in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'): return t[3:4]
        if k == 'fn1': return t[3:4]
        if k == 'fn2': return t[3:5]
        if k == 'ite': return t[1:4]
        return ()

    def ev(self, n, env, memo):
        """rational normal form of float node n under env"""
        if n in self.memo:
            return self.memo[n]
        if n in memo:
            return memo[n]
        # iterative descent for deep graphs is avoided: recursion limit is raised
        r = self.ev1(n, env, memo)
        if not self.hasgate(n):
            self.memo[n] = r
        else:
            memo[n] = r
        return r

    def ev1(self, n, env, memo):
        t = NODES[n]
        k = t[0]
        E = lambda x: self.ev(x, env, memo)
        if k == 'fc':
            return self.snap(t[1], t[2])
        if k in ('arg', 'ld', 'vld'):
            return self.atom(t)
        if k == 'fadd': return self.radd(E(t[2]), E(t[3]))
        if k == 'fsub': return self.radd(E(t[2]), E(t[3]), -1)
        if k == 'fmul':
            return self.rmul(E(t[2]), E(t[3]))
        if k == 'fdiv':
            return self.rdiv(E(t[2]), E(t[3]))
        if k == 'fneg':
            a = E(t[2])
            return (self.padd({}, a[0], -1), a[1])
        if k in ('fpext', 'fptrunc'):
            return E(t[3])
        if k == 'ite':
            return E(t[2]) if self.bev(t[1], env, memo) else E(t[3])
        if k == 'fn1':
            a = E(t[3])
            if t[1] == 'fabs':
                s = self.sign(a, env)
                return a if s >= 0 else (self.padd({}, a[0], -1), a[1])
            if t[1] == 'sqrt':
                return self.sqrt(a, env)
            if t[1] in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
                return self.trig(t[1], a)
            if t[1] in ('floor', 'ceil', 'trunc'):
                return self.rounding(t[1], a, env)
            return ({((self.fatom(t[1], a), 1),): Fraction(1)}, self.ONE)
        if k == 'fn2':
            a, b = E(t[3]), E(t[4])
            if t[1] == 'copysign':
                sa = self.sign(a, env)
                sb = self.sign(b, env)
                sb = 1 if sb == 0 else sb
                return a if sa * sb >= 0 else (self.padd({}, a[0], -1), a[1])
            if t[1] in ('fmin', 'fmax'):
                s = self.sign(self.radd(a, b, -1), env)
                return a if (s < 0) == (t[1] == 'fmin') else b
            l = self.A.fn.setdefault('2' + t[1], [])
            for (x, y), at in l:
                if self.req(x, a) and self.req(y, b):
                    return ({((at, 1),): Fraction(1)}, self.ONE)
            at = self.A.get(('F', '2' + t[1], len(l)))
            l.append(((a, b), at))
            return ({((at, 1),): Fraction(1)}, self.ONE)
        if k in ('sitofp', 'uitofp'):
            x = NODES[t[3]]
            if x[0] == 'c':
                return self.const(sext(x[1], x[2]) if k == 'sitofp' else x[1])
            if x[0] in ('zext',) and NODES[x[3]][0] in ('not', 'icmp', 'fcmp', 'and', 'or') and x[1] == 1:
                return self.const(1 if self.bev(x[3], env, memo) else 0)
            if x[0] == 'ite':
                return E(mk(k, t[1], t[2], x[2])) if self.bev(x[1], env, memo) else E(mk(k, t[1], t[2], x[3]))
            if k == 'sitofp' and self.from_float(t[3]):
                return self.ievf(t[3], env, memo)
            return self.atom(('int', k, t[3]))
        if k == 'bc':
            return self.bcfloat(n, t, env, memo)
        if k in ('undef',):
            return self.atom(('undef', n))
        if k in ('lane', 'xv', 'opaque', 'fnN', 'tload'):
            return self.atom(('op', n))
        if k == 'c' and len(t) > 2 and t[2] in (32, 64):
            # a stored float constant that is read back as its bits
            return self.snap(t[1] & ((1 << t[2]) - 1), 'double' if t[2] == 64 else 'float')
        raise Unsupported('float node %s' % (t,))

    def rounding(self, how, a, env):
        """floor, ceil and trunc expressed by one atom f = floor(a) with 0 <= a - f < 1"""
        if a[1] == self.ONE and all(not m for m in a[0]):
            c = a[0].get((), Fraction(0))
            f = math.floor(c)
            return self.const(f if how == 'floor' or f == c or (how == 'trunc' and c > 0) else f + 1)
        f = ({((self.fatom('floor', a), 1),): Fraction(1)}, self.ONE)
        if self.sign(self.radd(a, f, -1), env) == 0:
            return a
        if how == 'floor' or (how == 'trunc' and self.sign(a, env) > 0):
            return f
        return self.radd(f, self.const(1))

    def from_float(self, n):
        t = NODES[n]
        if t[0] == 'fptosi':
            return True
        return t[0] in ('add', 'sub') and (self.from_float(t[2]) or self.from_float(t[3]))

    def ievf(self, n, env, memo):
        """a signed integer computed from converted floats, without overflow"""
        t = NODES[n]
        if t[0] == 'c':
            return self.const(sext(t[1], t[2]))
        if t[0] == 'fptosi':
            return self.rounding('trunc', self.ev(t[3], env, memo), env)
        if t[0] in ('add', 'sub'):
            return self.radd(self.ievf(t[2], env, memo), self.ievf(t[3], env, memo), 1 if t[0] == 'add' else -1)
        if t[0] == 'ite':
            return self.ievf(t[2] if self.bev(t[1], env, memo) else t[3], env, memo)
        if t[0] in ('zext', 'sext') and t[1] == 1:
            return self.const((1 if t[0] == 'zext' else -1) if self.bev(t[3], env, memo) else 0)
        raise Unsupported('integer %s made from floats' % t[0])

    def roundings(self, env):
        """(arg, atom) of the floor atoms in the conditions of env"""
        l = self.A.fn.get('floor')
        if not l:
            return []
        used = {a for k in env if not isinstance(k, int) for m, c in k for a, e in m}
        return [(x[0], at) for x, at in l if at in used and x[1] == self.ONE]

    def bcfloat(self, n, t, env, memo):
        """float made by integer sign-bit tricks"""
        return self.atom(('op', n))

    def bev(self, n, env, memo):
        t = NODES[n]
        k = t[0]
        if k == 'c':
            return bool(t[1])
        if k == 'not':
            return not self.bev(t[1], env, memo)
        if k == 'ite':
            return self.bev(t[2], env, memo) if self.bev(t[1], env, memo) else self.bev(t[3], env, memo)
        if k in ('and', 'or') and t[1] == 1:
            # try either side first so that a decided operand avoids splits
            pend = None
            for x in t[2:4]:
                try:
                    v = self.bev(x, env, memo)
                except NeedSplit as e:
                    pend = pend or e
                    continue
                if v == (k == 'or'):
                    return v
            if pend:
                raise pend
            return k == 'and'
        if k == 'xor' and t[1] == 1:
            return self.bev(t[2], env, memo) != self.bev(t[3], env, memo)
        if k == 'fcmp':
            p = t[1]
            if p == 'uno':
                return False
            a, b = self.ev(t[2], env, memo), self.ev(t[3], env, memo)
            s = self.sign(self.radd(a, b, -1), env)
            return {'olt': s < 0, 'ole': s <= 0, 'oeq': s == 0, 'one': s != 0}[p]
        if k == 'icmp':
            if n in env:
                return env[n]
            x, c = t[2], t[3]
            if t[1] == 'eq':
                # a node known equal to another constant
                for o, v in env.items():
                    if isinstance(o, int) and v and NODES[o][0] == 'icmp' and NODES[o][1] == 'eq':
                        u = NODES[o]
                        for p, q in ((u[2], u[3]), (u[3], u[2])):
                            for y, z in ((x, c), (c, x)):
                                if p == y and NODES[q][0] == 'c' and NODES[z][0] == 'c':
                                    return q == z
                for y, z in ((x, c), (c, x)):
                    if NODES[y][0] == 'c':
                        f = NODES[z]
                        if f[0] == 'ite':
                            from vg import Graph
                            v = self.bev(f[1], env, memo)
                            return self.ieq(f[2] if v else f[3], y, env, memo)
                        if f[0] == 'zext' and f[1] == 1:
                            return (NODES[y][1] == 1) == self.bev(f[3], env, memo) if NODES[y][1] in (0, 1) else False
            raise NeedSplit('bool', n)
        if k == 'fpclass':
            # reals are finite: 0x3 nan, 0x204 inf
            if not (t[1] & ~0x207):
                return False
        if k == 'ext' and t[3] == 1 and t[2] == 0:
            u = NODES[t[1]]
            if u[0] == 'zext' and u[1] == 1:
                return self.bev(u[3], env, memo)
        if n in env:
            return env[n]
        raise NeedSplit('bool', n)

    def ieq(self, a, c, env, memo):
        t = NODES[a]
        if t[0] == 'c':
            return t[1] == NODES[c][1]
        if t[0] == 'ite':
            return self.ieq(t[2] if self.bev(t[1], env, memo) else t[3], c, env, memo)
        x, y = min(a, c), max(a, c)
        return self.bev(mk('icmp', 'eq', x, y, NODES[c][2]), env, memo)


# ------------------------------------------------------------------------------------------------ numeric points
class Bad(Exception):
    pass


def evalnode(n, pt, memo):
    """value of node n at the point pt (atom tuple -> mpf/int); constant folding of the value graph"""
    if n in memo:
        v = memo[n]
        if v is Bad:
            raise Bad()
        return v
    try:
        v = _eval(n, pt, memo)
    except (ZeroDivisionError, Bad, ValueError, OverflowError):
        memo[n] = Bad
        raise Bad()
    memo[n] = v
    return v


INF = mpmath.inf


def _eval(n, pt, memo):
    t = NODES[n]
    k = t[0]
    E = lambda x: evalnode(x, pt, memo)
    if k == 'c':
        return t[1]
    if k == 'fc':
        v = fbits_value(t[1], t[2])
        if isinstance(v, str):
            if v == 'nan': raise Bad()
            return INF if v == 'inf' else -INF
        return mpmath.mpf(v.numerator) / v.denominator
    if k in ('arg', 'ld'):
        if t not in pt:
            raise Bad()
        return pt[t]
    if k == 'vld':
        # the element the indices select
        off = t[2]
        for v, s in t[3]:
            off += sext(E(v), 64) * s
        a = ('ld', t[1], off, t[4])
        if a not in pt:
            raise Bad()
        return pt[a]
    if k == 'ite':
        return E(t[2]) if E(t[1]) else E(t[3])
    if k == 'not':
        return 1 - E(t[1])
    if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = E(t[2]), E(t[3])
        if k == 'fdiv' and b == 0:
            raise Bad()
        r = a + b if k == 'fadd' else a - b if k == 'fsub' else a * b if k == 'fmul' else a / b
        if mpmath.isnan(r):
            raise Bad()
        return r
    if k == 'fneg':
        return -E(t[2])
    if k in ('fpext', 'fptrunc'):
        return E(t[3])
    if k == 'fn1':
        a = E(t[3])
        f = t[1]
        if f == 'fabs': return abs(a)
        if f in ('sqrt', 'log', 'log2', 'log10') and a < 0: raise Bad()
        if f in ('asin', 'acos') and abs(a) > 1:
            if abs(a) < 1 + 1e-20:
                a = mpmath.sign(a)
            else:
                raise Bad()
        if f in ('exp2',): return mpmath.power(2, a)
        if f == 'log2': return mpmath.log(a, 2)
        if f == 'rint' or f == 'nearbyint' or f == 'roundeven': return mpmath.nint(a)
        if f == 'trunc': return mpmath.floor(a) if a >= 0 else mpmath.ceil(a)
        if f == 'round': return mpmath.sign(a) * mpmath.floor(abs(a) + mpmath.mpf(1) / 2)
        return getattr(mpmath, f)(a)
    if k == 'fn2':
        a, b = E(t[3]), E(t[4])
        f = t[1]
        if f == 'copysign': return abs(a) if b >= 0 else -abs(a)
        if f == 'pow': return mpmath.power(a, b)
        if f == 'atan2': return mpmath.atan2(a, b)
        if f == 'fmin': return min(a, b)
        if f == 'fmax': return max(a, b)
        if f == 'hypot': return mpmath.hypot(a, b)
        if f == 'fmod': return mpmath.fmod(a, b)
        raise Bad()
    if k == 'fcmp':
        p = t[1]
        a = E(t[2])
        b = E(t[3])
        if p == 'uno': return 0
        d = a - b if not (mpmath.isinf(a) or mpmath.isinf(b)) else (0 if a == b else (1 if a > b else -1))
        if abs(d) < EPS: d = 0
        return int({'olt': d < 0, 'ole': d <= 0, 'oeq': d == 0, 'one': d != 0}[p])
    if k == 'icmp':
        return int(ICMP[t[1]](E(t[2]), E(t[3]), t[4]))
    if k in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        if k in ('and', 'or') and t[1] == 1:
            # a poisoned operand does not matter when the other decides
            a = E(t[2])
            if a == (k == 'or'): return a
            return E(t[3])
        r = intop(k, t[1], E(t[2]), E(t[3]))
        if r is None: raise Bad()
        return r
    if k == 'zext': return E(t[3])
    if k == 'sext': return sext(E(t[3]), t[1]) & ((1 << t[2]) - 1)
    if k == 'ext': return E(t[1]) >> t[2] & ((1 << t[3]) - 1)
    if k == 'cat':
        v = sh = 0
        for i in range(2, len(t), 2):
            v |= E(t[i]) << sh
            sh += t[i + 1]
        return v
    if k == 'int1':
        a = E(t[3])
        w = t[2]
        if t[1] == 'ctpop': return bin(a).count('1')
        if t[1] == 'ctlz': return w - a.bit_length()
        if t[1] == 'cttz': return w if a == 0 else (a & -a).bit_length() - 1
        if t[1] == 'bswap': return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
        if t[1] == 'bitreverse': return int(format(a, '0%db' % w)[::-1], 2)
        if t[1] == 'abs': return abs(sext(a, w)) & ((1 << w) - 1)
    if k == 'fsh':
        w = t[2]
        a, b, s = E(t[3]), E(t[4]), E(t[5]) % w
        v = (a << w | b)
        r = v << s >> w if t[1] == 'fshl' else v >> s
        return r & ((1 << w) - 1)
    if k == 'sat':
        a, b = E(t[3]), E(t[4])
        w = t[2]
        if t[1] == 'usub': return max(0, a - b)
        if t[1] == 'uadd': return min((1 << w) - 1, a + b)
        x, y = sext(a, w), sext(b, w)
        r = x + y if t[1] == 'sadd' else x - y
        return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & ((1 << w) - 1)
    if k == 'ovf':
        x, y = sext(E(t[3]), t[2]), sext(E(t[4]), t[2])
        r = x + y if t[1] == 'sadd' else x - y if t[1] == 'ssub' else x * y
        return int(not (-(1 << (t[2] - 1)) <= r < (1 << (t[2] - 1))))
    if k == 'sitofp': return mpmath.mpf(sext(E(t[3]), width(t[1])))
    if k == 'uitofp': return mpmath.mpf(E(t[3]))
    if k in ('fptosi', 'fptoui'):
        a = E(t[3])
        return int(mpmath.floor(a) if a >= 0 else mpmath.ceil(a)) & ((1 << width(t[2])) - 1)
    if k == 'fpclass':
        if not (t[1] & ~0x207): return 0
    if k == 'bc' and t[2] in FLT and t[3].startswith('i'):
        raise Bad()
    raise Bad()


def atoms_of(nodes):
    seen, out, st = set(), [], list(nodes)
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        t = NODES[n]
        if t[0] in ('arg', 'ld', 'vld'):
            out.append(t)
            if t[0] == 'vld': st.extend(v for v, s in t[3])
            continue
        st.extend(kids_all(t))
    return sorted(out, key=str)


def kids_all(t):
    k = t[0]
    if k in ('c', 'fc', 'undef', 'null', 'ptr', 'fn', 'md', 'opaque'): return ()
    if k in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return t[2:4]
    if k in ('fneg',): return t[2:3]
    if k in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'zext', 'sext', 'int1', 'fn1'): return t[3:4]
    if k == 'fn2': return t[3:5]
    if k == 'ite': return t[1:4]
    if k == 'not': return t[1:2]
    if k in ('fcmp', 'icmp'): return t[2:4]
    if k in ('sat', 'ovf'): return t[3:5]
    if k in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): return t[2:4]
    if k == 'ext': return t[1:2]
    if k == 'cat': return t[2::2]
    if k == 'bc': return t[1:2]
    if k == 'fsh': return t[3:6]
    if k == 'fpclass': return t[2:3]
    if k in ('vec', 'agg'): return t[1:]
    if k in ('lane', 'xv', 'p2i', 'i2p'): return t[1:2] if k != 'xv' else t[1:2]
    if k == 'fnN': return t[3:]
    if k == 'pcmp': return t[2:4]
    if k == 'tload': return tuple(v for v, s in t[3])
    if k == 'tab': return t[4:5]
    if k == 'inset': return t[2:3]
    return ()


def default_points(atoms, seed=1, count=300):
    rnd = random.Random(seed)
    F = Fraction
    small = [F(0), F(1), F(-1), F(2), F(-2), F(1, 2), F(-1, 2), F(3), F(-3)]
    pts = []
    for i in range(count):
        pt = {}
        mode = i % 5
        for a in atoms:
            T = a[2] if a[0] == 'arg' else a[-1]
            if T in FLT:
                if mode == 0:
                    v = rnd.choice(small)
                elif mode == 1:
                    v = F(rnd.randint(-50, 50), rnd.randint(1, 7))
                elif mode == 2:
                    v = F(rnd.randint(1, 60), rnd.randint(1, 5))
                elif mode == 3:
                    v = F(rnd.randint(-3, 3))
                else:
                    v = F(rnd.randint(-999, 999), 1000)
                pt[a] = mpmath.mpf(v.numerator) / v.denominator
            elif T.startswith('i'):
                w = width(T)
                pt[a] = rnd.choice([0, 1, 2, 3, rnd.getrandbits(w), (1 << w) - 1, 1 << (w - 1), rnd.randint(0, min(255, (1 << w) - 1))]) & ((1 << w) - 1)
        pts.append(pt)
    return pts


class Result:
    def __init__(self, status, regions=0, leaves=0, point=None, detail=None):
        self.status, self.regions, self.leaves, self.point, self.detail = status, regions, leaves, point, detail


def conjuncts(n, neg=False, out=None, seen=None):
    """flatten a boolean node into the set of (node, negated) whose conjunction it is"""
    if out is None: out, seen = [], set()
    if (n, neg) in seen: return out
    seen.add((n, neg))
    t = NODES[n]
    if t[0] == 'not': return conjuncts(t[1], not neg, out, seen)
    if t[0] == ('or' if neg else 'and') and t[1] == 1:
        conjuncts(t[2], neg, out, seen)
        return conjuncts(t[3], neg, out, seen)
    if t[0] == 'ite':
        for x, pol, y in ((t[2], True, t[3]), (t[3], False, t[2])):
            c = NODES[y]
            if c[0] == 'c' and bool(c[1]) == neg:  # the other branch makes the conjunction false
                conjuncts(t[1], not pol, out, seen)
                return conjuncts(x, neg, out, seen)
    if t[0] == 'c' and bool(t[1]) != neg:
        return out
    out.append((n, neg))
    return out


def split_bool(pairs, eq=None):
    """replace (and-tree, and-tree) by pairwise equal conjuncts when they can be matched one to one"""
    out = []
    for a, b in pairs:
        done = False
        for neg in (False, True):
            ca, cb = conjuncts(a, neg), conjuncts(b, neg)
            if len(ca) < 3 or len(ca) != len(cb): continue
            cb = list(cb)
            ok = True
            for x, nx in ca:
                hit = None
                for y in cb:
                    if x == y[0]:
                        if nx == y[1]: hit = y
                    elif set(atoms_of([x])) == set(atoms_of([y[0]])):
                        z = y[0] if nx == y[1] else mk('not', y[0])
                        if eq(x, z) if eq else decide([(x, z)], True, [], 300, nosplit=True).status == 'proved': hit = y
                    if hit: break
                if not hit:
                    ok = False
                    break
                cb.remove(hit)
            if ok:
                done = True
                break
        if not done: out.append((a, b))
    return out


def decide(pairs, isbool=False, points=None, maxleaves=3000, seed=1, relevant=None, nosplit=False):
    """pairs: [(impl node, spec node)] all checked; returns Result"""
    if not nosplit and (isbool or all(is_bool(a) for a, b in pairs)):
        n0 = len(pairs)
        left = split_bool(pairs)
        if not left:
            return Result('proved', leaves=n0)
    D = Domain()
    LPC.clear()
    leaves = 0
    fail = None
    try:
        for a, b in pairs:
            if a == b:
                leaves += 1
                continue
            stack = [{}]
            while stack:
                env = stack.pop()
                leaves += 1
                if leaves > maxleaves:
                    raise Budget('leaves')
                try:
                    memo = {}
                    if isbool or is_bool(a) or is_bool(b):
                        ok = D.bev(a, env, memo) == D.bev(b, env, memo)
                    else:
                        ok = D.req_mod(D.ev(a, env, memo), D.ev(b, env, memo), env)
                except NeedSplit as s:
                    leaves -= 1
                    if s.kind == 'bool':
                        for v in (True, False):
                            e = dict(env)
                            e[s.key] = v
                            stack.append(e)
                    else:
                        p = dict(s.key)
                        dom = (-1, 0, 1)
                        if all(c > 0 and D.positive_mono(m) for m, c in p.items()):
                            dom = (0, 1) if () not in p else (1,)
                        for v in dom:
                            e = dict(env)
                            e[s.key] = v
                            if infeasible(D, e, s.key):
                                continue
                            stack.append(e)
                    continue
                except ZeroDivisionError:
                    continue
                if not ok:
                    if infeasible_lp(D, env) or infeasible_lp(D, env, True):
                        continue
                    fail = fail or env
                    break
            if fail is not None:
                break
        if fail is None:
            return Result('proved', leaves=leaves)
    except (Budget, Unsupported, KeyError) as e:
        fail = str(e)
    # sign regions that a rational point certifies as non-empty
    nodes = [x for p in pairs for x in p]
    atoms = atoms_of(nodes)
    pts = points(atoms) if callable(points) else (points if points is not None else default_points(atoms, seed))
    regions = 0
    for pt in pts:
        memo = {}
        for a, b in pairs:
            if a == b: continue
            try:
                x, y = evalnode(a, pt, memo), evalnode(b, pt, memo)
            except Bad:
                continue
            regions += 1
            if isinstance(x, int) and isinstance(y, int):
                bad = x != y
            elif mpmath.isinf(x) or mpmath.isinf(y):
                bad = x != y
            else:
                bad = abs(x - y) > mpmath.mpf('1e-5') * (1 + abs(x) + abs(y))
            if bad and not isinstance(x, int) and not isinstance(y, int):
                # a witness only counts if neither value depends on the working precision (degenerate cancellation)
                with mpmath.workdps(110):
                    m2 = {}
                    try:
                        for u, v in ((a, x), (b, y)):
                            w = evalnode(u, pt, m2)
                            if mpmath.isinf(w) != mpmath.isinf(v) or (not mpmath.isinf(w) and abs(w - v) > mpmath.mpf('1e-15') * (1 + abs(v))):
                                bad = False
                    except Bad:
                        bad = False
            if bad:
                return Result('differ', regions, leaves, pt, (a, b, x, y))
    return Result('undecided', regions, leaves, None, fail)


def infeasible(D, env, key):
    """prune a new sign condition that contradicts the others (all of its monomials occur in them already)"""
    for k, v in env.items():
        if isinstance(k, int) or len(k) != 1:
            continue
        (m, c), = k
        s = 1 if c > 0 else -1
        for a, e in m:
            sa = env.get(((((a, 1),), ONE1),))
            if sa is None:
                break
            s *= sa ** e
        else:
            if s != v:
                return True
    old = set()
    for k in env:
        if not isinstance(k, int) and k != key:
            old.update(m for m, c in k)
    if not D.roundings({key: 0}) and (len(env) < 3 or not all(m in old or not m for m, c in key)):
        return False
    ck = frozenset(env.items())
    r = LPC.get(ck)
    if r is None:
        r = LPC[ck] = infeasible_lp(D, env)
    return r


LPC = {}
ONE1 = Fraction(1)


def infeasible_lp(D, env, products=False):
    """polyhedral emptiness of a sign region: monomials are treated as independent variables; with products, the
    pairwise products of the conditions are added (a refutation of degree two)"""
    try:
        import numpy as np
        from scipy.optimize import linprog
    except ImportError:
        return False
    keys = [k for k in env if not isinstance(k, int)]
    if not keys:
        return False
    if products:
        env = {k: env[k] for k in keys}
        for i, a in enumerate(keys):
            for b in keys[i:]:
                if len(a) * len(b) <= 64 and (len(a) == 1 or len(b) == 1 or len(keys) <= 24):
                    p = D.pmul(dict(a), dict(b))
                    if p:
                        env.setdefault(tuple(sorted(p.items())), env[a] * env[b])
        keys = list(env)
    monos = {}
    for k in keys:
        for m, c in k:
            if m and m not in monos:
                monos[m] = len(monos)
    nv = len(monos) + 1
    A, bvec, Ae, be = [], [], [], []
    for k in keys:
        row = [0.0] * nv
        c0 = 0.0
        for m, c in k:
            if m:
                row[monos[m]] = float(c)
            else:
                c0 = float(c)
        s = env[k]
        if s == 0:
            Ae.append(row)
            be.append(-c0)
        else:
            r = [-s * x for x in row]
            r[-1] = 1.0
            A.append(r)
            bvec.append(s * c0)
    for x, at in D.roundings(env):
        # x - f >= 0, f + 1 - x > 0, and f is an integer: x >= 0 gives f >= 0, x < 0 gives f <= -1
        fm = ((at, 1),)
        if fm not in monos or any(m and m not in monos for m in x):
            if fm not in monos:
                continue
            x = None
        rows = []
        if x is not None:
            rows += [({**x, fm: x.get(fm, 0) - 1}, False), ({**{m: -c for m, c in x.items()}, fm: 1, (): 1 - x.get((), 0)}, True)]
            lead = min(x)
            key = tuple(sorted((m, v / x[lead]) for m, v in x.items()))
            sx = env.get(key)
            if sx is not None:
                sx *= 1 if x[lead] > 0 else -1
                rows.append(({fm: 1}, False) if sx >= 0 else ({fm: -1, (): -1}, False))
        for p, strict in rows:
            row = [0.0] * nv
            for m, c in p.items():
                if m:
                    row[monos[m]] = -float(c)
            row[-1] = 1.0 if strict else 0.0
            A.append(row)
            bvec.append(float(p.get((), 0)))
    bounds = []
    for m in monos:
        pos = D.positive_mono(m)
        bounds.append((0 if pos else None, None))
    bounds.append((None, 1))
    c = [0.0] * nv
    c[-1] = -1.0
    try:
        r = linprog(c, A_ub=A or None, b_ub=bvec or None, A_eq=Ae or None, b_eq=be or None, bounds=bounds, method='highs')
    except Exception:
        return False
    if r.status == 2:
        return True
    if r.status == 0 and -r.fun <= 1e-9:
        return True
    return False


def is_bool(n):
    t = NODES[n]
    if t[0] == 'c':
        return t[2] == 1
    if t[0] in ('not', 'fcmp', 'icmp', 'pcmp', 'fpclass'):
        return True
    if t[0] in ('and', 'or', 'xor'):
        return t[1] == 1
    if t[0] == 'ite':
        return is_bool(t[2]) or is_bool(t[3])
    return False
