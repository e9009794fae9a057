"""Value graphs (gated SSA) of loop-free LLVM IR functions.

load(json) -> Module; Module.graph(fname) -> Graph with .ret (node id or None) and .mem (final memory).
Nodes are hash-consed tuples in a global table, so equal expressions get equal ids (value numbering).
Nothing is executed: a phi becomes an ITE over the branch conditions between the merge and its dominator.
"""
import json, sys, struct
from fractions import Fraction

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------------------------------------- node table
# truncating a sum is the sum of the truncated operands: pushed inwards unless words are to be kept whole
NARROW = True
NODES = []
_INDEX = {}


def mk(*t):
    i = _INDEX.get(t)
    if i is None:
        i = len(NODES)
        NODES.append(t)
        _INDEX[t] = i
    return i


def node(i):
    return NODES[i]


def reset():
    NODES.clear()
    _INDEX.clear()


def ci(v, w):
    return mk('c', v & ((1 << w) - 1), w)


TRUE = lambda: ci(1, 1)
FALSE = lambda: ci(0, 1)


def isconst(n):
    return NODES[n][0] == 'c'


def sext(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def ite(c, a, b):
    if a == b:
        return a
    t = NODES[c]
    if t[0] == 'c':
        return a if t[1] else b
    if t[0] == 'not':
        return ite(t[1], b, a)
    return mk('ite', c, a, b)


def not_(c):
    t = NODES[c]
    if t[0] == 'c':
        return ci(1 - t[1], 1)
    if t[0] == 'not':
        return t[1]
    return mk('not', c)


ICMP = {
    'eq': lambda a, b, w: a == b, 'ne': lambda a, b, w: a != b,
    'ult': lambda a, b, w: a < b, 'ule': lambda a, b, w: a <= b,
    'ugt': lambda a, b, w: a > b, 'uge': lambda a, b, w: a >= b,
    'slt': lambda a, b, w: sext(a, w) < sext(b, w), 'sle': lambda a, b, w: sext(a, w) <= sext(b, w),
    'sgt': lambda a, b, w: sext(a, w) > sext(b, w), 'sge': lambda a, b, w: sext(a, w) >= sext(b, w),
}


def intop(op, w, a, b):
    """fold integer binary op on python ints (unsigned repr)"""
    m = (1 << w) - 1
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else None
    if op == 'lshr': return a >> b if b < w else None
    if op == 'ashr': return (sext(a, w) >> b) & m if b < w else None
    if op == 'udiv': return a // b if b else None
    if op == 'urem': return a % b if b else None
    if op == 'sdiv':
        if not b: return None
        x, y = sext(a, w), sext(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == 'srem':
        if not b: return None
        x, y = sext(a, w), sext(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & m
    raise Unsupported('intop ' + op)


def width(t):
    """bit width of an LLVM first-class scalar type string"""
    if t.startswith('i'):
        return int(t[1:])
    return {'float': 32, 'double': 64, 'half': 16, 'bfloat': 16, 'ptr': 64, 'x86_fp80': 80, 'fp128': 128}[t]


FLT = ('float', 'double', 'half', 'x86_fp80', 'fp128', 'bfloat')


def fbits_value(bits, t):
    """exact Fraction (or 'inf','-inf','nan') of an IEEE bit pattern"""
    if t == 'float':
        e, m, bias, eb = 8, 23, 127, bits
    elif t == 'double':
        e, m, bias, eb = 11, 52, 1023, bits
    elif t == 'half':
        e, m, bias, eb = 5, 10, 15, bits
    elif t == 'x86_fp80':
        s = bits >> 79
        ex = bits >> 64 & 0x7fff
        man = bits & ((1 << 64) - 1)
        if ex == 0x7fff:
            return 'nan' if man & ((1 << 63) - 1) else ('-inf' if s else 'inf')
        v = Fraction(man) * Fraction(2) ** (ex - 16383 - 63)
        return -v if s else v
    else:
        raise Unsupported('float type ' + t)
    s = bits >> (e + m)
    ex = bits >> m & ((1 << e) - 1)
    man = bits & ((1 << m) - 1)
    if ex == (1 << e) - 1:
        return 'nan' if man else ('-inf' if s else 'inf')
    if ex == 0:
        v = Fraction(man) * Fraction(2) ** (1 - bias - m)
    else:
        v = Fraction((1 << m) + man) * Fraction(2) ** (ex - bias - m)
    return -v if s else v


# ----------------------------------------------------------------------------------------------- module
class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.functions = {f['name']: f for f in d['functions']}
        self.globals = d['globals']

    def graph(self, fname, argmap=None, calls=None, elem=None):
        return Graph(self, self.functions[fname], argmap, calls, elem)


class Mem:
    """memory state: explicit entries (base,off)->(size,node,type); copies: list of (base,off,n,srcbase,srcoff,Mem)"""
    __slots__ = ('e', 'copies', 'havoc')

    def __init__(self, e=None, copies=None, havoc=None):
        self.e = e if e is not None else {}
        self.copies = copies if copies is not None else []
        self.havoc = havoc

    def clone(self):
        return Mem(dict(self.e), list(self.copies), self.havoc)


class Graph:
    def __init__(self, mod, f, argmap=None, calls=None, elem=None):
        self.elem = elem
        self.mod = mod
        self.f = f
        self.name = f['name']
        self.blocks = {b['id']: b for b in f['blocks']}
        self.order = []
        self.calls = calls or {}
        self.events = []
        for b in f['blocks']:
            if b['loop']:
                raise Unsupported('loop in %s' % f['name'])
        self._cfg()
        self.val = {}
        self.extent = {}
        for k, a in enumerate(f['args']):
            nm = 'a%d' % k if not argmap or k not in argmap else argmap[k]
            if a['type'] == 'ptr':
                if a.get('deref'): self.extent[nm] = a['deref']
                self.val[a['id']] = mk('ptr', nm, 0, ())
            else:
                self.val[a['id']] = mk('arg', nm, a['type'])
        self.memout = {}
        self.memin = {}
        self.run()

    # ---- cfg
    def _cfg(self):
        entry = self.f['blocks'][0]['id']
        self.entry = entry
        seen = set()
        post = []

        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    post.append(x)
                    stack.pop()

        dfs(entry)
        self.order = post[::-1]
        # blocks that inevitably reach 'unreachable' (noreturn/assume-false) are dead ends
        self.dead = set()
        for b in post:
            t = self.blocks[b]['ins'][-1]
            if t['op'] == 'unreachable' or t['op'] == 'resume':
                self.dead.add(b)
            else:
                ss = self.succs(b)
                if ss and all(s in self.dead for s in ss):
                    self.dead.add(b)
        self.live = [b for b in self.order if b not in self.dead]
        self.preds = {b: [] for b in self.live}
        for b in self.live:
            for s in set(self.succs(b)):
                if s in self.preds:
                    self.preds[s].append(b)
        # dominators
        num = {b: i for i, b in enumerate(self.live)}
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in self.live:
                if b == entry:
                    continue
                new = None
                for p in self.preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def succs(self, b):
        t = self.blocks[b]['ins'][-1]
        if t['op'] == 'invoke':
            return [t['normal']]
        return t.get('succ', [])

    # ---- evaluation
    def run(self):
        rets = []
        for b in self.live:
            ins = self.blocks[b]['ins']
            ps = self.preds[b]
            if b == self.entry:
                mem = Mem()
                if '__vg_unwound' in self.mod.globals:
                    mem.e[('@__vg_unwound', 0)] = (1, ci(0, 8), 'i8')
            elif len(ps) == 1:
                mem = self.memout[ps[0]].clone()
            else:
                mem = self.merge_mem(b)
            self.mem = mem
            for i in ins:
                if i['op'] == 'phi':
                    self.val[i['id']] = self.phi(b, i)
                else:
                    self.step(b, i)
            self.memout[b] = self.mem
            t = ins[-1]
            if t['op'] == 'ret':
                rets.append((b, self.opnd(t['ops'][0]) if t['ops'] else None))
        if not rets:
            raise Unsupported('no return in ' + self.name)
        if len(rets) == 1:
            self.ret = rets[0][1]
            self.mem = self.memout[rets[0][0]]
        else:
            rb = dict(rets)
            self.ret = self.gate(self.entry, None, lambda p: rb[p]) if rets[0][1] is not None else None
            self.mem = self.merge_mems({b: self.memout[b] for b, _ in rets},
                                       lambda leaf: self.gate(self.entry, None, leaf))

    def cond(self, b):
        """list of (cond, succ) for live successors; last cond None means 'otherwise'"""
        t = self.blocks[b]['ins'][-1]
        if t['op'] == 'br':
            if len(t['succ']) == 1:
                return [(None, t['succ'][0])]
            c = self.opnd(t['ops'][0])
            s1, s2 = t['succ']
            if s1 in self.dead:
                return [(None, s2)]
            if s2 in self.dead:
                return [(None, s1)]
            return [(c, s1), (None, s2)]
        if t['op'] == 'switch':
            x = self.opnd(t['ops'][0])
            w = width(t['optype'])
            d = t['succ'][0]
            by = {}
            k = 0
            # ops: cond, default, (val, bb)*
            vals = [o for o in t['ops'][1:] if o[0] == 'i']
            for v, s in zip(vals, t['succ'][1:]):
                if s in self.dead:
                    continue
                c = self.icmp('eq', x, ci(int(v[1]), w), w)
                by[s] = self.bor(by[s], c) if s in by else c
            out = [(c, s) for s, c in by.items() if s != d]
            if d in self.dead:
                s = out[-1][1] if out else None
                out[-1] = (None, s)
            else:
                out.append((None, d))
            return out
        if t['op'] == 'invoke':
            return [(None, t['normal'])]
        if t['op'] == 'ret':
            return []
        raise Unsupported('terminator ' + t['op'])

    def bor(self, a, b):
        return self.bool2('or', a, b)

    def bool2(self, op, a, b):
        ta, tb = NODES[a], NODES[b]
        if op == 'or':
            if ta[0] == 'c': return ci(1, 1) if ta[1] else b
            if tb[0] == 'c': return ci(1, 1) if tb[1] else a
        else:
            if ta[0] == 'c': return b if ta[1] else ci(0, 1)
            if tb[0] == 'c': return a if tb[1] else ci(0, 1)
        if a == b: return a
        if a > b: a, b = b, a
        return mk(op, 1, a, b)

    def gate(self, d, target, leaf):
        """decision graph from block d to `target` (None = any ret); leaf(pred) gives the node for that edge/ret"""
        memo = {}
        between = None
        if target is not None:
            between, st = {d}, list(self.preds[target])
            while st:
                x = st.pop()
                if x not in between:
                    between.add(x)
                    st.extend(self.preds[x])

        def go(n):
            if n in memo:
                return memo[n]
            if between is not None and n not in between:
                memo[n] = None
                return None
            cs = self.cond(n)
            if not cs:
                r = leaf(n) if target is None else None
                memo[n] = r
                return r
            res = None
            for c, s in reversed(cs):
                v = leaf(n) if s == target else (go(s) if s in self.preds else None)
                if v is None:
                    continue
                res = v if (res is None or c is None) else ite(c, v, res)
            memo[n] = res
            return res

        return go(d)

    def phi(self, b, i):
        inc = {p: o for p, o in i['in']}
        ps = self.preds[b]
        if len(ps) == 1:
            return self.opnd(inc[ps[0]])
        return self.gate(self.idom[b], b, lambda p: self.opnd(inc[p]))

    def merge_mem(self, b):
        return self.merge_mems({p: self.memout[p] for p in self.preds[b]},
                               lambda leaf: self.gate(self.idom[b], b, leaf))

    def merge_mems(self, mems, gate):
        ms = list(mems.values())
        if all(m.e == ms[0].e and m.copies == ms[0].copies for m in ms):
            return ms[0].clone()
        # copies must agree as a common prefix or be resolved lazily: materialise differing ones is unsupported
        out = Mem({}, list(ms[0].copies))
        for m in ms[1:]:
            if m.copies != ms[0].copies:
                # keep the common prefix when the rest does not matter
                k = 0
                while k < len(out.copies) and k < len(m.copies) and out.copies[k] == m.copies[k]:
                    k += 1
                out.copies = out.copies[:k]
        keys = set()
        for m in ms:
            keys.update(m.e)
        # regions copied on one path only are merged byte by byte where no entry covers them
        extra = {}
        for m in ms:
            for (b, o, n, sb, so, sm) in m.copies[len(out.copies):]:
                extra.setdefault(b, set()).update(range(o, o + n))
        if sum(len(x) for x in extra.values()) > 4096:
            out.havoc = True
            extra = {}
        for b, bs in extra.items():
            for (bb, o) in list(keys):
                if bb == b:
                    for m in ms:
                        if (bb, o) in m.e:
                            bs.difference_update(range(o, o + m.e[(bb, o)][0]))
            keys.update((b, o) for o in bs)
        # cut every base into pieces no entry straddles
        cuts = {}
        ents = {}
        for m in ms:
            for (b, o), x in m.e.items():
                ents.setdefault((b, o), set()).add((x[0], x[2]))
        for (b, o) in keys:
            ents.setdefault((b, o), {(1, 'i8')} if (b, o) not in ents else set())
        simple = all(len({z for z, _ in v}) == 1 for v in ents.values())
        if simple:
            last = {}
            for (b, o) in sorted(ents, key=lambda k: (str(k[0]), k[1])):
                z = next(iter(ents[(b, o)]))[0]
                if last.get(b, -1 << 60) > o:
                    simple = False
                    break
                last[b] = o + z
        if not simple:
            for (b, o), v in ents.items():
                for z, _ in v:
                    cuts.setdefault(b, set()).update((o, o + z))
            new = {}
            for (b, o), v in ents.items():
                cs = None
                for z, t in v:
                    if cs is None:
                        cs = sorted(cuts[b])
                    inner = [c for c in cs if o <= c <= o + z]
                    for lo, hi in zip(inner, inner[1:]):
                        new.setdefault((b, lo), set()).add((hi - lo, t if (lo, hi) == (o, o + z) else 'i%d' % (8 * (hi - lo))))
            ents = new
        for k, v in ents.items():
            s = next(iter(v))[0]
            t = next(iter(v))[1] if len(v) == 1 else 'i%d' % (8 * s)

            def leaf(p, k=k, s=s, t=t):
                return self.load_from(mems[p], k[0], k[1], s, t)

            try:
                out.e[k] = (s, gate(leaf), t)
            except Unsupported:
                out.e[k] = (s, mk('opaque', 'merge', len(NODES)), t)
        return out

    # ---- operands
    def opnd(self, o):
        k = o[0]
        if k == 'v':
            if o[1] not in self.val:
                raise Unsupported('undefined value in %s' % self.name)
            return self.val[o[1]]
        if k == 'i':
            return ci(int(o[1]), o[2])
        if k == 'f':
            return mk('fc', int(o[1]), o[2])
        if k == 'g':
            return mk('ptr', '@' + o[1], 0, ())
        if k == 'cgep':
            p = NODES[self.opnd(o[1])]
            return mk('ptr', p[1], p[2] + o[2], p[3])
        if k == 'null':
            return mk('null')
        if k in ('poison', 'undef'):
            t = o[1]
            if t.startswith('<'):
                n = int(t[1:].split(' x ')[0])
                e = t[1:-1].split(' x ')[1]
                return mk('vec', *[mk('undef', e)] * n)
            return mk('undef', t)
        if k == 'vec':
            return mk('vec', *[self.opnd(x) for x in o[1]])
        if k == 'agg':
            return mk('agg', *[self.opnd(x) for x in o[1]])
        if k == 'fn':
            return mk('fn', o[1])
        if k == 'md':
            return mk('md')
        if k == 'ce' and o[1] == 'inttoptr':
            return self.i2p(self.opnd(o[2][0]))
        raise Unsupported('operand %s' % k)

    # ---- instructions
    def step(self, b, i):
        op = i['op']
        T = i['type']
        if op in ('br', 'switch', 'ret', 'unreachable'):
            return
        if op == 'alloca':
            self.val[i['id']] = mk('ptr', 'A%s.%d' % (self.name, i['id']), 0, ())
            self.extent['A%s.%d' % (self.name, i['id'])] = i['size']
            return
        if op == 'getelementptr':
            if i.get('bad'):
                raise Unsupported('gep')
            base = self.opnd(i['base'])
            var = tuple((self.opnd(v), s, t) for v, s, t in i['var'])
            self.val[i['id']] = self.gep(base, i['off'], var)
            return
        if op == 'load':
            self.val[i['id']] = self.load(self.opnd(i['ops'][0]), i['size'], T)
            return
        if op == 'store':
            self.store(self.opnd(i['ops'][1]), self.opnd(i['ops'][0]), i['size'], i['vtype'], i)
            return
        if op in ('call', 'invoke'):
            r = self.call(i)
            if T != 'void':
                self.val[i['id']] = r
            return
        ops = [self.opnd(x) for x in i['ops']]
        self.val[i['id']] = self.scalar(op, T, ops, i)

    def gep(self, base, off, var):
        t = NODES[base]
        if t[0] == 'ite':
            return ite(t[1], self.gep(t[2], off, var), self.gep(t[3], off, var))
        o = 0
        vs = []
        for v, s, ty in var:
            n = NODES[v]
            if ty not in ('i64', None) and n[0] != 'c':
                raise Unsupported('index of type %s' % ty)
            if n[0] == 'c':
                o += sext(n[1], n[2]) * s
            else:
                vs.append((v, s))
        if t[0] == 'null':
            return mk('ptr', 'null', off + o, tuple(vs))
        if t[0] != 'ptr':
            return mk('ptr', ('P', base), off + o, tuple(vs))
        return mk('ptr', t[1], t[2] + off + o, t[3] + tuple(vs))

    def lanes(self, T):
        if T.startswith('<'):
            n, e = T[1:-1].split(' x ')
            return int(n), e
        return None, T

    def scalar(self, op, T, ops, i):
        n, e = self.lanes(T)
        if op == 'extractelement':
            ix = NODES[ops[1]]
            v = NODES[ops[0]]
            if ix[0] != 'c':
                raise Unsupported('dynamic extractelement')
            if v[0] == 'vec':
                return v[1 + ix[1]]
            if v[0] == 'ite':
                return ite(v[1], self.scalar(op, T, [v[2], ops[1]], i), self.scalar(op, T, [v[3], ops[1]], i))
            return mk('lane', ops[0], ix[1], T)
        if op == 'insertelement':
            ix = NODES[ops[2]]
            v = self.vecof(ops[0], T)
            if ix[0] != 'c':
                raise Unsupported('dynamic insertelement')
            l = list(v)
            l[ix[1]] = ops[1]
            return mk('vec', *l)
        if op == 'shufflevector':
            it = i['optype']
            a = self.vecof(ops[0], it)
            bb = self.vecof(ops[1], it)
            al = a + bb
            _, e = self.lanes(T)
            return mk('vec', *[al[m] if m >= 0 else mk('undef', e) for m in i['mask']])
        if op == 'extractvalue':
            v = ops[0]
            for k in i['idx']:
                v = self.xval(v, k, T)
            return v
        if op == 'insertvalue':
            if len(i['idx']) != 1:
                raise Unsupported('insertvalue')
            k = i['idx'][0]
            t = NODES[ops[0]]
            l = list(t[1:]) if t[0] == 'agg' else []
            while len(l) <= k:
                l.append(mk('undef', '?'))
            l[k] = ops[1]
            return mk('agg', *l)
        if op == 'select':
            c = ops[0]
            if NODES[c][0] == 'vec':
                a = self.vecof(ops[1], T)
                b2 = self.vecof(ops[2], T)
                return mk('vec', *[ite(x, y, z) for x, y, z in zip(NODES[c][1:], a, b2)])
            return ite(c, ops[1], ops[2])
        it = i.get('optype', T)
        if n is not None or (op in ('bitcast',) and it.startswith('<')):
            if op == 'bitcast':
                return self.bitcast(ops[0], it, T)
            vs = [self.vecof(o, it) for o in ops]
            _, ie = self.lanes(it)
            return mk('vec', *[self.scalar1(op, e, [v[k] for v in vs], i, ie) for k in range(n)])
        return self.scalar1(op, T, ops, i, it)

    def xval(self, v, k, T):
        t = NODES[v]
        if t[0] == 'agg':
            return t[1 + k]
        if t[0] == 'ite':
            return ite(t[1], self.xval(t[2], k, T), self.xval(t[3], k, T))
        return mk('xv', v, k, T)

    def vecof(self, v, T):
        n, e = self.lanes(T)
        t = NODES[v]
        if t[0] == 'vec':
            return list(t[1:])
        if t[0] == 'undef':
            return [mk('undef', e)] * n
        if t[0] == 'ite':
            a = self.vecof(t[2], T)
            b = self.vecof(t[3], T)
            return [ite(t[1], x, y) for x, y in zip(a, b)]
        return [mk('lane', v, k, e) for k in range(n)]

    def bitcast(self, v, fromT, toT):
        if fromT == toT:
            return v
        fn, fe = self.lanes(fromT)
        tn, te = self.lanes(toT)
        if fn is None and tn is None:
            t = NODES[v]
            if t[0] == 'ite' :
                return ite(t[1], self.bitcast(t[2], fromT, toT), self.bitcast(t[3], fromT, toT))
            if t[0] == 'bc' and t[2] == toT:
                return t[1] if t[3] == toT else self.bitcast(t[1], t[3], toT)
            if t[0] == 'fc' and te.startswith('i'):
                return ci(t[1], width(te))
            if t[0] == 'c' and te in FLT:
                return mk('fc', t[1], te)
            if t[0] == 'undef':
                return mk('undef', toT)
            if t[0] == 'bc':  # nested
                if t[3] == toT:
                    return t[1]
                return mk('bc', t[1], toT, t[3])
            return mk('bc', v, toT, fromT)
        # through a flat integer
        bits = []
        if fn is None:
            total = width(fe)
            parts = [(v, total)]
            if fe in FLT:
                parts = [(self.bitcast(v, fe, 'i%d' % total), total)]
        else:
            parts = [(self.bitcast(x, fe, 'i%d' % width(fe)), width(fe)) for x in self.vecof(v, fromT)]
        total = sum(w for _, w in parts)
        if tn is None:
            flat = self.concat(parts)
            return self.bitcast(flat, 'i%d' % total, te)
        ew = width(te)
        out = []
        if all(w == ew for _, w in parts):
            out = [self.bitcast(p, 'i%d' % ew, te) for p, _ in parts]
        else:
            flat = self.concat(parts)
            for k in range(tn):
                out.append(self.bitcast(self.extract(flat, total, k * ew, ew), 'i%d' % ew, te))
        return mk('vec', *out)

    def concat(self, parts):
        """parts low first: [(node,width)]"""
        flat = []
        for p, w in parts:
            flat.extend(self.pieces(p, w) if NODES[p][0] == 'cat' else [(p, w)])
        parts = []
        for p, w in flat:
            if parts:
                q, qw = parts[-1]
                tq, tp = NODES[q], NODES[p]
                if tq[0] == 'c' and tp[0] == 'c':
                    parts[-1] = (ci(tq[1] | tp[1] << qw, qw + w), qw + w)
                    continue
                if tq[0] == 'ext' and tp[0] == 'ext' and tq[1] == tp[1] and tq[2] + tq[3] == tp[2]:
                    parts[-1] = (self.extract(tq[1], tq[4], tq[2], qw + w), qw + w)
                    continue
            parts.append((p, w))
        if len(parts) == 1:
            return parts[0][0]
        total = sum(w for _, w in parts)
        if len(parts) == 2 and NODES[parts[1][0]][0] == 'c' and NODES[parts[1][0]][1] == 0:
            return mk('zext', parts[0][1], total, parts[0][0])
        if all(isconst(p) for p, _ in parts):
            v = 0
            sh = 0
            for p, w in parts:
                v |= NODES[p][1] << sh
                sh += w
            return ci(v, total)
        if all(NODES[p][0] == 'undef' for p, _ in parts):
            return mk('undef', 'i%d' % total)
        # re-fuse adjacent extracts of the same value
        src = []
        pos = 0
        for p, w in parts:
            t = NODES[p]
            if t[0] == 'ext' and t[4] == total and t[2] == pos:
                src.append(t[1])
            else:
                src.append(None)
            pos += w
        if src[0] is not None and all(s == src[0] for s in src):
            return src[0]
        return mk('cat', total, *[x for pw in parts for x in pw])

    def extract(self, v, vw, lo, w):
        if lo == 0 and w == vw:
            return v
        t = NODES[v]
        if t[0] == 'c':
            return ci(t[1] >> lo, w)
        if t[0] == 'undef':
            return mk('undef', 'i%d' % w)
        if t[0] == 'cat':
            pos = 0
            ps = t[2:]
            for k in range(0, len(ps), 2):
                if pos == lo and ps[k + 1] == w:
                    return ps[k]
                if pos <= lo and lo + w <= pos + ps[k + 1]:
                    return self.extract(ps[k], ps[k + 1], lo - pos, w)
                pos += ps[k + 1]
        if t[0] == 'ite':
            return ite(t[1], self.extract(t[2], vw, lo, w), self.extract(t[3], vw, lo, w))
        if t[0] == 'ext':
            return self.extract(t[1], t[4], t[2] + lo, w)
        if t[0] == 'zext':
            if lo >= t[1]:
                return ci(0, w)
            if lo + w <= t[1]:
                return self.extract(t[3], t[1], lo, w)
            if lo == 0:
                return mk('zext', t[1], w, t[3])
        if t[0] in ('and', 'or', 'xor') and t[1] == vw and w >= 8:
            return self.binop(t[0], w, self.extract(t[2], vw, lo, w), self.extract(t[3], vw, lo, w))
        if t[0] in ('mul', 'add', 'sub') and lo == 0 and w >= 8 and NARROW:
            return self.binop(t[0], w, self.extract(t[2], vw, 0, w), self.extract(t[3], vw, 0, w))
        if t[0] == 'cat':
            # spans several parts
            pos = 0
            out = []
            ps = t[2:]
            for k in range(0, len(ps), 2):
                a, b = max(lo, pos), min(lo + w, pos + ps[k + 1])
                if a < b:
                    out.append((self.extract(ps[k], ps[k + 1], a - pos, b - a), b - a))
                pos += ps[k + 1]
            return self.concat(out)
        return mk('ext', v, lo, w, vw)

    def pieces(self, v, w):
        """[(node,width)] low first, for values assembled from fields"""
        t = NODES[v]
        if t[0] == 'cat':
            return [(t[k], t[k + 1]) for k in range(2, len(t), 2)]
        if t[0] == 'zext':
            return self.pieces(t[3], t[1]) + [(ci(0, w - t[1]), w - t[1])]
        return [(v, w)]

    def lowzeros(self, n):
        t = NODES[n]
        if t[0] == 'c':
            return (t[1] & -t[1]).bit_length() - 1 if t[1] else 0
        if t[0] == 'cat' and NODES[t[2]][0] == 'c' and NODES[t[2]][1] == 0:
            return t[3]
        return 0

    def fuse(self, a, b, w):
        """a|b where every bit is zero on one side: field-wise union, else None"""
        pa, pb = self.pieces(a, w), self.pieces(b, w)
        if len(pa) == 1 and len(pb) == 1:
            return None
        cuts = set()
        for ps in (pa, pb):
            x = 0
            for _, n in ps:
                x += n
                cuts.add(x)
        out = []
        lo = 0
        for hi in sorted(cuts):
            x, y = self.extract(a, w, lo, hi - lo), self.extract(b, w, lo, hi - lo)
            tx, ty = NODES[x], NODES[y]
            if tx[0] == 'c' and tx[1] == 0: out.append((y, hi - lo))
            elif ty[0] == 'c' and ty[1] == 0: out.append((x, hi - lo))
            else: return None
            lo = hi
        return self.concat(out)

    def icmp(self, pred, a, b, w):
        ta, tb = NODES[a], NODES[b]
        if ta[0] == 'c' and tb[0] == 'c':
            return ci(int(ICMP[pred](ta[1], tb[1], w)), 1)
        if w == 1:
            if pred in ('eq', 'ne'):
                if tb[0] == 'c':
                    r = a if tb[1] else not_(a)
                    return r if pred == 'eq' else not_(r)
        if a == b:
            return ci(int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
        if pred == 'ne':
            return not_(self.icmp('eq', a, b, w))
        if pred in ('ugt', 'uge', 'sgt', 'sge'):
            return self.icmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a, w)
        if pred in ('ule', 'sle'):
            return not_(self.icmp('ult' if pred == 'ule' else 'slt', b, a, w))
        if pred == 'eq' and a > b:
            a, b = b, a
        return mk('icmp', pred, a, b, w)

    def ptrcmp(self, pred, a, b):
        ta, tb = NODES[a], NODES[b]
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            t = NODES[x]
            if t[0] == 'ite':
                r = (lambda p, q: self.ptrcmp(pred, q, p)) if sw else (lambda p, q: self.ptrcmp(pred, p, q))
                return ite(t[1], r(t[2], y), r(t[3], y))
        if a == b:
            return ci(int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
        if ta[0] == 'ptr' and tb[0] == 'ptr' and ta[1] == tb[1] and not ta[3] and not tb[3]:
            return ci(int(ICMP[pred](ta[2] + (1 << 40), tb[2] + (1 << 40), 64)), 1)
        def numeric(t):
            if t[0] == 'ptr' and isinstance(t[1], tuple) and t[1][0] == 'P' and not t[3]:
                t = NODES[t[1][1]]
            return t[0] == 'i2p'
        if numeric(ta) or numeric(tb):
            return self.icmp(pred, self.p2i(a), self.p2i(b), 64)
        if pred in ('eq', 'ne'):
            for x, y in ((ta, tb), (tb, ta)):
                if x[0] == 'null' and y[0] == 'ptr' and isinstance(y[1], str) and (y[1][0] in 'A@'):
                    return ci(int(pred == 'ne'), 1)
            r = mk('pcmp', 'eq', min(a, b), max(a, b))
            return r if pred == 'eq' else not_(r)
        return mk('pcmp', pred, a, b)

    def scalar1(self, op, T, ops, i, it):
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = width(T)
            return self.binop(op, w, ops[0], ops[1])
        if op == 'icmp':
            if it == 'ptr':
                return self.ptrcmp(i['pred'], ops[0], ops[1])
            return self.icmp(i['pred'], ops[0], ops[1], width(it))
        if op == 'fcmp':
            return self.fcmp(i['pred'], ops[0], ops[1])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = ops
            if op in ('fadd', 'fmul') and a > b:
                a, b = b, a
            return mk(op, T, a, b)
        if op == 'fneg':
            return mk('fneg', T, ops[0])
        if op == 'zext':
            t = NODES[ops[0]]
            if t[0] == 'c':
                return ci(t[1], width(T))
            if t[0] == 'undef':
                return mk('undef', T)
            return mk('zext', width(it), width(T), ops[0])
        if op == 'sext':
            t = NODES[ops[0]]
            if t[0] == 'c':
                return ci(sext(t[1], t[2]), width(T))
            return mk('sext', width(it), width(T), ops[0])
        if op == 'trunc':
            t = NODES[ops[0]]
            if t[0] in ('zext', 'sext') and t[1] == width(T):
                return t[3]
            return self.extract(ops[0], width(it), 0, width(T))
        if op == 'bitcast':
            return self.bitcast(ops[0], it, T)
        if op in ('fpext', 'fptrunc'):
            return mk(op, it, T, ops[0])
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui'):
            return mk(op, it, T, ops[0])
        if op == 'freeze':
            return ops[0]
        if op == 'ptrtoint':
            return self.p2i(ops[0])
        if op == 'inttoptr':
            return self.i2p(ops[0])
        if op == 'addrspacecast':
            return ops[0]
        raise Unsupported('op ' + op)

    def p2i(self, p):
        t = NODES[p]
        if t[0] == 'i2p':
            return t[1]
        if t[0] == 'null':
            return ci(0, 64)
        if t[0] == 'ite':
            return ite(t[1], self.p2i(t[2]), self.p2i(t[3]))
        if t[0] == 'ptr' and isinstance(t[1], tuple) and t[1][0] == 'P' and not t[3]:
            b = NODES[t[1][1]]
            base = b[1] if b[0] == 'i2p' else mk('p2i', t[1][1])
            return self.binop('add', 64, base, ci(t[2], 64)) if t[2] else base
        if t[0] == 'ptr' and t[3]:
            r = self.p2i(mk('ptr', t[1], t[2], ()))
            for v, sz in t[3]:
                n = NODES[v]
                if n[0] == 'c':
                    v = ci(sext(n[1], n[2]), 64)
                r = self.binop('add', 64, r, self.binop('mul', 64, v, ci(sz, 64)) if sz != 1 else v)
            return r
        if t[0] == 'ptr' and not t[3] and t[2]:
            return self.binop('add', 64, mk('p2i', mk('ptr', t[1], 0, ())), ci(t[2], 64))
        return mk('p2i', p)

    def i2p(self, n):
        t = NODES[n]
        if t[0] == 'p2i':
            return t[1]
        if t[0] == 'c' and t[1] == 0:
            return mk('null')
        if t[0] == 'ite':
            return ite(t[1], self.i2p(t[2]), self.i2p(t[3]))
        return mk('i2p', n)

    def binop(self, op, w, a, b):
        ta, tb = NODES[a], NODES[b]
        if ta[0] == 'c' and tb[0] == 'c':
            r = intop(op, w, ta[1], tb[1])
            if r is None:
                return mk('undef', 'i%d' % w)
            return ci(r, w)
        if w == 1:
            if op == 'xor':
                if tb[0] == 'c':
                    return not_(a) if tb[1] else a
                if ta[0] == 'c':
                    return not_(b) if ta[1] else b
                if a == b:
                    return ci(0, 1)
            if op in ('and', 'or'):
                return self.bool2(op, a, b)
        if op in ('add', 'mul', 'and', 'or', 'xor') and a > b:
            a, b, ta, tb = b, a, tb, ta
        for x, y, ty in ((a, b, tb), (b, a, ta)):
            if ty[0] == 'c':
                v = ty[1]
                if op in ('add', 'or', 'xor') and v == 0: return x
                if op == 'and' and v == 0: return ci(0, w)
                if op == 'and' and v == (1 << w) - 1: return x
                if op == 'mul' and v == 1: return x
        if tb[0] == 'c' and tb[1] == 0 and op in ('sub', 'shl', 'lshr', 'ashr'):
            return a
        if op in ('shl', 'lshr') and tb[0] == 'c' and 0 < tb[1] < w and w > 8:
            c = tb[1]
            if op == 'shl':
                return self.concat([(ci(0, c), c), (self.extract(a, w, 0, w - c), w - c)])
            return self.concat([(self.extract(a, w, c, w - c), w - c), (ci(0, c), c)])
        if op == 'or' and w > 8:
            r = self.fuse(a, b, w)
            if r is not None:
                return r
        if op == 'mul' and w >= 16:
            if ta[0] == 'c':
                a, b, ta, tb = b, a, tb, ta
            for x, y in ((a, b), (b, a)):
                lz = self.lowzeros(y)
                if 8 <= lz < w:
                    return self.concat([(ci(0, lz), lz), (self.binop('mul', w - lz, self.extract(x, w, 0, w - lz), self.extract(y, w, lz, w - lz)), w - lz)])
        if op == 'and' and ta[0] == 'c':
            a, b, ta, tb = b, a, tb, ta
        if op == 'and' and tb[0] == 'c' and w > 8:
            k = tb[1].bit_length()
            lz = self.lowzeros(b)
            if lz >= 8 and tb[1] == (1 << w) - (1 << lz):
                return self.concat([(ci(0, lz), lz), (self.extract(a, w, lz, w - lz), w - lz)])
            if tb[1] == (1 << k) - 1 and 0 < k < w:
                return self.concat([(self.extract(a, w, 0, k), k), (ci(0, w - k), w - k)])
        if a == b and op in ('and', 'or'):
            return a
        if a == b and op in ('xor', 'sub'):
            return ci(0, w)
        return mk(op, w, a, b)

    def fcmp(self, pred, a, b):
        if pred == 'true': return ci(1, 1)
        if pred == 'false': return ci(0, 1)
        # canonical: olt, ole, oeq, ult.. expressed through olt/oeq/uno
        if pred in ('ogt', 'oge', 'ugt', 'uge'):
            return self.fcmp({'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}[pred], b, a)
        if pred == 'ult': return not_(self.fcmp('ole', b, a))
        if pred == 'ule': return not_(self.fcmp('olt', b, a))
        if pred == 'une': return not_(self.fcmp('oeq', a, b))
        if pred == 'one':
            return mk('fcmp', 'one', min(a, b), max(a, b))
        if pred == 'ueq': return not_(self.fcmp('one', a, b))
        if pred == 'ord': return not_(self.fcmp('uno', a, b))
        if pred in ('oeq', 'uno') and a > b:
            a, b = b, a
        if pred == 'uno':
            # constants that are not NaN do not matter
            ta, tb = NODES[a], NODES[b]
            if tb[0] == 'fc' : b = a
            elif ta[0] == 'fc': a = b
        return mk('fcmp', pred, a, b)

    # ---- memory
    def load(self, p, size, T):
        t = NODES[p]
        if t[0] == 'ite':
            return ite(t[1], self.load(t[2], size, T), self.load(t[3], size, T))
        if t[0] == 'null' or (t[0] == 'ptr' and t[1] == 'null'):
            return mk('undef', T)
        if t[0] != 'ptr':
            return self.load_from(self.mem, ('P', p), 0, size, T)
        if t[3]:
            if isinstance(t[1], str) and t[1].startswith('@'):
                r = self.table(t, size, T)
                return mk('tload', t[1], t[2], t[3], size, T) if r is None else r
            if len(t[3]) == 1:
                # variable index: unknown element
                if str(t[1]).startswith('A') or self.mem.havoc or any(b == t[1] for b, o in self.mem.e) or any(c[0] == t[1] for c in self.mem.copies):
                    return self.load_indexed(t, size, T)
                return mk('vld', t[1], t[2], t[3], T)
            raise Unsupported('variable load')
        return self.load_from(self.mem, t[1], t[2], size, T)

    def table(self, t, size, T):
        """constant array indexed by one variable: the entries become part of the node"""
        g = self.mod.globals.get(t[1][1:])
        if len(t[3]) != 1 or T in FLT or not T.startswith('i') or not (g and g['constant'] and 'bytes' in g): return None
        (v, s), = t[3]
        if s <= 0: return None
        bs = g['bytes']
        k0 = -(t[2] // s)      # first index inside the array
        vals = []
        o = t[2] + k0 * s
        while o + size <= len(bs) and len(vals) <= 65536:
            e = bs[o:o + size]
            if not all(x >= 0 for x in e): return None
            vals.append(sum(x << (8 * k) for k, x in enumerate(e)) & ((1 << width(T)) - 1))
            o += s
        if not vals: return None
        return mk('tab', t[1], tuple(vals), k0, v, T)

    def positions(self, base, off, s, size):
        """element offsets of an object of known extent that an access base + off + i*s may touch (others would be outside of it)"""
        n = self.extent.get(base)
        if n is None or s <= 0: return None
        if n // s > 4096: return None
        return range(off - off // s * s, n - size + 1, s)

    def load_indexed(self, t, size, T):
        """variable index into tracked memory: ITE over the elements of the object (an index outside of it is undefined behaviour)"""
        (v, s), = t[3]
        pos = self.positions(t[1], t[2], s, size)
        res = None
        if pos is None:
            # object of unknown extent: the tracked elements, else its initial contents
            if any(c[0] == t[1] for c in self.mem.copies) or self.mem.havoc:
                raise Unsupported('variable load from copied memory')
            pos = sorted(o for (b, o), x in self.mem.e.items() if b == t[1] and (o - t[2]) % s == 0 and x[0] == size)
            if len(pos) != sum(b == t[1] for (b, o) in self.mem.e): raise Unsupported('variable load from tracked memory')
            res = mk('vld', t[1], t[2], t[3], T)
        for o in pos:
            k = (o - t[2]) // s
            val = self.load_from(self.mem, t[1], o, size, T)
            if NODES[val][0] == 'undef': continue
            res = val if res is None else ite(self.icmp('eq', v, ci(k, 64), 64), val, res)
        if res is None:
            raise Unsupported('variable load from tracked memory')
        return res

    def load_from(self, mem, base, off, size, T):
        n, e = self.lanes(T)
        if n is not None:
            es = width(e) // 8
            if es * n == size and width(e) % 8 == 0:
                return mk('vec', *[self.load_from(mem, base, off + k * es, es, e) for k in range(n)])
            if width(e) == 1:
                raise Unsupported('bool vector load')
        if T.startswith('{') or T.startswith('['):
            raise Unsupported('aggregate load')
        x = mem.e.get((base, off))
        if x is not None and x[0] == size:
            return self.conv(x[1], x[2], T)
        # overlapping entries?
        over = [(o, x) for (b, o), x in mem.e.items() if b == base and o < off + size and o + x[0] > off]
        if over:
            over.sort()
            parts = []
            pos = off
            for o, x in over:
                if o > pos:
                    g = o - pos
                    parts.append((self.initial(mem, base, pos, g, 'i%d' % (8 * g)), 8 * g))
                    pos = o
                lo = (pos - o) * 8
                hi = min(o + x[0], off + size)
                w = (hi - pos) * 8
                iv = self.conv(x[1], x[2], 'i%d' % (8 * x[0]))
                parts.append((self.extract(iv, 8 * x[0], lo, w), w))
                pos = hi
            if pos < off + size:
                g = off + size - pos
                parts.append((self.initial(mem, base, pos, g, 'i%d' % (8 * g)), 8 * g))
            v = self.concat(parts)
            return self.conv(v, 'i%d' % (8 * size), T)
        return self.initial(mem, base, off, size, T)

    def conv(self, v, frm, to):
        if frm == to:
            return v
        if frm == 'ptr' and to.startswith('i'):
            return self.extract(self.p2i(v), 64, 0, width(to)) if width(to) < 64 else self.p2i(v)
        if to == 'ptr' and frm.startswith('i'):
            return self.i2p(v)
        if frm.startswith('i') and to.startswith('i') and width(frm) > width(to):
            return self.extract(v, width(frm), 0, width(to))
        if to == 'i1' and frm == 'i8':
            return self.extract(v, 8, 0, 1)
        if frm == 'i1' and to == 'i8':
            return mk('zext', 1, 8, v)
        return self.bitcast(v, frm, to)

    def initial(self, mem, base, off, size, T):
        for (b, o, n, sb, so, sm) in reversed(mem.copies):
            if b == base and o <= off and off + size <= o + n:
                return self.load_from(sm, sb, so + off - o, size, T)
            if b == base and o < off + size and off < o + n:
                if size == 1:
                    raise Unsupported('partial copy overlap')
                v = self.concat([(self.initial(mem, base, off + k, 1, 'i8'), 8) for k in range(size)])
                return self.conv(v, 'i%d' % (8 * size), T)
        if mem.havoc:
            raise Unsupported('havoc memory')
        if isinstance(base, str) and base.startswith('@'):
            g = self.mod.globals.get(base[1:])
            if g and g['constant'] and 'bytes' in g:
                bs = g['bytes'][off:off + size]
                if len(bs) == size and all(x >= 0 for x in bs):
                    v = sum(x << (8 * k) for k, x in enumerate(bs))
                    if T in FLT:
                        return mk('fc', v, T)
                    if T == 'ptr':
                        return mk('null') if v == 0 else mk('undef', T)
                    return ci(v, width(T))
            if T == 'ptr':
                return mk('ptr', ('P', mk('ld', base, off, T)), 0, ())
            return mk('ld', base, off, T)
        if isinstance(base, str) and base.startswith('A'):
            return mk('undef', T)
        if T != 'ptr' and isinstance(base, str) and base[:1] == 'a':
            return self.argload(base, off, size, T)
        return mk('ld', base, off, T)

    def argload(self, base, off, size, T):
        """initial contents of argument memory, expressed over atoms of one element size per object"""
        E = self.elem.get(base, self.elem.get('*')) if isinstance(self.elem, dict) else self.elem
        if E is None:
            return mk('ld', base, off, T)
        es = width(E) // 8
        if T == E and off % es == 0:
            return mk('ld', base, off, T)
        parts = []
        pos = off
        end = off + size
        while pos < end:
            k = pos - pos % es
            a = mk('ld', base, k, E)
            if E in FLT:
                a = self.bitcast(a, E, 'i%d' % (8 * es))
            lo = pos - k
            n = min(es - lo, end - pos)
            parts.append((self.extract(a, 8 * es, 8 * lo, 8 * n), 8 * n))
            pos += n
        v = self.concat(parts)
        return self.conv(v, 'i%d' % (8 * size), T)

    def store(self, p, v, size, T, i=None):
        t = NODES[p]
        if t[0] == 'ite':
            # conditional store: both targets get ITE'd values
            for c, q in ((t[1], t[2]), (not_(t[1]), t[3])):
                old = self.load(q, size, T)
                self.store(q, ite(c, v, old), size, T, i)
            return
        if t[0] != 'ptr' or t[3]:
            if t[0] == 'ptr' and len(t[3]) == 1 and isinstance(t[1], str):
                # store at variable index into tracked memory: update every matching entry conditionally
                (iv, s), = t[3]
                pos = self.positions(t[1], t[2], s, size)
                if pos is not None and self.lanes(T)[0] is None and T != 'i1':
                    for o in pos:
                        old = self.load_from(self.mem, t[1], o, size, T)
                        self.store_at(t[1], o, size, ite(self.icmp('eq', iv, ci((o - t[2]) // s, 64), 64), v, old), T)
                    return
            if t[0] == 'ptr' and t[3]:
                raise Unsupported('variable store')
            if t[0] == 'null':
                return
            base, off = ('P', p), 0
        else:
            base, off = t[1], t[2]
        n, e = self.lanes(T)
        if n is not None:
            es = width(e) // 8
            for k, x in enumerate(self.vecof(v, T)):
                self.store_at(base, off + k * es, es, x, e)
            return
        if NODES[v][0] == 'agg':
            raise Unsupported('aggregate store')
        if T == 'i1':
            v, T = mk('zext', 1, 8, v), 'i8'
        self.store_at(base, off, size, v, T)

    def store_at(self, base, off, size, v, T):
        e = self.mem.e
        if (base, off) not in e or e[(base, off)][0] != size:
            for (b, o) in [k for k in e if k[0] == base]:
                x = e[(b, o)]
                if o < off + size and o + x[0] > off:
                    # split the overlapped entry
                    del e[(b, o)]
                    iv = None
                    if o < off:
                        iv = self.conv(x[1], x[2], 'i%d' % (8 * x[0]))
                        e[(b, o)] = (off - o, self.extract(iv, 8 * x[0], 0, 8 * (off - o)), 'i%d' % (8 * (off - o)))
                    if o + x[0] > off + size:
                        iv = self.conv(x[1], x[2], 'i%d' % (8 * x[0]))
                        r = o + x[0] - off - size
                        e[(b, off + size)] = (r, self.extract(iv, 8 * x[0], 8 * (off + size - o), 8 * r), 'i%d' % (8 * r))
        e[(base, off)] = (size, v, T)

    def purge(self, base, off, n):
        """remove entries fully inside [off,off+n), splitting partial ones"""
        self.store_at(base, off, n, mk('undef', 'i%d' % (8 * n)), 'i%d' % (8 * n))
        del self.mem.e[(base, off)]

    # ---- calls
    def call(self, i):
        c = i['callee']
        T = i['type']
        if c is None:
            raise Unsupported('indirect call')
        if c in ('llvm.assume', 'llvm.experimental.noalias.scope.decl') or c.startswith(
                ('llvm.lifetime', 'llvm.dbg', 'llvm.invariant', 'llvm.prefetch')):
            return None
        if c == 'vg_launder':   # the drivers' optimisation barrier: an identity the compiler cannot see through
            return self.opnd(i['ops'][0])
        if c in self.calls:
            ops = [self.opnd(x) for x in i['ops']]
            return self.calls[c](self, i, ops)
        ops = [self.opnd(x) for x in i['ops']]
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            d, s, n = NODES[ops[0]], NODES[ops[1]], NODES[ops[2]]
            if n[0] != 'c' or d[0] != 'ptr' or s[0] != 'ptr' or d[3] or s[3]:
                raise Unsupported('memcpy')
            n = n[1]
            if n == 0:
                return None
            snap = self.mem.clone()
            self.purge(d[1], d[2], n)
            self.mem.copies.append((d[1], d[2], n, s[1], s[2], snap))
            # explicit entries are simpler to merge
            for (b, o), x in sorted(((k, x) for k, x in snap.e.items() if k[0] == s[1]), key=lambda z: z[0][1]):
                if o >= s[2] and o + x[0] <= s[2] + n:
                    self.mem.e[(d[1], d[2] + o - s[2])] = x
            return None
        if c.startswith('llvm.memset'):
            d, v, n = NODES[ops[0]], NODES[ops[1]], NODES[ops[2]]
            if n[0] != 'c' or d[0] != 'ptr' or d[3]:
                raise Unsupported('memset')
            n = n[1]
            if n and v[0] == 'c' and n <= 16:
                self.store_at(d[1], d[2], n, ci(int.from_bytes(bytes([v[1]]) * n, 'little'), 8 * n), 'i%d' % (8 * n))
            elif n > 65536:
                raise Unsupported('memset of %d bytes' % n)
            elif n:
                self.purge(d[1], d[2], n)
                for k in range(n):
                    self.mem.e[(d[1], d[2] + k)] = (1, ops[1], 'i8')
            return None
        n, e = self.lanes(T)
        if n is not None:
            vs = []
            for o, ot in zip(ops, i['optypes']):
                vs.append(self.vecof(o, ot) if ot.startswith('<') else [o] * n)
            return mk('vec', *[self.intrin(c, e, [v[k] for v in vs], i) for k in range(n)])
        return self.intrin(c, T, ops, i)

    def intrin(self, c, T, ops, i):
        if c.startswith(('llvm.fmuladd', 'llvm.fma.')):
            a, b = sorted(ops[:2])
            m = mk('fmul', T, a, b)
            x, y = sorted((m, ops[2]))
            return mk('fadd', T, x, y)
        if c.startswith('llvm.'):
            base = c.split('.')[1]
            if base in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'sin', 'cos', 'exp',
                        'log', 'exp2', 'log2', 'log10', 'roundeven', 'tan', 'acos', 'asin', 'atan'):
                return mk('fn1', base, T, ops[0])
            if base in ('pow', 'copysign', 'minnum', 'maxnum', 'minimum', 'maximum', 'atan2'):
                if base in ('minnum', 'maxnum', 'minimum', 'maximum'):
                    a, b = ops
                    c2 = self.fcmp('olt', a, b)
                    return ite(c2, a, b) if base.startswith('min') else ite(c2, b, a)
                return mk('fn2', base, T, ops[0], ops[1])
            if T.startswith('i') and base in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse', 'abs'):
                return mk('int1', base, width(T), ops[0])
            if base in ('fshl', 'fshr'):
                return mk('fsh', base, width(T), ops[0], ops[1], ops[2])
            if base in ('umin', 'umax', 'smin', 'smax'):
                w = width(T)
                p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
                return ite(self.icmp(p, ops[0], ops[1], w), ops[0], ops[1])
            if base in ('usub', 'uadd', 'sadd', 'ssub') and '.sat.' in c:
                w = width(T)
                return mk('sat', base, w, ops[0], ops[1])
            if '.with.overflow.' in c:
                w = int(c.rsplit('.i', 1)[1])
                op = base[1:]
                if base[0] == 'u':
                    W = w * 2
                    wide = self.binop(op, W, mk('zext', w, W, ops[0]), mk('zext', w, W, ops[1]))
                    lo = self.binop(op, w, ops[0], ops[1])
                    if op == 'sub':
                        ov = self.icmp('ult', ops[0], ops[1], w)
                    else:
                        ov = not_(self.icmp('eq', self.extract(wide, W, w, w), ci(0, w), w))
                    return mk('agg', lo, ov)
                return mk('agg', self.binop(op, w, ops[0], ops[1]), mk('ovf', base, w, ops[0], ops[1]))
            if base == 'is' and 'fpclass' in c:
                return mk('fpclass', NODES[ops[1]][1], ops[0])
            if base in ('expect',):
                return ops[0]
            if base == 'is' and 'constant' in c:
                return ci(0, 1)
            if base == 'x86':
                return mk('fnN', c, T, *ops)
        m = {'sqrtf': 'sqrt', 'sqrt': 'sqrt', 'sqrtl': 'sqrt'}
        libm1 = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'exp',
                 'log', 'cbrt', 'sinh', 'cosh', 'tanh', 'exp2', 'log2', 'log10', 'asinh', 'acosh', 'atanh', 'expm1',
                 'log1p')
        for b in libm1:
            if c in (b, b + 'f', b + 'l'):
                return mk('fn1', b, T, ops[0])
        for b in ('atan2', 'pow', 'fmod', 'hypot', 'copysign', 'fmin', 'fmax'):
            if c in (b, b + 'f', b + 'l'):
                return mk('fn2', b, T, ops[0], ops[1])
        if c in ('memcmp', 'bcmp', 'strlen', 'memchr') or c.startswith('__'):
            raise Unsupported('call ' + c)
        if i.get('readnone'):
            return mk('fnN', c, T, *ops)
        raise Unsupported('call ' + c)
