"""path-sensitive typestate dataflow over flattened LLVM IR (irdump flat=...)

A state is (typestate of the client, bindings of phis and forwarded values, contents of local objects, branch facts).  States are propagated over the
control-flow graph to a fixpoint; branch conditions prune by constant folding and by facts already known on the path (no solver)."""
import sys
sys.setrecursionlimit(20000)
PURE = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}


class TooBig(Exception):
    pass


class St:
    __slots__ = ('cl', 'env', 'mem', 'facts')

    def __init__(self, cl, env, mem, facts):
        self.cl, self.env, self.mem, self.facts = cl, env, mem, facts

    def key(self):
        return (self.cl, frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()))

    def copy(self):
        return St(self.cl, dict(self.env), dict(self.mem), dict(self.facts))


def mentions(e, sym, memo=None):
    if e == sym: return True
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple) and mentions(x, sym): return True
    return False


def subst(e, sym, new):
    if e == sym: return new
    if isinstance(e, (tuple,)):
        return tuple(subst(x, sym, new) if isinstance(x, tuple) else x for x in e)
    if isinstance(e, frozenset):
        return frozenset(subst(x, sym, new) for x in e)
    return e


def leaves(e, out):
    """ids of the instructions and induction variables mentioned"""
    if isinstance(e, (tuple, frozenset)):
        if isinstance(e, tuple) and len(e) == 2 and e[0] in ('v', 'old'): out.add(e[1] if e[0] == 'v' else e)
        elif isinstance(e, tuple) and len(e) == 2 and e[0] in ('iv', 'oldiv', 'preiv'): out.add(e)
        else:
            for x in e: leaves(x, out)
    return out


def size(e):
    n = 1
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple): n += size(x)
    return n


def ptr(base, off):
    if base[0] == 'p': return ('p', base[1], base[2] + off)
    return ('p', base, off)


def norm(p):
    """pointer value -> (base, offset)"""
    return (p[1], p[2]) if p[0] == 'p' else (p, 0)


class Flow:
    def __init__(self, fn, client, limit=6000):
        self.fn, self.c, self.limit = fn, client, limit
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.entry = fn['blocks'][0]['id']
        self.ins = {}
        for b in fn['blocks']:
            for i in b['ins']: self.ins[i['id']] = i
        self.args = {a['id']: k for k, a in enumerate(fn['args'])}
        # header phis that are stepped arithmetically stay symbolic
        self.sym = set()
        for b in fn['blocks']:
            if not b['loop']: continue
            for i in b['ins']:
                if i['op'] != 'phi': continue
                for _, v in i['in']:
                    d = self.ins.get(v[1]) if v[0] == 'v' else None
                    if d is not None and (d['op'] in PURE or d['op'] == 'getelementptr'): self.sym.add(i['id'])
        # ... and those with one constant step are initial value + step * iv(header)
        self.iv, self.ivpreds = {}, {}
        for b in fn['blocks']:
            for i in b['ins']:
                if i['op'] != 'phi' or i['id'] not in self.sym: continue
                st, ok, back = None, True, set()
                for src, v in i['in']:
                    d = self.ins.get(v[1]) if v[0] == 'v' else None
                    if d is None or d['op'] != 'add': continue
                    if d['ops'][0] == ['v', i['id']] and d['ops'][1][0] == 'i':
                        c = self.val(d['ops'][1], None)[1]
                        if st is not None and st != c: ok = False
                        st = c
                        back.add(src)
                    else:
                        pass
                if st is not None and ok and len(back) < len(i['in']):
                    self.iv[i['id']] = (b['id'], st, back)
        self.ivheaders = {v[0] for v in self.iv.values()}
        self.uses, self.widen, self.kept = {}, {}, {}
        # local objects whose address escapes to unknown code
        self.escaped = set()
        al = {i['id'] for i in self.ins.values() if i['op'] == 'alloca'}

        def root(v):
            while v[0] == 'v' and v[1] in self.ins:
                d = self.ins[v[1]]
                if d['op'] == 'getelementptr': v = d['base']
                else: break
            return v[1] if v[0] == 'v' and v[1] in al else None
        self.rootof = root
        for i in self.ins.values():
            if i['op'] == 'store':
                r = root(i['ops'][0])
                if r is not None: self.escaped.add(r)
            elif i['op'] in ('call', 'invoke') and not client.preserves(i):
                for a in i['ops']:
                    r = root(a)
                    if r is not None: self.escaped.add(r)
            elif i['op'] in ('phi', 'select'):
                for v in ([x[1] for x in i['in']] if i['op'] == 'phi' else i['ops']):
                    r = root(v)
                    if r is not None: self.escaped.add(r)

    # -- values
    def val(self, o, st):
        k = o[0]
        if k == 'i':
            w = o[2]
            v = int(o[1])
            return ('c', v - (1 << w) if w > 1 and v >> (w - 1) else v)
        if k == 'null': return ('c', 0)
        if k == 'v': return self.get(o[1], st)
        if k == 'g': return ('g', o[1])
        if k == 'cgep': return ptr(self.val(o[1], st), o[2])
        if k == 'fn': return ('fn', o[1])
        if k in ('undef', 'poison'): return ('u',)
        return ('k', str(o))

    def get(self, i, st):
        if i in st.env: return st.env[i]
        if i in self.args: return ('arg', self.args[i])
        d = self.ins.get(i)
        if d is None: return ('v', i)
        op = d['op']
        if op == 'alloca': return ('p', ('al', i), 0)
        if op == 'getelementptr':
            b = self.val(d['base'], st)
            if d.get('bad'): return ('v', i)
            if d['var']:
                vs, extra = [], 0
                for v, s, *_ in d['var']:
                    e = self.val(v, st)
                    if e[0] == 'c': extra += e[1] * s
                    else: vs.append((s, e))
                if vs:
                    bb, off = norm(b)
                    return ('p', ('ix', ('p', bb, 0) if bb[0] == 'al' else bb, tuple(sorted(vs, key=str))), off + d['off'] + extra)
                return self.np(ptr(b, d['off'] + extra))
            return self.np(ptr(b, d['off']))
        if op in PURE:
            return self.arith(op, self.val(d['ops'][0], st), self.val(d['ops'][1], st))
        if op in CAST:
            a = self.val(d['ops'][0], st)
            if op in ('zext', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                if op == 'zext' and a[0] == 'c' and d.get('optype') == 'i1': return ('c', a[1] & 1)
                if op == 'zext' and a[0] == 'c' and a[1] < 0: return ('c', a[1] + (1 << int(d['optype'][1:])))
                return a
            if op == 'trunc' and a[0] == 'c' and d['type'] == 'i1': return ('c', a[1] & 1)
            if op == 'trunc' and d['type'] == 'i1': return ('icmp', 'ne', a, ('c', 0))
            if op == 'trunc' and a[0] == 'c' and -128 <= a[1] < 128: return a
            return (op, d['type'], a)
        if op == 'icmp':
            return self.icmp(d['pred'], self.val(d['ops'][0], st), self.val(d['ops'][1], st))
        if op == 'select':
            c = self.truth(self.val(d['ops'][0], st), st)
            if c is not None: return self.val(d['ops'][1 if c else 2], st)
            a, b = self.val(d['ops'][1], st), self.val(d['ops'][2], st)
            return a if a == b else ('sel', self.val(d['ops'][0], st), a, b)
        if op == 'extractvalue':
            e = self.val(d['ops'][0], st)
            for x in d['idx']:
                e = ('ev', e, x)
            return e
        return ('v', i)

    @staticmethod
    def np(p):
        return p[1] if p[0] == 'p' and p[2] == 0 and p[1][0] not in ('al', 'ix') else p

    @staticmethod
    def arith(op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if op == 'add': return ('c', x + y)
            if op == 'sub': return ('c', x - y)
            if op == 'mul': return ('c', x * y)
            if op == 'and': return ('c', x & y)
            if op == 'or': return ('c', x | y)
            if op == 'xor': return ('c', x ^ y)
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c': a, b = b, a
        if op == 'sub' and b[0] == 'c': op, b = 'add', ('c', -b[1])
        if op == 'add' and b == ('c', 0): return a
        if op == 'mul' and b == ('c', 1): return a
        if op == 'mul' and b == ('c', 0): return b
        if op == 'sub' and a[0] == 'add' and a[1] == b: return a[2]
        if op == 'sub' and a[0] == 'add' and a[2] == b: return a[1]
        if op == 'sub' and b[0] == 'add' and b[2][0] == 'c':
            if a[0] == 'add' and a[2][0] == 'c' and a[1] == b[1]: return ('c', a[2][1] - b[2][1])
            if a == b[1]: return ('c', -b[2][1])
        if op == 'sub' and a[0] == 'sub' and a[1] == b: return ('neg', a[2])
        if op == 'add' and b[0] == 'c' and a[0] == 'add' and a[2][0] == 'c': return Flow.arith('add', a[1], ('c', a[2][1] + b[1]))
        if op == 'sub' and a == b: return ('c', 0)
        if op in ('and', 'or') and a == b: return a
        if op in ('add', 'mul', 'and', 'or', 'xor') and b[0] != 'c' and str(b) < str(a): a, b = b, a
        if op == 'xor' and a[0] == 'icmp' and b in (('c', 1), ('c', -1)): return ('icmp', NEG[a[1]], a[2], a[3])
        return (op, a, b)

    @staticmethod
    def icmp(p, a, b):
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if p == 'eq': return ('c', int(x == y))
            if p == 'ne': return ('c', int(x != y))
            if p[0] == 's' or (x >= 0 and y >= 0):
                return ('c', int({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p[1:]]))
        if a == b:
            return ('c', int(p in ('eq', 'uge', 'ule', 'sge', 'sle')))
        if a[0] == 'c' and p in SWAP: p, a, b = SWAP[p], b, a
        # x - y ==/!= 0 is x ==/!= y
        if p in ('eq', 'ne') and b == ('c', 0) and a[0] == 'sub': a, b = a[1], a[2]
        if p in ('eq', 'ne') and b[0] == 'c' and a[0] == 'icmp':
            return a if (b[1] != 0) == (p == 'eq') else ('icmp', NEG[a[1]], a[2], a[3])
        if p in ('eq', 'ne') and b == ('c', 0) and a[0] == 'and' and a[2] == ('c', 1) and a[1][0] == 'icmp':
            return a[1] if p == 'ne' else ('icmp', NEG[a[1][1]], a[1][2], a[1][3])
        if p == 'ult' and b == ('c', 1): p, b = 'eq', ('c', 0)
        if p == 'ugt' and b == ('c', 0): p, b = 'ne', ('c', 0)
        if p in ('eq', 'ne') and b[0] != 'c' and str(b) < str(a): a, b = b, a
        if a[0] in ('p', 'al') and b == ('c', 0) and p in ('eq', 'ne'): return ('c', int(p == 'ne'))
        return ('icmp', p, a, b)

    def truth(self, e, st):
        if e[0] == 'c': return bool(e[1] & 1)
        if e in st.facts: return st.facts[e]
        if e[0] == 'icmp':
            n = ('icmp', NEG[e[1]], e[2], e[3])
            if n in st.facts: return not st.facts[n]
            if e[1] in ('eq', 'ne') and e[3][0] == 'c':
                for f, t in st.facts.items():      # x == c known -> x == d false
                    if f[0] == 'icmp' and f[2] == e[2] and f[3][0] == 'c' and f[3] != e[3] and ((f[1] == 'eq' and t) or (f[1] == 'ne' and not t)):
                        return e[1] == 'ne'
        if e[0] in ('and', 'or') and len(e) == 3:
            a, b = self.truth(e[1], st), self.truth(e[2], st)
            if e[0] == 'and':
                if a is False or b is False: return False
                if a and b: return True
            else:
                if a or b: return True
                if a is False and b is False: return False
        if e[0] == 'xor' and e[2] in (('c', 1), ('c', -1)):
            a = self.truth(e[1], st)
            return None if a is None else not a
        if e[0] == 'sel':
            c = self.truth(e[1], st)
            if c is not None: return self.truth(e[2] if c else e[3], st)
        return None

    def assume(self, e, t, st):
        """adds the fact; returns False if contradictory"""
        k = self.truth(e, st)
        if k is not None: return k == t
        if e[0] == 'and' and t or e[0] == 'or' and not t:
            return self.assume(e[1], t, st) and self.assume(e[2], t, st)
        if e[0] == 'xor' and e[2] in (('c', 1), ('c', -1)): return self.assume(e[1], not t, st)
        if e[0] == 'sel':
            for side, other in ((2, 3), (3, 2)):
                if e[side][0] == 'c' and bool(e[side][1] & 1) != t:      # that side is impossible
                    return self.assume(e[1], side == 3, st) and self.assume(e[other], t, st)
        if e[0] == 'icmp' and not t: e, t = ('icmp', NEG[e[1]], e[2], e[3]), True
        # no loop runs 2^40 times
        if e[0] == 'icmp' and e[1] in ('eq', 'uge', 'ugt') and e[2][0] == 'iv' and e[3][0] == 'c' and not 0 <= e[3][1] < 1 << 40: return False
        st.facts[e] = t
        # a value known to be a constant is that constant
        if e[0] == 'icmp' and e[1] == 'eq' and e[3][0] == 'c' and e[2][0] == 'v' and t:
            st.env[e[2][1]] = e[3]
        return True

    def fresh(self, i, st):
        """instruction i yields a new unknown value: older occurrences become stale"""
        st.env.pop(i, None)
        self.stale(('v', i), ('old', i), st)

    def stale(self, s, o, st):
        for k, v in list(st.env.items()):
            if mentions(v, s): st.env[k] = subst(v, s, o)
        for k, v in list(st.mem.items()):
            if mentions(k, s): del st.mem[k]
            elif mentions(v, s): st.mem[k] = subst(v, s, o)
        for k in list(st.facts):
            if mentions(k, s): del st.facts[k]
        st.cl = self.c.rename(st.cl, s, o)

    # -- transfer
    def step(self, d, st):
        """-> list of successor states (same block)"""
        op = d['op']
        if op == 'load':
            p = self.val(d['ops'][0], st)
            b, off = norm(p)
            self.c.access(self, d, 'r', p, st)
            if b[0] == 'al' and (b, off) in st.mem and not d.get('volatile'):
                st.env[d['id']] = st.mem[(b, off)]
                return [st]
            if not d.get('atomic') and self.c.stable(self, p, st):
                st.env[d['id']] = ('ld', p)
                return [st]
            if not d.get('atomic') and b[0] != 'al' and self.c.tracked(self, p, st):
                k = (b, off, d['size'])
                if k not in st.mem:
                    self.fresh(d['id'], st)
                    st.mem[k] = ('v', d['id'])
                    self.c.loaded(self, d, p, st)
                else: st.env[d['id']] = st.mem[k]
                return [st]
            self.fresh(d['id'], st)
            self.c.loaded(self, d, p, st)
            return [st]
        if op == 'store':
            p, v = self.val(d['ops'][1], st), self.val(d['ops'][0], st)
            b, off = norm(p)
            if b[0] == 'al':
                for k in [k for k in st.mem if k[0] == b and off - 8 < k[1] < off + d['size']]: del st.mem[k]
                if size(v) < 60: st.mem[(b, off)] = v
            elif b[0] == 'ix' and b[1][0] == 'p' and b[1][1][0] == 'al':
                for k in [k for k in st.mem if k[0] == b[1][1]]: del st.mem[k]
            self.c.access(self, d, 'w', p, st)
            return self.c.store(self, d, p, v, st)
        if op in ('atomicrmw', 'cmpxchg'):
            p = self.val(d['ops'][0], st)
            self.c.access(self, d, 'a', p, st)
            self.fresh(d['id'], st)
            return self.c.atomic(self, d, p, st)
        if op in ('call', 'invoke'):
            cal = d.get('callee') or ''
            if cal.startswith('llvm.memset') or cal.startswith('llvm.memcpy') or cal.startswith('llvm.memmove'):
                p = self.val(d['ops'][0], st)
                b, off = norm(p)
                n = self.val(d['ops'][2], st)
                if b[0] == 'al':
                    for k in [k for k in st.mem if k[0] == b and (n[0] != 'c' or off - 8 < k[1] < off + n[1])]: del st.mem[k]
                self.c.access(self, d, 'w', p, st)
                if not cal.startswith('llvm.memset'): self.c.access(self, d, 'r', self.val(d['ops'][1], st), st)
            if d['type'] != 'void' and not cal.startswith('llvm.expect'): self.fresh(d['id'], st)
            if cal.startswith('llvm.expect'): st.env[d['id']] = self.val(d['ops'][0], st)
            out = self.c.call(self, d, cal, st)
            if not self.c.preserves(d):
                roots = {('al', r) for r in (self.rootof(a) for a in d['ops']) if r is not None} | {('al', r) for r in self.escaped}
                for s in out:
                    for k in [k for k in s.mem if k[0] in roots]: del s.mem[k]
            return out
        if op in ('landingpad',) or (d['type'] != 'void' and op not in PURE and op not in CAST and op not in ('phi', 'getelementptr', 'icmp', 'select', 'extractvalue', 'alloca', 'br', 'switch', 'ret')):
            self.fresh(d['id'], st)
        return [st]

    def edge(self, a, b, st):
        """phi bindings for the edge a -> b"""
        phis = [i for i in self.blocks[b]['ins'] if i['op'] == 'phi']
        new = []
        for i in phis:
            for src, v in i['in']:
                if src == a:
                    new.append((i['id'], self.val(v, st)))
                    break
        st = st.copy()
        if any(i in self.iv for i, _ in new):
            self.stale(('iv', b), ('oldiv', b), st)
        for i, v in new:
            if i in self.iv:
                hdr, stp, back = self.iv[i]
                if a in back:
                    e = st.env.get(i)
                    if e is not None:
                        e = subst(e, ('oldiv', b), ('iv', b))
                        # other mentions of the old value were renamed; the new value is the same expression of the new iv
                        st.env[i] = e
                        st.facts[('icmp', 'ne', ('iv', b), ('c', 0))] = True
                        continue
                else:
                    v2 = subst(subst(v, ('iv', b), ('preiv', b)), ('oldiv', b), ('preiv', b))
                    st.env[i] = self.arith('add', v2, self.arith('mul', ('iv', b), ('c', stp)))
                    st.facts[('icmp', 'eq', ('iv', b), ('c', 0))] = True
                    continue
            if v[0] == 'ev' and v[1][0] == 'v' and self.ins[v[1][1]]['op'] == 'landingpad':
                self.fresh(i, st)
                st.env[i] = ('k', 'exception')
                continue
            if i in self.sym or size(v) > 60 or mentions(v, ('v', i)):
                if v == ('v', i): continue
                self.fresh(i, st)
            else:
                st.env.pop(i, None)
        for i, v in new:
            if st.env.get(i) == ('k', 'exception'): continue
            if i in self.iv and (a not in self.iv[i][2] or i in st.env): continue
            if not (i in self.sym or size(v) > 60 or mentions(v, ('v', i))): st.env[i] = v
        if self.blocks[b]['loop']:
            # widening: a memory value that keeps changing around a loop is forgotten there
            for k in list(st.mem):
                w = self.widen.setdefault((b, k), set())
                w.add(st.mem[k])
                if len(w) > 3 and k[0][0] != 'al': del st.mem[k]
        live = self.live(b)
        for k in [k for k in st.mem if k[0][0] == 'v' and k[0][1] not in live and not self.c.keepmem(self, k[0], st)]: del st.mem[k]
        # keep only bindings of values that are live somewhere ahead: approximated by dominance-free pruning of dead ids
        live = self.live(b)
        for k in [k for k in st.env if k not in live]: del st.env[k]
        ids = set(live) | {('iv', h) for h in self.ivheaders if self.keepiv(h)}
        for x in list(st.env.values()) + list(st.mem.values()) + [st.cl]: leaves(x, ids)
        for k in [k for k in st.facts if not leaves(k, set()) <= ids]: del st.facts[k]
        return self.c.edge(self, a, b, st)

    def keepiv(self, h):
        if h not in self.kept: self.kept[h] = self.c.keepiv(self, h)
        return self.kept[h]

    def loopblocks(self, h):
        """natural loop of header h"""
        pred = {}
        for b, blk in self.blocks.items():
            for s in blk['ins'][-1].get('succ', []): pred.setdefault(s, set()).add(b)
        backs = {src for i in self.blocks[h]['ins'] if i['op'] == 'phi' and i['id'] in self.iv for src in self.iv[i['id']][2]}
        out, work = {h}, list(backs)
        while work:
            x = work.pop()
            if x in out: continue
            out.add(x)
            work += pred.get(x, ())
        return out

    def live(self, b):
        if not self.uses:
            use, deff, succ = {}, {}, {}
            for bid, blk in self.blocks.items():
                u, dd = set(), set()
                for i in blk['ins']:
                    if i['op'] != 'phi':
                        for v in self.operands(i):
                            u.add(v)
                    dd.add(i['id'])
                use[bid], deff[bid], succ[bid] = u, dd, [s for s in blk['ins'][-1].get('succ', [])]
            # lazily evaluated expressions need their operands: close the uses over pure definitions
            def close(s):
                out, work = set(), list(s)
                while work:
                    x = work.pop()
                    if x in out: continue
                    out.add(x)
                    d = self.ins.get(x)
                    if d is not None and (d['op'] in PURE or d['op'] in CAST or d['op'] in ('icmp', 'select', 'getelementptr', 'extractvalue')):
                        work += self.operands(d)
                return out
            use = {k: close(v) for k, v in use.items()}
            phiuse = {}
            for bid, blk in self.blocks.items():
                for i in blk['ins']:
                    if i['op'] == 'phi':
                        for src, v in i['in']:
                            if v[0] == 'v': phiuse.setdefault(src, set()).update(close([v[1]]))
            live = {k: set() for k in self.blocks}
            phis = {k: {i['id'] for i in b['ins'] if i['op'] == 'phi'} for k, b in self.blocks.items()}
            ch = True
            while ch:
                ch = False
                for bid in self.blocks:
                    n = set(use[bid]) | phiuse.get(bid, set())
                    for s in succ[bid]: n |= live[s] - phis[s]
                    n -= deff[bid] - phis[bid]
                    if n != live[bid]: live[bid], ch = n, True
            self.uses = live
        return self.uses[b]

    @staticmethod
    def operands(i):
        out = []
        for v in list(i.get('ops', [])) + ([i['base']] if 'base' in i else []) + [x[0] for x in i.get('var', [])] + ([i['calleeop']] if 'calleeop' in i else []):
            if v and v[0] == 'v': out.append(v[1])
        return out

    def run(self):
        start = St(self.c.start(self), {}, {}, {})
        seen = self.allseen = {b: set() for b in self.blocks}
        work = [(self.entry, start)]
        n = 0
        self.visited = set()
        while work:
            b, st = work.pop()
            k = st.key()
            if k in seen[b]: continue
            seen[b].add(k)
            self.visited.add(b)
            n += 1
            if n > self.limit: raise TooBig('%s: more than %d states' % (self.fn['name'], self.limit))
            sts = [st.copy()]
            blk = self.blocks[b]
            for d in blk['ins']:
                if d['op'] == 'phi': continue
                if d['op'] in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'): break
                nxt = []
                for s in sts: nxt += self.step(d, s)
                sts = nxt
            d = blk['ins'][-1]
            for s in sts:
                if d['op'] == 'br':
                    if len(d['succ']) == 1: work.append((d['succ'][0], self.edge(b, d['succ'][0], s)))
                    else:
                        c = self.val(d['ops'][0], s)
                        t = self.truth(c, s)
                        for tv, to in ((True, d['succ'][0]), (False, d['succ'][1])):
                            if t is not None and t != tv: continue
                            s2 = s.copy()
                            if self.assume(c, tv, s2):
                                self.c.assumed(self, c, tv, s2)
                                work.append((to, self.edge(b, to, s2)))
                elif d['op'] == 'switch':
                    v = self.val(d['ops'][0], s)
                    cases = [(self.val(d['ops'][k], s), d['succ'][k // 2]) for k in range(2, len(d['ops']), 2)]
                    for cv, to in cases:
                        e = self.icmp('eq', v, cv)
                        s2 = s.copy()
                        if self.assume(e, True, s2): work.append((to, self.edge(b, to, s2)))
                    s2 = s.copy()
                    if all(self.assume(self.icmp('eq', v, cv), False, s2) for cv, _ in cases): work.append((d['succ'][0], self.edge(b, d['succ'][0], s2)))
                elif d['op'] == 'invoke':
                    for s2 in self.step(d, s):
                        if not self.c.nothrow(d): 
                            u = self.c.unwound(self, d, s2.copy())
                            if u is not None: work.append((d['unwind'], self.edge(b, d['unwind'], u)))
                        work.append((d['normal'], self.edge(b, d['normal'], s2)))
                elif d['op'] == 'resume': self.c.resume(self, d, s)
                elif d['op'] == 'ret':
                    self.c.ret(self, d, self.val(d['ops'][0], s) if d['ops'] else None, s)
        self.nstates = n
        return n


NEG = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}


class Client:
    """default typestate: nothing"""
    KEEP = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.expect', 'llvm.memset', 'llvm.memcpy', 'llvm.memmove', 'llvm.launder', 'llvm.experimental.noalias', 'llvm.invariant', '__lk_class')

    def start(self, f): return ()
    def rename(self, cl, a, b): return subst(cl, a, b)
    def preserves(self, d): return (d.get('callee') or '').startswith(self.KEEP)
    def access(self, f, d, rw, p, st): pass
    def stable(self, f, p, st): return False
    def keepiv(self, f, h): return False
    def assumed(self, f, c, t, st): pass
    def keepmem(self, f, base, st): return mentions(st.cl, base)
    def tracked(self, f, p, st): return False
    def loaded(self, f, d, p, st): pass
    def store(self, f, d, p, v, st): return [st]
    def atomic(self, f, d, p, st): return [st]
    def call(self, f, d, cal, st): return [st]
    def edge(self, f, a, b, st): return st
    def nothrow(self, d): return bool(d.get('nounwind'))
    def unwound(self, f, d, st): return st
    def ret(self, f, d, v, st): pass
    def resume(self, f, d, st): pass
