"""spin_mutex: explicit abstract interpretation of lock / try_lock / unlock / the constructor over LLVM IR. The flag is the
environment's: every read of it may give either value unless this thread owns it; integers that only steer the back-off are
evaluated. No path is executed and no solver is used; the state space is finite."""
import os, json, tempfile, collections
from common import *
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the IR of each operation against an environment that owns the flag; ownership typestate, release/acquire ordering, cycle analysis for progress'
SRC = '''#include <new>
#include <muu/spin_mutex.h>
extern "C" __attribute__((used)) void i__lock(muu::spin_mutex* m) { m->lock(); }
extern "C" __attribute__((used)) bool i__try_lock(muu::spin_mutex* m) { return m->try_lock(); }
extern "C" __attribute__((used)) void i__unlock(muu::spin_mutex* m) { m->unlock(); }
extern "C" __attribute__((used)) void i__ctor(void* p) { ::new (p) muu::spin_mutex; }
'''
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')


class Undecided(Exception):
    pass


class Bad(Exception):
    pass


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Machine:
    def __init__(self, f, name, cap):
        self.f, self.name, self.cap = f, name, cap
        self.blocks = {b['id']: b for b in f['blocks']}
        self.entry = f['blocks'][0]['id']
        self.arg = f['args'][0]['id']
        self.bad = {}
        self.live = self.liveness()

    def liveness(self):
        use = {}
        B = self.blocks
        succ = {b: B[b]['ins'][-1].get('succ', []) for b in B}
        live = {b: set() for b in B}
        ch = True
        while ch:
            ch = False
            for b in B:
                out = set()
                for s in succ[b]:
                    defs = set()
                    out |= live[s]
                    for i in B[s]['ins']:
                        if i['op'] == 'phi':
                            out |= {v[1] for p, v in i['in'] if p == b and v[0] == 'v'}
                for i in reversed(B[b]['ins']):
                    out.discard(i['id'])
                    if i['op'] != 'phi':
                        out |= {o[1] for o in i.get('ops', []) if o[0] == 'v'}
                if out != live[b]:
                    live[b], ch = out, True
        return live

    def val(self, env, o):
        if o[0] == 'i': return int(o[1]) & ((1 << o[2]) - 1)
        if o[0] == 'v':
            if o[1] == self.arg: return ('p', 0)
            if o[1] in env: return env[o[1]]
        if o[0] in ('undef', 'poison'): return None
        raise Undecided('operand %s' % o[0])

    def where(self, i):
        return ' -> '.join('%s:%s' % tuple(l.split(':')[:2]) for l in (i.get('loc') or [])[:1]).replace(REPO + '/', '') or self.name

    def report(self, i, what):
        self.bad.setdefault((self.name, what), self.where(i))

    def run(self, own, choices=None):
        """explores all states; returns (graph: state -> [(label, state)], returns: [(state, value)])"""
        start = (self.entry, None, 0, (), own, False)
        graph, rets, todo = {}, [], collections.deque([start])
        self.partial = False
        while todo:
            s = todo.popleft()
            if s in graph: continue
            if len(graph) > self.cap:
                self.partial = True  # what has been reached is reached; nothing is concluded from what has not
                break
            graph[s] = nx = []
            for lab, t in self.step(s, rets):
                nx.append((lab, t))
                if t not in graph: todo.append(t)
        return start, graph, rets

    def step(self, s, rets):
        """one instruction; a state is (block, previous block, index, environment, ownership, release fence seen)"""
        b, prev, k, envt, own, frel = s
        env = dict(envt)
        ins = self.blocks[b]['ins']
        if k == 0:
            new = {}
            while ins[k]['op'] == 'phi':
                v = [v for p, v in ins[k]['in'] if p == prev]
                new[ins[k]['id']] = self.val(env, v[0])
                k += 1
            env = {a: v for a, v in env.items() if a in self.live[b]}
            env.update(new)
        i = ins[k]
        op = i['op']
        V = lambda n: self.val(env, i['ops'][n])

        def nxt(v=None, own_=own, frel_=frel, lab=''):
            e = dict(env)
            if i['type'] != 'void': e[i['id']] = v
            return (lab, (b, prev, k + 1, tuple(sorted(e.items(), key=lambda x: x[0])), own_, frel_))
        if op == 'br':
            tgt = [o[1] for o in i['ops'] if o[0] == 'bb']
            e = tuple(sorted(env.items(), key=lambda x: x[0]))
            if len(tgt) == 1: return [('', (tgt[0], b, 0, e, own, frel))]
            c = V(0)
            # operands are (condition, if false, if true)
            if c is None: return [('?', (t, b, 0, e, own, frel)) for t in tgt]
            return [('', (tgt[1] if c & 1 else tgt[0], b, 0, e, own, frel))]
        if op == 'ret':
            rets.append((s, V(0) if i['ops'] else None, own, i))
            return []
        if op == 'unreachable': return []
        if op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            p = V(1 if op == 'store' else 0)
            if not (isinstance(p, tuple) and p[0] == 'p'): raise Undecided('access through an unknown pointer')
            if p[1] != self.flag:
                if op == 'store': return [nxt()]
                if op == 'load': return [nxt(None)]
                raise Undecided('a second atomic')
            if op in ('load', 'store') and not i.get('atomic') and self.name != 'ctor':
                self.report(i, 'accesses the flag non-atomically')
            o = i.get('ordering')
            olds = [1] if own else [0, 1]
            if op == 'load':
                out = [nxt(v, lab=str(v)) for v in olds]
                return out
            res = []
            if op == 'store':
                w = V(0)
                return [self.write(i, w, None, o, own, frel, nxt, None, '')]
            if op == 'atomicrmw':
                x = V(1)
                for old in olds:
                    r = i['rmw']
                    w = x if r == 'xchg' else (old | x) if r == 'or' else (old & x) if r == 'and' else (old ^ x) if r == 'xor' else None
                    if w is None: raise Undecided('atomicrmw ' + r)
                    res.append(self.write(i, w, old, o, own, frel, nxt, old, str(old)))
                return res
            e_, n_ = V(1), V(2)
            for old in olds:
                if old == e_:
                    res.append(self.write(i, n_, old, o, own, frel, nxt, ('s', old, 1), str(old)))
                    if i.get('weak'): res.append(nxt(('s', old, 0), lab='x'))
                else:
                    res.append(nxt(('s', old, 0), lab=str(old)))
            return res
        if op == 'fence':
            o = i.get('ordering')
            return [nxt(own_=2 if own == 1 and o in ACQ else own, frel_=frel or o in REL)]
        if op == 'call':
            c = i.get('callee') or ''
            mm = c.split('.')[1] if c.startswith('llvm.') and c.count('.') == 2 else ''
            if mm in ('smin', 'smax', 'umin', 'umax'):
                a, d, w = V(0), V(1), int(i['type'][1:])
                if not isinstance(a, int) or not isinstance(d, int): return [nxt(None)]
                return [nxt((min if 'min' in mm else max)(a, d, key=lambda v: sx(v, w) if mm[0] == 's' else v))]
            if c.startswith('llvm.') or not any(o[0] == 'v' and isinstance(env.get(o[1], ('p', 0) if o[1] == self.arg else 0), tuple) for o in i.get('ops', [])):
                return [nxt(None)]
            raise Undecided('call of ' + c)
        if op in ('getelementptr', 'bitcast'):
            p = V(0)
            if isinstance(p, tuple) and p[0] == 'p':
                off = i.get('off', 0) if op == 'getelementptr' else 0
                if op == 'getelementptr' and ('off' not in i or i.get('idx')): raise Undecided('address arithmetic')
                return [nxt(('p', p[1] + off))]
            return [nxt(None)]
        if op == 'extractvalue':
            a = V(0)
            ix = i.get('idx', i.get('indices', [0]))
            if isinstance(a, tuple) and a[0] == 's': return [nxt(a[1 + int(ix[0])])]
            return [nxt(None)]
        return [nxt(self.pure(i, op, V))]

    def write(self, i, w, old, o, own, frel, nxt, v, lab):
        if w is None:
            raise Undecided('an unknown value is written')
        w &= 1
        if old is not None and w == old: return nxt(v, lab=lab)
        if w:
            if old is None:
                if not own: self.report(i, 'sets the flag without reading it in the same operation')
                return nxt(v, own_=own or 1, lab=lab)
            if own: return nxt(v, lab=lab)
            return nxt(v, own_=2 if o in ACQ else 1, lab=lab)
        if self.name == 'ctor': return nxt(v, own_=0, lab=lab)
        if not own: self.report(i, 'clears the flag while another thread may own it')
        elif o not in REL and not frel: self.report(i, 'gives the flag up without release ordering')
        return nxt(v, own_=0, lab=lab)

    def pure(self, i, op, V):
        t = i['type']
        w = int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else None
        m = (1 << w) - 1 if w else 0
        if op == 'select':
            c = V(0)
            if c is None: return V(1) if V(1) == V(2) else None
            return V(1) if c & 1 else V(2)
        if op in ('trunc', 'zext', 'freeze'):
            a = V(0)
            return a & m if isinstance(a, int) else a if op == 'freeze' else None
        if op == 'sext':
            a = V(0)
            f = i.get('from') or i.get('optype') or 'i1'
            return sx(a, int(f[1:])) & m if isinstance(a, int) else None
        if len(i.get('ops', [])) == 2:
            a, c = V(0), V(1)
            if op == 'icmp':
                if not isinstance(a, int) or not isinstance(c, int): return None
                n = int(i['optype'][1:]) if i['optype'][0] == 'i' else 64
                p = i['pred']
                if p[0] == 's': a, c = sx(a, n), sx(c, n)
                return int({'eq': a == c, 'ne': a != c, 'lt': a < c, 'le': a <= c, 'gt': a > c, 'ge': a >= c}[p if p in ('eq', 'ne') else p[1:]])
            for x in (a, c):
                if op == 'and' and x == 0: return 0
                if op == 'or' and x == m: return m
            if not isinstance(a, int) or not isinstance(c, int): return None
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                return {'add': a + c, 'sub': a - c, 'mul': a * c, 'and': a & c, 'or': a | c, 'xor': a ^ c}[op] & m
            if op == 'shl': return (a << c) & m if c < w else None
            if op == 'lshr': return a >> c if c < w else None
            if op in ('udiv', 'urem') and c: return (a // c if op == 'udiv' else a % c)
        return None


def cyclic(start, graph, drop):
    """a state on a cycle reachable by edges whose label is not dropped, from any state of the graph"""
    col = {}
    for r in graph:
        if r in col: continue
        st = [(r, iter([t for l, t in graph[r] if l not in drop]))]
        col[r] = 1
        while st:
            s, it = st[-1]
            for t in it:
                if col.get(t) == 1: return t
                if t not in col:
                    col[t] = 1
                    st.append((t, iter([x for l, x in graph[t] if l not in drop])))
                    break
            else:
                col[s] = 2
                st.pop()
    return None


def reach(start, graph, drop):
    seen, st = {start}, [start]
    while st:
        for l, t in graph[st.pop()]:
            if l not in drop and t not in seen:
                seen.add(t)
                st.append(t)
    return seen


def check(rep):
    n, und, sizes = 0, [], {}
    for std in ('c++17', 'c++20'):
        for opt in ('-O1', '-O2'):
            with tempfile.TemporaryDirectory() as d:
                src = d + '/spin.cpp'
                open(src, 'w').write(SRC)
                compile_ir(src, d + '/spin.bc', opt=[opt, '-mllvm', '-inline-threshold=100000', '-g1', '-w', '-fno-exceptions', '-DNDEBUG'], std=std)
                fs = {f['name'][3:]: f for f in json.load(open(dump(d + '/spin.bc', 'i__', d + '/spin.json')))['functions']}
            if set(fs) != {'lock', 'try_lock', 'unlock', 'ctor'}: raise Broken('spin_mutex members not found: %s' % sorted(fs))
            for name, f in fs.items():
                key = '%s %s %s' % (name, std, opt)
                m = Machine(f, name, 60000)
                m.flag = 0
                n += 1
                try:
                    start, graph, rets = m.run({'lock': 0, 'try_lock': 0, 'unlock': 2, 'ctor': 1}[name])
                    sizes[key] = len(graph)
                    if not rets and name != 'lock' and not m.partial: m.bad[(name, 'never returns')] = name
                    for s, v, own, i in rets:
                        if name == 'lock':
                            if own == 0: m.report(i, 'returns without owning the flag')
                            elif own == 1: m.report(i, 'takes the flag without acquire ordering')
                        elif name == 'try_lock':
                            if v is None: raise Undecided('unknown result')
                            if v & 1 and own == 0: m.report(i, 'reports success without owning the flag')
                            elif v & 1 and own == 1: m.report(i, 'takes the flag without acquire ordering')
                            elif not v & 1 and own: m.report(i, 'reports failure although it took the flag')
                        elif own:
                            m.report(i, 'returns with the flag still set')
                    if m.partial: raise Undecided('more than %d states' % m.cap)
                    if name == 'lock':
                        free = reach(start, graph, ('1', 'x'))
                        if not any(s in free for s, *_ in rets): m.bad[(name, 'never returns although the flag is free')] = name
                        if cyclic(start, graph, ('1', 'x', '?')): m.bad[(name, 'can go round for ever although the flag is free')] = name
                    elif cyclic(start, graph, ('?',)): m.bad[(name, 'contains a loop that need not end')] = name
                    if name == 'try_lock':
                        free = reach(start, graph, ('1', 'x'))
                        for s, v, own, i in rets:
                            if s in free and not v & 1: m.report(i, 'fails although the flag is free')
                    if name == 'ctor' and not any(i['op'] == 'store' for b in f['blocks'] for i in b['ins']):
                        m.bad[(name, 'does not initialise the flag')] = name
                except Undecided as e:
                    und.append('%s: %s' % (key, e))
                for (fn, what), loc in sorted(m.bad.items()):
                    rep.violation('spin_mutex::%s %s' % (fn, what), '[%s %s] spin_mutex::%s %s (%s)' % (std, opt, fn, what, loc))
    rep.coverage.update({'obligations': n, 'undecided': und, 'discharged': n - len(und), 'states': sizes,
                         'rule': 'lock returns only owning the flag (taken by one atomic read-modify-write with acquire ordering) and, whenever the flag is free, after finitely many steps; try_lock has no '
                                 'unbounded loop, succeeds on a free mutex, reports success exactly when it owns the flag; unlock clears it exactly with release ordering; nothing else writes it; it starts clear',
                         'explanation': 'every state of each operation, with the flag read as either value, in 4 compilations'})
    rep.assumptions += ['the flag is only accessed by the members of spin_mutex', 'clang 18 preserves the memory orderings of the source in LLVM IR', 'unlock is called by the owner']
