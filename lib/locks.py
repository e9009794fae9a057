"""lock sets, counters and task life cycles of the thread pool, on its flattened IR"""
import os, json, re
from common import *
import tsflow
from tsflow import Flow, Client, norm, mentions, subst, leaves, TooBig

ENTRIES = ['create', 'destroy', 'lock_multiple', 'lock', 'acquire', 'unlock', 'wait', 'workers', 'capacity']
WAIT = ('pthread_cond_clockwait', 'pthread_cond_timedwait', 'pthread_cond_wait', '_ZNSt18condition_variable4wait')
ALL, ONE = '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv'


def unold(e):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'old': return ('v', e[1])
        if len(e) == 2 and e[0] in ('oldiv', 'preiv'): return ('iv', e[1])
        return tuple(unold(x) for x in e)
    return e


CONSTS = '''#include "muu/thread_pool.h"
#include <cstddef>
using A = muu::impl::thread_pool_task_action;
extern "C" { extern const unsigned long k_move, k_invoke, k_destroy, k_type, k_data, k_task, k_size, k_invoker;
const unsigned long k_move = (unsigned long)A::types::move, k_invoke = (unsigned long)A::types::invoke, k_destroy = (unsigned long)A::types::destroy,
 k_type = offsetof(A, type), k_data = offsetof(A, data), k_size = sizeof(muu::impl::thread_pool_task), k_invoker = offsetof(muu::impl::thread_pool_task, action_invoker); }
'''


class Pool:
    """the IR of the pool and what is known about its classes"""
    def __init__(self):
        T = tmpdir()
        base = ['-std=c++17', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-DMUU_BUILDING=1', '-DNDEBUG']
        bc = os.path.join(T, 'pool.bc')
        r = run([CLANG, *base, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-limit-debug-info', '-emit-llvm', '-c', REPO + '/src/thread_pool.cpp', '-o', bc])
        if r.returncode: raise Broken('src/thread_pool.cpp does not compile: ' + r.stderr[:400])
        out = os.path.join(T, 'pool.json')
        with open(out, 'w') as f:
            import subprocess
            p = subprocess.run([tool('irdump'), bc, 'x', 'flat=^muu_impl_thread_pool', 'flat=_State_impl.*_M_runEv'], stdout=f, stderr=subprocess.PIPE, text=True)
        if p.returncode: raise Broken('irdump: ' + p.stderr[:400])
        D = json.load(open(out))
        self.fns = {f['name']: f for f in D['functions']}
        self.classes = {i: c for i, c in enumerate(D['flat']['classes'])}
        for c in self.classes.values():
            c['mutex'] = [m for m in c['members'] if m['type'] in ('mutex', 'std::mutex', 'timed_mutex', 'recursive_mutex')]
        self.entry = {}
        for e in ENTRIES:
            n = 'muu_impl_thread_pool_' + e
            if n not in self.fns: raise Broken('entry point %s of the pool is gone' % n)
            self.entry[e] = self.fns[n]
        self.workers = [f for n, f in self.fns.items() if '_M_runEv' in n]
        if not self.workers: raise Broken('no thread function found in the pool')
        if not self.classes: raise Broken('no class with a mutex found in the pool')
        src = os.path.join(T, 'k.cpp')
        open(src, 'w').write(CONSTS)
        r = run([CLANG, *base, '-S', '-emit-llvm', '-o', '-', src])
        if r.returncode: raise Broken('the task action type has changed: ' + r.stderr[:400])
        self.k = {m.group(1): int(m.group(2)) for m in re.finditer(r'@k_(\w+) = .*constant i64 (\d+)', r.stdout)}

    def cls(self, c): return self.classes[c]['name']


def where(d):
    l = d.get('loc') or []
    if isinstance(l, str): l = [l]
    own = [x.replace(REPO + '/', '') for x in l if REPO + '/' in x]
    return ' < '.join(own[:3]) or '?'


class LockClient(Client):
    """cl = (held, misc) with held = frozenset of object pointers whose mutex is held"""
    def __init__(self, pool, fn, name, virtual=None, stores=None, dropmisc=None):
        self.pool, self.fn, self.name, self.virtual = pool, fn, name, virtual
        self.objs = {}             # base -> {(off, class)}
        self.ptrs = {}             # known object pointer -> class
        self.problems = {}         # key -> text
        self.stats = {}
        self.undecided = {}
        self.mutable = stores      # set of (class, off) written outside construction
        self.symfield = {}         # loaded symbol -> (object, class, field offset)
        self.accesses = set()
        self.order = set()
        self.atomstores = set()

    # -- state
    def start(self, f): return (frozenset(), ())

    @staticmethod
    def misc(st): return dict(st.cl[1])

    @staticmethod
    def put(st, held=None, **kw):
        m = dict(st.cl[1])
        for k, v in kw.items():
            if v is None: m.pop(k, None)
            else: m[k] = v
        st.cl = (st.cl[0] if held is None else held, tuple(sorted(m.items(), key=lambda t: t[0])))

    def count(self, k, x): self.stats.setdefault(k, set()).add(x)

    def problem(self, prop, key, text):
        self.problems.setdefault((prop, key), text)

    def und(self, prop, text): self.undecided.setdefault(prop, set()).add(text)

    # -- objects
    def register(self, p, c):
        p = unold(p)
        b, off = norm(p)
        self.ptrs[(b, off)] = c
        self.objs.setdefault(b, {})[off] = c

    def obj(self, p):
        """(object pointer as (base, off), class, offset in the object) of an address"""
        b, off = norm(p)
        for o, c in self.objs.get(unold(b), {}).items():
            if o <= off < o + self.pool.classes[c]['size']: return (b, o), c, off - o
        return None

    def member(self, c, off):
        for m in self.pool.classes[c]['members']:
            if m['off'] <= off < m['off'] + max(m['size'], 1): return m
        return None

    def preserves(self, d):
        cal = d.get('callee') or ''
        return cal.startswith(self.KEEP) or cal.startswith(WAIT) or cal.startswith('pthread_mutex')

    def nothrow(self, d):
        cal = d.get('callee') or ''
        return bool(d.get('nounwind')) or cal.startswith(('pthread_',) + WAIT)

    def tracked(self, f, p, st):
        o = self.obj(p)
        if not o and self.heap(f, p): return True
        return bool(o) and (o[0] in st.cl[0] or self.name in ('create', 'destroy')) and self.guarded(o[1], o[2])

    ALLOC = ('aligned_alloc', 'malloc', 'calloc', '_Znwm', '_Znam', '_aligned_malloc', '_ZnwmSt11align_val_t')

    def heap(self, f, p):
        """memory allocated by this function, addressed directly"""
        if self.name != 'create': return False
        b, off = norm(p)
        return b[0] == 'v' and (f.ins.get(b[1], {}).get('callee') or '') in self.ALLOC

    def guarded(self, c, off):
        m = self.member(c, off)
        if m is None or m['ref'] or 'atomic' in m['type'] or 'mutex' in m['type'] or 'condition_variable' in m['type']: return False
        return self.mutable is not None and (c, m['off']) in self.mutable

    def stable(self, f, p, st):
        if self.mutable is None: return False
        o = self.obj(p)
        if o:
            m = self.member(o[1], o[2])
            return m is not None and (o[1], m['off']) not in self.mutable and 'atomic' not in m['type']
        b, off = norm(p)
        while b[0] in ('ix',): b = b[1] if b[1][0] != 'p' else b[1][1]
        # the pool descriptor and the closure of a worker are not written after construction (those parts that are, are not stable)
        if b == ('arg', 0): return ('arg', off) not in self.mutable
        return False

    def drop(self, st, o):
        """forget what is known of the fields of object o (its mutex was released)"""
        c = self.ptrs.get((unold(o[0]), o[1]))
        if self.name in ('create', 'destroy'): return
        for k in [k for k in st.mem if len(k) == 3 and k[0] == o[0] and o[1] <= k[1] < o[1] + (self.pool.classes[c]['size'] if c is not None else 1 << 30)]: del st.mem[k]

    # -- events
    def access(self, f, d, rw, p, st):
        b, off = norm(p)
        if b[0] == 'al' or b[0] in ('g',): return
        if self.virtual is None: pass
        o = self.obj(p)
        self.on_access(f, d, rw, p, o, st)

    def on_access(self, f, d, rw, p, o, st): pass

    def loaded(self, f, d, p, st):
        o = self.obj(p)
        if o: self.symfield[('v', d['id'])] = (o[0], o[1], o[2])
        elif norm(p)[0] == ('arg', 0): self.symfield[('v', d['id'])] = (('arg', 0), None, norm(p)[1])
        if o and d.get('atomic'): self.on_atomic_load(f, d, o, st)

    def on_atomic_load(self, f, d, o, st): pass

    def store(self, f, d, p, v, st):
        o = self.obj(p)
        b, off = norm(p)
        if d.get('atomic'): self.on_atomic_store(f, d, p, v, st)
        if not o and self.heap(f, p):
            for k in [k for k in st.mem if len(k) == 3 and k[0] == b and k[1] < off + d['size'] and off < k[1] + k[2]]: del st.mem[k]
            if tsflow.size(v) < 200: st.mem[(b, off, d['size'])] = v
        if o:
            for k in [k for k in st.mem if len(k) == 3]:
                ko = self.obj(('p', k[0], k[1]))
                if ko and ko[1] == o[1] and ko[0] != o[0] and ko[2] == o[2]: del st.mem[k]
            old = st.mem.get((b, off, d['size']))
            if d.get('atomic') or (self.member(o[1], o[2]) or {}).get('type', '').find('atomic') >= 0: self.atomstores.add((o[1], o[2], o[0] in st.cl[0], where(d)))
            if self.guarded(o[1], o[2]):
                for k in [k for k in st.mem if len(k) == 3 and k[0] == b and k != (b, off, d['size']) and k[1] < off + d['size'] and off < k[1] + k[2]]: del st.mem[k]
                if (o[0] in st.cl[0] or self.name in ('create', 'destroy')) and tsflow.size(v) < 60: st.mem[(b, off, d['size'])] = v
                else: st.mem.pop((b, off, d['size']), None)
                self.on_store(f, d, o, old, v, st)
        return [st]

    def atomic(self, f, d, p, st):
        o = self.obj(p)
        if o: self.atomstores.add((o[1], o[2], o[0] in st.cl[0], where(d)))
        return [st]

    def on_atomic_store(self, f, d, p, v, st): pass
    def on_store(self, f, d, o, old, v, st): pass
    def on_lock(self, f, d, o, st): pass
    def on_unlock(self, f, d, o, st): pass
    def on_wait(self, f, d, cv, o, timed, st): pass
    def on_notify(self, f, d, o, every, st): pass
    def on_action(self, f, d, typ, task, data, st): return [st]
    def on_call(self, f, d, cal, st): return [st]

    def mutexobj(self, p):
        o = self.obj(p)
        if o: return o[0], o[1]
        return norm(p), None

    def call(self, f, d, cal, st):
        if cal == '__lk_class':
            p = f.val(d['ops'][0], st)
            c = f.val(d['ops'][1], st)[1]
            self.register(p, c)
            if self.virtual is not None and mentions(p, self.virtual) and 'vdone' not in dict(st.cl[1]):
                self.put(st, held=st.cl[0] | {norm(p)}, vdone=1)
            return [st]
        if cal in ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_clocklock'):
            o, c = self.mutexobj(f.val(d['ops'][0], st))
            out = []
            ok, no = st, None
            if cal != 'pthread_mutex_lock': no = st.copy()
            self.count('locks', where(d))
            if o in ok.cl[0] and cal == 'pthread_mutex_lock':
                self.problem('P01', 'relock ' + where(d), '%s locks a mutex it already holds (%s)' % (self.name, where(d)))
            if cal == 'pthread_mutex_lock':
                for h in ok.cl[0]: self.order.add((self.ptrs.get((unold(h[0]), h[1])), c, where(d)))
            ok.env[d['id']] = ('c', 0)
            self.put(ok, held=ok.cl[0] | {o})
            self.on_lock(f, d, o, ok)
            out.append(ok)
            if no is not None:
                f.assume(('icmp', 'ne', ('v', d['id']), ('c', 0)), True, no)
                out.append(no)
            return out
        if cal == 'pthread_mutex_unlock':
            o, c = self.mutexobj(f.val(d['ops'][0], st))
            self.count('unlocks', where(d))
            st.env[d['id']] = ('c', 0)
            if o not in st.cl[0]:
                if not st.cl[0]: self.problem('P01', 'unlock ' + where(d), '%s unlocks a mutex it does not hold (%s)' % (self.name, where(d)))
                else: self.und('P01', 'unlock of a mutex not seen locked: ' + where(d))
            self.on_unlock(f, d, o, st)
            self.put(st, held=st.cl[0] - {o})
            self.drop(st, o)
            return [st]
        if cal.startswith(WAIT):
            timed = not cal.startswith(('pthread_cond_wait', '_ZNSt18condition_variable4wait'))
            cv = self.obj(f.val(d['ops'][0], st))
            p = f.val(d['ops'][1], st)
            b, off = norm(p)
            if cal.startswith('_ZNSt'): p = st.mem.get((b, off), ('u',))      # unique_lock: its first member is the mutex
            o, c = self.mutexobj(p)
            if o not in st.cl[0] and p != ('u',):
                self.problem('P01', 'wait ' + where(d), '%s waits with a mutex it does not hold (%s)' % (self.name, where(d)))
            if st.cl[0] - {o} and p != ('u',):
                self.problem('P01', 'wait2 ' + where(d), '%s waits on a condition variable while holding another mutex (%s)' % (self.name, where(d)))
            self.on_wait(f, d, cv, o, timed, st)
            for h in list(st.cl[0]): self.drop(st, h)
            if d['type'] != 'void': st.env[d['id']] = ('v', d['id'])
            return [st]
        if cal in (ALL, ONE):
            o = self.obj(f.val(d['ops'][0], st))
            self.count('notifications', where(d))
            if o: self.on_notify(f, d, o, cal == ALL, st)
            return [st]
        if not cal and d.get('calleeop'):
            # type-erased call of a task: the only argument is the action
            if len(d['ops']) == 1:
                b, off = norm(f.val(d['ops'][0], st))
                K = self.pool.k
                t = st.mem.get((b, off + K['type'])) if b[0] == 'al' else None
                if t is not None and t[0] == 'c':
                    typ = {K['move']: 'move', K['invoke']: 'invoke', K['destroy']: 'destroy'}.get(t[1] & 255, 'other')
                    return self.on_action(f, d, typ, st.mem.get((b, off)), st.mem.get((b, off + K['data'])), st)
                if self.name == 'worker': self.und('P02', 'type-erased call with an unknown action: ' + where(d))
        return self.on_call(f, d, cal, st)


class Collect(LockClient):
    """which fields are written outside construction"""
    def __init__(self, *a):
        super().__init__(*a)
        self.written = set()

    def on_access(self, f, d, rw, p, o, st):
        if rw == 'r': return
        if o:
            m = self.member(o[1], o[2])
            if m: self.written.add((o[1], m['off']))
        else:
            b, off = norm(p)
            if b == ('arg', 0): self.written.add(('arg', off))


class Partial(Exception):
    """too many states after a violation was found"""


def flow(client):
    F = Flow(client.fn, client)
    try: F.run()
    except TooBig as e:
        if getattr(client, 'problems', None): raise Partial(client, str(e))
        raise Broken(str(e))
    client.flow = F
    return client


def mutable(pool):
    out = set()
    for n, fn in list(pool.entry.items()) + [('worker', w) for w in pool.workers]:
        if n in ('create', 'destroy'): continue
        c = flow(Collect(pool, fn, n))
        c = flow_again(c)
        out |= c.written
    return out


def flow_again(c):
    """second pass with the objects found by the first (a field may be touched before the first member function is entered)"""
    n = type(c)(c.pool, c.fn, c.name, c.virtual, c.mutable) if not isinstance(c, Collect) else Collect(c.pool, c.fn, c.name)
    n.objs, n.ptrs = c.objs, c.ptrs
    return flow(n)
