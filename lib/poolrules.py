"""the rules of the thread pool, evaluated on every path state of every entry point"""
from locks import *


def ev(e, asg):
    """value of an expression at a point (modulo 2^64), None if it has an unknown leaf"""
    if e in asg: return asg[e]
    k = e[0]
    if k == 'c': return e[1]
    if k in ('add', 'sub', 'mul', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'sdiv', 'srem'):
        a, b = ev(e[1], asg), ev(e[2], asg)
        if a is None or b is None: return None
        if k in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0: return None
            return a // b if 'div' in k else a % b
        return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << (b & 63), 'lshr': (a & (2 ** 64 - 1)) >> (b & 63)}[k]
    if k == 'neg':
        a = ev(e[1], asg)
        return None if a is None else -a
    if k == 'p':
        a = ev(e[1], asg)
        return None if a is None else a + e[2]
    if k == 'ix':
        a = ev(e[1], asg)
        if a is None: return None
        for s, x in e[2]:
            v = ev(x, asg)
            if v is None: return None
            a += s * v
        return a
    if k == 'icmp':
        a, b = ev(e[2], asg), ev(e[3], asg)
        if a is None or b is None: return None
        M = 2 ** 64 - 1
        if e[1] in ('eq', 'ne'): return int(((a ^ b) & M == 0) == (e[1] == 'eq'))
        if e[1][0] == 'u': a, b = a & M, b & M
        return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[e[1][1:]])
    if k == 'sel':
        c = ev(e[1], asg)
        return None if c is None else ev(e[2] if c & 1 else e[3], asg)
    if k == 'trunc':
        a = ev(e[2], asg)
        return None if a is None else a & ((1 << int(e[1][1:])) - 1)
    return None


def possible(st, asg, about):
    """can the path have been taken at this point?  True / False / None (a condition that matters cannot be evaluated)"""
    unk = False
    for f, t in st.facts.items():
        v = ev(f, asg)
        if v is None:
            if any(mentions(f, a) for a in about): unk = True
            continue
        if bool(v & 1) != t: return False
    return None if unk else True


def root(p):
    """base pointer below all indexing"""
    b, off = norm(p)
    while b[0] == 'ix':
        b = b[1]
        b, _ = norm(b)
    return b


class Rules(LockClient):
    roles = {}

    def fieldname(self, c, off):
        m = self.member(c, off)
        return '%s::%s' % (self.pool.cls(c), m['name'] if m else off)

    result = None

    def store(self, f, d, p, v, st):
        if self.name == 'create':
            m = self.misc(st)
            r = root(p)
            if 'unw' not in m and not m.get('freed') and (r == m.get('alloc') or r[0] in ('v', 'ix')) and m.get('alloc') is not None:
                self.writes.setdefault((p, d['size'], v), where(d))
        return super().store(f, d, p, v, st)

    # ---- P01: data under locks
    def need(self, d, o, what, st):
        self.count('accesses', (what, where(d)))
        if o[0] in st.cl[0]: return
        if self.name in ('create', 'destroy'): return
        same = [h for h in st.cl[0] if self.ptrs.get((unold(h[0]), h[1])) == o[1]]
        if same: self.und('P01', 'cannot tell whether the lock held is the right one: %s %s' % (what, where(d)))
        else: self.problem('P01', 'access %s' % where(d), '%s %s without holding the mutex of that %s (%s)' % (self.name, what, self.pool.cls(o[1]), where(d)))

    def behind(self, p):
        """the object whose (non-reference) pointer member leads to this memory"""
        b = root(p)
        if b[0] == 'ld': o = self.obj(b[1])
        elif b in self.symfield:
            o = self.symfield[b]
            if o[1] is None: return None
        else: return None
        if not o or not self.pool.classes[o[1]]['mutex']: return None
        m = self.member(o[1], o[2])
        if m is None or m['ref']: return None
        return o

    def on_access(self, f, d, rw, p, o, st):
        if self.name in ('create', 'destroy') and self.misc(st).get('freed'):
            b = root(p)
            if b[0] == 'ld' or b == ('arg', 0) or b == self.misc(st).get('alloc'):
                self.problem('P03', 'uaf ' + where(d), '%s touches the pool after freeing its memory (%s)' % (self.name, where(d)))
        if o:
            m = self.member(o[1], o[2])
            if m and self.guarded(o[1], o[2]):
                self.need(d, o, '%s %s' % ('reads' if rw == 'r' else 'writes', self.fieldname(o[1], o[2])), st)
            return
        b = self.behind(p)
        if b: self.need(d, b, '%s the task memory of a queue' % ('reads' if rw == 'r' else 'writes'), st)

    # ---- counters
    @staticmethod
    def diff(v, old):
        if old is None: return ('set', v)
        if v == old: return ('c', 0)
        r = tsflow.Flow.arith('sub', v, old)
        if r[0] == 'sub' and r[1] == v and r[2] == old:
            if v[0] == 'sub' and v[1] == old: return ('neg', v[2])
            return ('set', v)
        return r

    def on_lock(self, f, d, o, st):
        self.pend(f, d, st)
        c = self.ptrs.get((unold(o[0]), o[1]))
        m = self.misc(st)
        if 'D' in m: self.put(st, D=frozenset(x for x in m['D'] if x[0][0] != c) or None)
        if c == self.roles.get('queue'): self.put(st, mv=None)

    def on_store(self, f, d, o, old, v, st):
        fld = (o[1], self.member(o[1], o[2])['off'])
        if fld == self.roles.get('enq') and v == ('c', 0): self.enqzero = True
        m = self.misc(st)
        if fld == self.roles.get('enq') and self.name == 'unlock' and 'enq0' not in m and old is not None: self.put(st, enq0=old)
        if self.name in ('create', 'destroy') and self.threads(st): self.quiet(f, st, o[0][0] if fld != self.roles.get('busy') else None, '%s is changed' % self.fieldname(*fld), where(d))
        if self.name in ('create', 'destroy') and fld == self.roles.get('front') and not (old is None and v[0] == 'c'):
            self.frontstores = True
            self.frontblocks.add(d['id'])
            x = self.diff(v, old)
            if x[0] == 'c':
                self.put(st, fd=m.get('fd', 0) + x[1])
                m = self.misc(st)
                if m.get('fd') == m.get('kd', 0): self.put(st, kd=None, fd=None)
        if m.get('mdead') and fld == self.roles.get('busy'): self.problem('P03', 'mdead', '%s uses the counter of unfinished tasks after it has been destroyed (%s)' % (self.name, where(d)))
        D = dict(m.get('D', ()))
        e = self.diff(v, old)
        if fld in D and e[0] != 'set': e = tsflow.Flow.arith('add', D[fld], e) if D[fld][0] not in ('set', 'neg') and e[0] != 'neg' else ('set', v)
        if e[0] == 'add' and e[1][0] == 'c' and e[2][0] == 'c': e = ('c', e[1][1] + e[2][1])
        D[fld] = e
        if self.name not in ('create', 'destroy'): self.put(st, D=frozenset(D.items()))
        if fld == self.roles.get('busy'):
            one = self.diff(v, old)
            dec = one[0] == 'neg' or (one[0] == 'c' and one[1] < 0) or (one[0] == 'set' and v != ('c', 0))
            self.count('counter updates', where(d))
            if (one[0] != 'c' or one[1] <= 0) and not (self.name == 'create' and one[0] == 'set'):
                if self.name not in ('create', 'destroy') and (one[0] in ('neg', 'set') or (one[0] == 'c' and one[1] < 0)): self.put(st, pend=(o[0], v, where(d)))
            if self.name == 'worker' and dec: self.finished(d, one, st)

    # ---- P04: notifications
    def pend(self, f, d, st):
        m = self.misc(st)
        if 'pend' not in m: return
        o, v, w = m['pend']
        t = f.truth(f.icmp('eq', v, ('c', 0)), st)
        self.count('zero crossings', w)
        if t is not False:
            if m.get('ntf') == 'one': self.problem('P04', 'notify ' + w, '%s: when the number of unfinished tasks reaches zero only one of the waiting threads is woken (%s)' % (self.name, w))
            else: self.problem('P04', 'notify ' + w, '%s: the number of unfinished tasks can reach zero without the waiting threads being notified (%s)' % (self.name, w))
        self.put(st, pend=None, ntf=None)

    def on_notify(self, f, d, o, every, st):
        m = self.misc(st)
        if 'pend' in m and m['pend'][0] == o[0]:
            if every: self.put(st, pend=None, ntf=None)
            else: self.put(st, ntf='one')
        if o[1] == self.roles.get('queue'): self.put(st, qn=1)

    def on_atomic_load(self, f, d, o, st):
        m = self.misc(st)
        if o[0] in st.cl[0]: self.put(st, at=m.get('at', frozenset()) | {(o[1], o[2])})

    def on_wait(self, f, d, cv, o, timed, st):
        self.count('waits', where(d) + (' (timed)' if timed else ''))
        m = self.misc(st)
        if not timed:
            self.untimed = getattr(self, 'untimed', set())
            self.untimed.add((cv[1] if cv else None, where(d)))
            for a in m.get('at', ()): self.waitatoms.add((a, where(d)))
        if 'at' in m: self.put(st, at=None)

    waitatoms = None

    def on_unlock(self, f, d, o, st):
        c = self.ptrs.get((unold(o[0]), o[1]))
        R = self.roles
        m = self.misc(st)
        if self.name == 'wait' and c is not None and R.get('busy') and c == R['busy'][0]:
            v = st.mem.get((o[0], o[1] + R['busy'][1], 8))
            ok = v is not None and f.truth(f.icmp('eq', v, ('c', 0)), st) is True
            self.put(st, waited=1 if ok else 0)
        if c == R.get('queue') and self.name == 'worker':
            D = dict(m.get('D', ()))
            n = m.get('mv', 0)
            e = D.get(R['front'], ('c', 0))
            self.count('pop sessions', where(d))
            if e[0] == 'c' and e[1] != n:
                self.problem('P02', 'front ' + where(d), 'the worker takes %d task(s) from a queue but advances its front by %d before releasing it (%s)' % (n, e[1], where(d)))
            elif e[0] != 'c': self.und('P02', 'change of the front of a queue not constant ' + where(d))
            for p, ph in m.get('tasks', ()):
                b = self.behind(p)
                if b and b[0] == o: self.problem('P02', 'slot ' + where(d), 'the worker releases a queue before the task it moved out of it is destroyed (%s)' % where(d))
            if D.get(R['back'], ('c', 0)) != ('c', 0): self.problem('P02', 'back ' + where(d), 'the worker changes the back of a queue (%s)' % where(d))
        if c == R.get('queue') and self.name == 'unlock' and R.get('enq'):
            k = (o[0], o[1] + R['enq'][1], 8)
            e = st.mem.get(k)
            b = dict(m.get('D', ())).get(R['busy'], ('c', 0))
            self.count('hand-overs', where(d))
            if e is None: self.und('P02', 'number of enqueued tasks unknown at ' + where(d))
            else:
                zero = f.truth(f.icmp('eq', e, ('c', 0)), st)
                old = m.get('enq0') or e
                if m.get('enq0'): zero = f.truth(f.icmp('eq', old, ('c', 0)), st)
                if zero is True and b == ('c', 0): pass
                elif b == old or b == e: pass
                elif b[0] in ('set',): self.und('P02', 'change of the monitor unknown at ' + where(d))
                else:
                    self.problem('P02', 'count ' + where(d), 'a queue holding newly enqueued tasks is released while the count of unfinished tasks has been raised by %s instead of the number of enqueued tasks (%s)' % (b[1] if b[0] == 'c' else 'something else', where(d)))
        if 'at' in m: self.put(st, at=None)

    # ---- P02: life of a task
    def task(self, st, p, ph):
        t = dict(self.misc(st).get('tasks', ()))
        if ph is None: t.pop(p, None)
        else: t[p] = ph
        self.put(st, tasks=frozenset(t.items()) or None)

    def on_action(self, f, d, typ, task, data, st):
        w = where(d)
        self.count('task actions', (typ, w))
        if self.name != 'worker': return self.teardown(f, d, typ, task, data, st)
        t = dict(self.misc(st).get('tasks', ()))
        if task is None: self.und('P02', 'action on an unknown task ' + w); return [st]
        b = self.behind(task)
        if b: self.need(d, b, '%s a task in its slot' % {'move': 'overwrites', 'invoke': 'invokes', 'destroy': 'destroys'}.get(typ, typ), st)
        ph = t.get(task)
        if typ == 'move':
            if data is None: self.und('P02', 'source of a task move unknown ' + w); return [st]
            src = self.behind(data)
            if ph is not None: self.problem('P02', 'overwrite ' + w, 'the worker moves a task over one that has not been destroyed (%s)' % w)
            if src:
                self.need(d, src, 'moves a task out of its slot', st)
                if any(x != 'moved' for x in t.values()) or self.misc(st).get('due'):
                    self.problem('P02', 'lost ' + w, 'the worker takes another task before the last one has been run, destroyed and counted (%s)' % w)
                self.task(st, task, 'full')
                self.task(st, data, 'moved')
                self.put(st, mv=self.misc(st).get('mv', 0) + 1)
                self.slots = getattr(self, 'slots', [])
                self.slots.append((f, data, src, st.copy(), w))
            elif data in t:
                self.task(st, task, t[data])
                self.task(st, data, 'moved')
            else: self.und('P02', 'source of a task move unknown ' + w)
        elif typ == 'invoke':
            if st.cl[0]: self.problem('P01', 'invoke ' + w, 'the worker runs a task while holding a mutex (%s)' % w)
            if data is not None: self.index.add(data)
            if ph == 'full': self.task(st, task, 'run')
            elif ph == 'run': self.problem('P02', 'twice ' + w, 'the worker runs a task twice (%s)' % w)
            elif ph == 'moved': self.problem('P02', 'movedrun ' + w, 'the worker runs a task it has moved from (%s)' % w)
            else: self.problem('P02', 'ghost ' + w, 'the worker runs a task that it has not taken from a queue or has destroyed (%s)' % w)
        elif typ == 'destroy':
            if ph == 'run':
                self.task(st, task, None)
                self.put(st, due=1)
            elif ph == 'moved': self.task(st, task, None)
            elif ph == 'full':
                self.problem('P02', 'unrun ' + w, 'the worker destroys a task without having run it (%s)' % w)
                self.task(st, task, None)
            else: self.problem('P02', 'redestroy ' + w, 'the worker destroys a task twice, or one it has not taken from a queue (%s)' % w)
        return [st]

    # ---- P03: construction, destruction and unwinding
    def gen(self, e):
        return unold(e)

    def event(self, f, kind, base, st, w):
        """something happened to the object at `base` (an element of an array of objects)"""
        self.count('life cycle events', (kind, w))
        base = norm(base)[0] if base[0] == 'p' and norm(base)[0][0] == 'ix' else base
        self.events.append((kind, self.gen(base), dict(st.facts), w, f, st))
        E = self.misc(st).get('ev', frozenset())
        self.put(st, ev=E | {(kind, base)})
        return base

    def feasible(self, st, iv=None):
        """can the path be taken with at least one worker?"""
        at = set()
        for x in st.facts: atoms(x, at)
        ivs = sorted([a for a in at if a[0] == 'iv'], key=str)
        cnt = self.cnt(st)
        if cnt is None: return None
        r = False
        for n in (1, 2):
            asg0 = {a: n for a in atoms(cnt, set())}
            for k in range(4 ** min(len(ivs), 4)):
                asg = dict(asg0)
                for j, a in enumerate(ivs[:4]): asg[a] = k // 4 ** j % 4
                p = possible(st, asg, ())
                if p is not False: return True
        return r

    def keepiv(self, f, h):
        if self.name not in ('create', 'destroy'): return False
        return any((i.get('callee') or '').startswith(('_ZNSt6thread4joinEv', '_ZNSt6thread15_M_start_thread')) or i['op'] == 'store' and i.get('atomic') for b in f.loopblocks(h) for i in f.blocks[b]['ins'])

    def cnt(self, st):
        if self.name == 'destroy': return self.roles.get('count')
        c = self.roles.get('count')
        if c is None or c[0] != 'ld': return None
        off = norm(c[1])[1]
        vs = [v for k, v in st.mem.items() if len(k) == 3 and k[1] == off and k[0] == self.misc(st).get('alloc')]
        return vs[0] if vs else None

    def threads(self, st):
        m = self.misc(st)
        return self.name == 'destroy' or (self.name == 'create' and m.get('started'))

    def quiet(self, f, st, expr, what, w):
        """an action that is safe only after all workers have been joined"""
        if not self.threads(st): return
        E = self.misc(st).get('ev', ())
        j = [b for k, b in E if k == 'join']
        ivs = {a for a in atoms(expr, set()) if a[0] == 'iv'} if expr is not None else set()
        if not j:
            if self.live(f, st): self.problem('P03', 'join %s %s' % (what, w), '%s: %s while worker threads are still running (%s)' % (self.name, what, w))
        elif any({a for a in atoms(b, set()) if a[0] == 'iv'} & ivs - self.outer(f) for b in j):
            self.problem('P03', 'join %s %s' % (what, w), '%s: %s while the other worker threads are still running (%s)' % (self.name, what, w))

    def outer(self, f):
        return {('iv', h) for k, b, fa, w, ff, s in self.events if k == 'start' for h in [self.starthdr]}

    starthdr = None

    def live(self, f, st):
        """is this path possible with a running worker?"""
        if self.name == 'destroy': return self.feasible(st) is True
        # unwinding: workers have been started if the construction loop has completed an iteration
        at = set()
        for x in st.facts: atoms(x, at)
        h = ('iv', self.starthdr)
        ivs = sorted([a for a in at if a[0] == 'iv' and a != h], key=str)
        for n in (1, 2):
            for k in range(4 ** min(len(ivs), 4)):
                asg = {a: k // 4 ** j % 4 for j, a in enumerate(ivs[:4])}
                asg[h] = n
                if possible(st, asg, ()) is not False: return True
        return False

    def on_atomic_store(self, f, d, p, v, st):
        if self.name not in ('create', 'destroy'): return
        o = self.obj(p)
        b, off = norm(p)
        if v[0] == 'c' and v[1] & 1:
            if o: self.event(f, 'qflag', b, st, where(d))
            elif b[0] == 'ix':
                self.flagoffs.add(off)
                self.event(f, 'wflag', b, st, where(d))

    def teardown(self, f, d, typ, task, data, st):
        w = where(d)
        if typ != 'destroy' or task is None: return [st]
        o = self.behind(task)
        if not o: self.und('P03', 'destruction of a task outside of a queue ' + w); return [st]
        self.quiet(f, st, o[0][0], 'a queued task is destroyed', w)
        m = self.misc(st)
        self.put(st, kd=m.get('kd', 0) + 1)
        self.slots.append((f, task, o, st.copy(), w))
        m = self.misc(st)
        if m.get('fd', 0) == m.get('kd'): self.put(st, kd=None, fd=None)
        elif abs(m.get('fd', 0) - m.get('kd', 0)) > 1:
            if self.frontstores: self.problem('P03', 'drain ' + w, '%s destroys queued tasks without moving to the next one, or skips some (%s)' % (self.name, w))
            else: self.und('P03', 'queued tasks destroyed in an unrecognised way ' + w)
            self.put(st, kd=None, fd=None)
        return [st]

    frontstores = False
    frontblocks = frozenset()

    def on_call(self, f, d, cal, st):
        if self.name not in ('create', 'destroy'): return [st]
        w = where(d)
        if cal.startswith('_ZNSt6thread4joinEv'):
            p = f.val(d['ops'][0], st)
            b = norm(p)[0]
            E = self.misc(st).get('ev', frozenset())
            if st.cl[0]: self.problem('P01', 'join ' + w, '%s joins a thread while holding a mutex (%s)' % (self.name, w))
            flags = [x for k, x in E if k == 'wflag']
            if b[0] == 'ix' and self.same(b) not in [self.same(x) for x in flags]:
                full = [x for k, x, fa, ww, ff, s in self.events if k == 'wflag' and self.same(x) in [self.same(y) for y in flags] and self.covers(x, fa, s) is not False]
                if not full and self.feasible(st): self.problem('P03', 'flag ' + w, '%s joins a worker that has not been told to stop: it waits for ever (%s)' % (self.name, w))
            self.joinaddr.add(unold(p))
            self.event(f, 'join', b, st, w)
        elif cal.startswith('_ZNSt6thread15_M_start_thread'):
            self.put(st, started=1)
            hs = sorted({h for x in st.facts for h in [a[1] for a in atoms(x, set()) if a[0] == 'iv']}, key=str)
            self.event(f, 'start', ('start', w), st, w)
            self.startstates.append((f, d, st.copy(), w))
        elif cal.startswith('_ZNSt18condition_variableD'):
            o = self.obj(f.val(d['ops'][0], st))
            if o and o[1] == self.roles.get('queue'):
                self.quiet(f, st, o[0][0], 'a queue is destroyed', w)
                m = self.misc(st)
                fr, b = (st.mem.get((o[0][0], o[0][1] + self.roles[k][1], 8)) for k in ('front', 'back'))
                if m.get('fd') or m.get('kd'):
                    if self.frontstores: self.problem('P03', 'drain ' + w, '%s destroys queued tasks without moving to the next one, or skips some (%s)' % (self.name, w))
                if fr is None or b is None:
                    if not any(k == 'qtask' for k, _ in m.get('ev', ())) and fr is None and b is None and not self.frontstores:
                        self.problem('P03', 'drain ' + w, '%s destroys a queue without looking for tasks that are still in it (%s)' % (self.name, w))
                elif f.truth(f.icmp('eq', fr, b), st) is not True and self.drained(f, d) is None: self.und('P03', 'that a queue is empty when it is destroyed ' + w)
                elif f.truth(f.icmp('eq', fr, b), st) is not True:
                    self.problem('P03', 'drain ' + w, '%s destroys a queue in which there can still be tasks: they are never destroyed (%s)' % (self.name, w))
                self.put(st, kd=None, fd=None)
                self.event(f, 'qdead', o[0][0], st, w)
            elif o and self.roles.get('busy') and o[1] == self.roles['busy'][0]:
                self.quiet(f, st, None, 'the counter of unfinished tasks is destroyed', w)
                self.put(st, mdead=1)
        elif cal in self.ALLOC and d['type'] == 'ptr' and self.name == 'create' and 'new' not in cal and not cal.startswith('_Zn'):
            self.put(st, alloc=('v', d['id']))
            self.allocargs.append((cal, [f.val(x, st) for x in d['ops']], ('v', d['id'])))
        elif cal in ('free', 'aligned_free', '_aligned_free') or cal.startswith('_ZdlPv') or cal.startswith('_ZdaPv'):
            p = f.val(d['ops'][0], st)
            m = self.misc(st)
            main = p in (('ld', ('arg', 0)), ('arg', 0)) or p == m.get('alloc') or (p[0] == 'ld' and root(p[1]) == ('arg', 0))
            if self.name == 'create' and main and 'unw' not in m:
                main_ok = False
                if f.truth(f.icmp('eq', p, ('c', 0)), st) is not True: self.problem('P03', 'freed ' + w, 'create frees the memory of the pool it returns (%s)' % w)
            if main:
                if m.get('freed'): self.problem('P03', 'free2 ' + w, '%s frees the memory of the pool twice (%s)' % (self.name, w))
                self.quiet(f, st, None, 'the memory of the pool is freed', w)
                self.put(st, freed=1)
                self.event(f, 'free', ('free',), st, w)
        elif cal.startswith('_ZSt19uncaught_exceptions'):
            st.env[d['id']] = ('c', self.misc(st).get('unw', 0))
        elif cal == '__cxa_begin_catch': pass
        return [st]

    def unwound(self, f, d, st):
        if self.name == 'create': self.put(st, unw=1)
        return st

    def assumed(self, f, c, t, st):
        """a thread that is found not joinable needs no join"""
        p = self.misc(st).get('pend')
        if p and f.truth(f.icmp('eq', p[1], ('c', 0)), st) is False:
            self.count('zero crossings', p[2])
            self.put(st, pend=None, ntf=None)
        if self.name == 'worker':
            for x, tv in st.facts.items():
                if x[0] == 'icmp' and x[1] in ('eq', 'ne') and x[3] == ('c', 0) and x[2][0] == 'v' and x[2][1] in self.flagloads and mentions(c, x[2]):
                    self.put(st, fl=1 if (x[1] == 'ne') == tv else 0)
            return
        if self.name not in ('create', 'destroy') or c[0] != 'icmp' or c[1] not in ('eq', 'ne') or c[3] != ('c', 0) or c[2][0] != 'v': return
        if (c[1] == 'eq') != t: return
        a = self.loadaddr.get(c[2][1])
        if a is not None and a in self.joinaddr: self.put(st, ev=self.misc(st).get('ev', frozenset()) | {('join', norm(a)[0])})

    def loaded(self, f, d, p, st):
        super().loaded(f, d, p, st)
        self.loadaddr[d['id']] = unold(p)
        if self.name == 'worker' and d.get('atomic') and not self.obj(p) and root(p)[0] == 'ld':
            self.flagloads.add(d['id'])
            self.flagoffs.add(norm(p)[1])

    def same(self, b):
        return b

    def covers(self, base, facts, st):
        """does the loop around this event visit elements 0 .. count - 1?  True / False / None"""
        ivs = sorted({a for a in atoms(base, set()) if a[0] == 'iv'}, key=str)
        if base[0] != 'ix' or not ivs: return None
        cnt = self.cnt(st)
        inner = [a for a in ivs if a != ('iv', self.starthdr)]
        if len(inner) > 1: return None
        unw = self.name == 'create' and ('iv', self.starthdr) in ivs and inner
        iv = inner[0] if inner else ivs[0]
        res = True
        for n in range(0, 5):
            if unw: asg0, want = {('iv', self.starthdr): n}, n
            else:
                if cnt is None: return None
                asg0 = {a: n for a in atoms(cnt, set())}
                want = ev(cnt, asg0)
                if want is None: return None
            got = []
            for k in range(0, 12):
                asg = dict(asg0)
                asg[iv] = k
                live = True
                for x, t in facts.items():
                    if not mentions(x, iv) and not (unw and mentions(x, ('iv', self.starthdr))): continue
                    if x == ('icmp', 'eq', iv, ('c', 0)) or x == ('icmp', 'ne', iv, ('c', 0)): continue
                    v = ev(x, asg)
                    if v is None: continue
                    if bool(v & 1) != t: live = False
                if not live: break
                a = 0
                for s, x in base[2]:
                    v = ev(x, asg)
                    if v is None: return None
                    a += s * v
                got.append(a)
            if len(got) > 10: return None
            g = sorted(got)
            e = g[1] - g[0] if len(g) > 1 else 0
            if len(g) != want or (g and (g[0] != 0 or any(y - x != e for x, y in zip(g, g[1:])))): return False
        return res

    def drained(self, f, d):
        """unknown (None) if the front is moved on in a counting loop before the queue is destroyed, otherwise False"""
        if not hasattr(f, 'nat'):
            f.nat = loops(f)[0]
            f.blockof = {i['id']: b for b, x in f.blocks.items() for i in x['ins']}
        here = f.blockof[d['id']]
        for x in self.frontblocks:
            for h, l in f.nat.items():
                if f.blockof.get(x) in l and here not in l: return None
        return False

    def resume(self, f, d, st):
        m = self.misc(st)
        if self.name != 'create': return
        self.count('unwinding paths', where(d))
        if m.get('alloc') and not m.get('freed') and f.truth(f.icmp('eq', m['alloc'], ('c', 0)), st) is not True:
            self.problem('P03', 'leak', 'create: when construction fails the memory of the pool is not freed')
        if st.cl[0]: self.problem('P01', 'leak resume', 'create: when construction fails a mutex stays locked')

    def finished(self, d, e, st):
        m = self.misc(st)
        w = where(d)
        if e != ('c', -1):
            if e[0] == 'c': self.problem('P02', 'dec ' + w, 'the worker lowers the count of unfinished tasks by %d for one task (%s)' % (-e[1], w))
            else: self.und('P02', 'change of the count of unfinished tasks unknown ' + w)
        if m.get('due'): self.put(st, due=None)
        elif any(ph in ('run', 'full') for _, ph in m.get('tasks', ())):
            self.problem('P02', 'early ' + w, 'the worker counts a task as finished before it has been %s (%s)' % ('destroyed' if any(ph == 'run' for _, ph in m['tasks']) else 'run', w))
        else: self.problem('P02', 'overcount ' + w, 'the worker counts a task as finished that it has not run, or counts it twice (%s)' % w)

    # ---- function exits
    def ret(self, f, d, v, st):
        self.pend(f, d, st)
        m = self.misc(st)
        R = self.roles
        held = st.cl[0]
        qs = [h for h in held if self.ptrs.get((unold(h[0]), h[1])) == R.get('queue')]
        self.count('exits', where(d))
        if self.name in ('workers', 'capacity') and v is not None and v[0] != 'c': self.result = v
        if self.name in ('lock', 'lock_multiple'):
            fail = self.name == 'lock_multiple' and v == ('c', -1)
            if fail:
                if held: self.problem('P01', 'leak ' + self.name, '%s reports failure with a mutex still locked' % self.name)
                return
            if v is not None and self.name == 'lock_multiple' and v[0] == 'sel': self.und('P01', 'result of lock_multiple not resolved'); return
            if len(held) == 0: self.problem('P01', 'nolock ' + self.name, '%s returns the index of a queue it has not locked' % self.name); return
            if len(held) > 1 or not qs: self.problem('P01', 'leak ' + self.name, '%s returns with another mutex locked' % self.name); return
            self.locked.append((f, v, qs[0], st.copy()))
        elif self.name == 'acquire':
            if 'queue' not in R: qs = list(held)
            elif not qs or len(held) != 1: self.problem('P01', 'acq', 'acquire does not leave exactly the mutex of its queue locked')
            self.acquired.append((f, v, qs[0] if qs else None, st.copy()))
        else:
            if held: self.problem('P01', 'leak ' + self.name, '%s returns with a mutex locked (%s)' % (self.name, where(d)))
            if self.name == 'wait' and m.get('waited') != 1:
                self.problem('P04', 'wait', 'wait() can return without having seen, under the mutex, that no task is unfinished')
            if self.name == 'worker' and (any(ph != 'moved' for _, ph in m.get('tasks', ())) or m.get('due')):
                self.problem('P02', 'exit', 'the worker ends with a task that has been taken from a queue but not run, destroyed and counted')
            if self.name == 'worker':
                if m.get('fl') == 0: self.problem('P03', 'stop', 'a worker can stop without having been told to')
                elif m.get('fl') is None: self.und('P03', 'reason why the worker stops')
            if self.name == 'destroy':
                if not m.get('freed'): self.problem('P03', 'leak', 'destroy does not free the memory of the pool')
                self.deaths.append((f, st.copy()))
            if self.name == 'create': self.births.append((f, v, st.copy()))
            if self.name == 'unlock': self.unlocked.append((f, st.copy()))


OPS = ('add', 'sub', 'mul', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'sdiv', 'srem', 'neg', 'icmp', 'sel', 'p', 'ix', 'trunc')


def atoms(e, out):
    if not isinstance(e, tuple) or not e: return out
    if isinstance(e[0], tuple):
        for x in e: atoms(x, out)
    elif e[0] == 'c': pass
    elif e[0] in OPS:
        for x in e[1:]: atoms(x, out)
    elif e[0] in ('ld', 'v', 'old', 'arg', 'iv', 'oldiv', 'preiv', 'ev', 'g', 'fld', 'ctr', 'al', 'k', 'u', 'fn'): out.add(e)
    else:
        for x in e:
            if isinstance(x, tuple): atoms(x, out)
    return out


def canon(e, o, size, ctr):
    """expression with the fields of object o as ('fld', offset) and the counter as ('ctr',)"""
    if not isinstance(e, tuple): return e
    if e == ctr: return ('ctr',)
    if e and e[0] == 'ld':
        b, off = norm(e[1])
        if b == o[0] and o[1] <= off < o[1] + size: return ('fld', off - o[1])
    return tuple(canon(x, o, size, ctr) for x in e)


def counters(c, e):
    """guarded fields whose loaded value occurs in e: {(class, off): symbol}"""
    out = {}
    for a in atoms(e, set()):
        s = c.symfield.get(unold(a))
        if s and s[1] is not None and c.guarded(s[1], s[2]): out[(s[1], s[2])] = a
    return out


def start_header(c):
    """header of the loop that starts the workers"""
    for f, d, st, w in c.startstates:
        blk = next(b for b in f.fn['blocks'] if any(i['id'] == d['id'] for i in b['ins']))
        best = None
        for h in f.ivheaders:      # innermost counted loop around the start
            l = f.loopblocks(h)
            if blk['id'] in l and (best is None or len(l) < best[0]): best = (len(l), h)
        return best[1] if best else None
    return None


def analyse(pool=None):
    """-> list of clients (one per entry point) after all rules were evaluated"""
    P = pool or Pool()
    mut = mutable(P)
    R = {}

    def go(name, fn, virtual=None):
        last = None
        for _ in range(2):
            c = Rules(P, fn, name, virtual, mut)
            c.roles, c.locked, c.acquired, c.unlocked, c.waitatoms, c.slots = dict(R), [], [], [], set(), []
            c.frontblocks, c.writes, c.allocargs = set(), {}, []
            c.loadaddr, c.joinaddr, c.flagloads, c.flagoffs, c.index = {}, set(), set(), set(), set()
            c.events, c.startstates, c.deaths, c.births = [], [], [], []
            if last is not None:
                c.flagloads = last.flagloads
                c.frontblocks = last.frontblocks
                c.objs, c.ptrs, c.starthdr, c.frontstores, c.joinaddr = last.objs, last.ptrs, last.starthdr, last.frontstores, last.joinaddr
                if c.starthdr is None: c.starthdr = start_header(last)
            last = flow(c)
        return last
    out = {}
    w = go('wait', P.entry['wait'])
    fields = {(s[1], s[2]) for s in w.symfield.values() if s[1] is not None and w.guarded(s[1], s[2])}
    if len(fields) != 1: raise Broken('the counter that wait() waits for was not recognised (%s)' % fields)
    R['busy'] = fields.pop()
    a = go('acquire', P.entry['acquire'], ('arg', 1))
    if not a.acquired: raise Broken('acquire never returns')
    qc = {a.ptrs[(unold(h[0]), h[1])] for _, _, h, st in a.acquired if h}
    if len(qc) != 1: raise Broken('the queue class was not recognised')
    R['queue'] = qc.pop()
    f, v, q, st = a.acquired[0]
    cs = {k: s for k, s in counters(a, v).items() if k[0] == R['queue']}
    if len(cs) != 1: raise Broken('the counter that selects the slot of a new task was not recognised')
    R['back'], R['backsym'] = list(cs.items())[0]
    a = go('acquire', P.entry['acquire'], ('arg', 1))
    D = dict(dict(st.cl[1]).get('D', ()))
    others = [k for k, e in D.items() if k != R['back'] and k[0] == R['queue'] and e[0] == 'c']
    R['enq'] = others[0] if len(others) == 1 else None
    qsize = P.classes[R['queue']]['size']
    n = go('workers', P.entry['workers'])
    R['count'] = n.result
    # the worker: first pass finds the front counter
    R['front'] = None
    ws = []
    for fn in P.workers:
        c = go('worker', fn)
        for f, data, src, st, wh in c.slots:
            cs = {k for k in counters(c, data) if k[0] == R['queue']}
            if len(cs) != 1: raise Broken('the counter that selects the slot of the next task was not recognised')
            if R['front'] not in (None, next(iter(cs))): raise Broken('two front counters')
            R['front'] = next(iter(cs))
    if R['front'] is None: raise Broken('no worker takes tasks from a queue')
    out['wait'] = go('wait', P.entry['wait'])
    out['acquire'] = go('acquire', P.entry['acquire'], ('arg', 1))
    for i, fn in enumerate(P.workers): out['thread%d' % i] = go('worker', fn)
    out['unlock'] = go('unlock', P.entry['unlock'], ('arg', 1))
    for n in ('lock', 'lock_multiple', 'workers', 'capacity', 'create', 'destroy'): out[n] = go(n, P.entry[n])
    post(P, R, out, qsize)
    return P, R, out


def post(P, R, out, qsize):
    a = out['acquire']
    name = lambda k: a.fieldname(*k) if k else '-'
    # ---- acquire: one slot per call, at the back
    slotfn = set()
    for f, v, q, st in a.acquired:
        D = dict(dict(st.cl[1]).get('D', ()))
        a.count('acquired', str(v)[:200])
        if D.get(R['back']) != ('c', 1):
            a.problem('P02', 'acquire back', 'acquire() changes %s by %s instead of 1: two tasks share a slot or a slot is skipped' % (name(R['back']), D.get(R['back'], ('c', 0))[1]))
        busy = D.get(R['busy'], ('c', 0))
        if R['enq'] and D.get(R['enq']) != ('c', 1) and busy != ('c', 1):
            a.problem('P02', 'acquire count', 'acquire() changes %s by %s instead of 1: the task is not counted as unfinished' % (name(R['enq']), D.get(R['enq'], ('c', 0))[1]))
        if not R['enq'] and busy != ('c', 1):
            a.problem('P02', 'acquire count', 'acquire() does not count the task as unfinished')
        cs = {k: s for k, s in counters(a, v).items() if k[0] == R['queue']}
        if R['back'] not in cs: a.und('P02', 'slot address of acquire'); continue
        slotfn.add(canon(v, q, qsize, cs[R['back']]))
    # ---- worker: the same slot for the same count, only when the queue is not empty
    cap = {x for s in slotfn for x in divisors(s)}
    for n, c in out.items():
        if not n.startswith('thread'): continue
        if not c.slots: c.problem('P02', 'nopop', 'the worker never takes a task from a queue')
        fine = {}
        for f, data, src, st, wh in c.slots:
            cs = {k: s for k, s in counters(c, data).items() if k[0] == R['queue']}
            c.count('pops', wh)
            g = canon(data, src[0], qsize, cs[R['front']])
            for s in slotfn:
                for pt in ((4096, 1, 0), (4096, 1, 7), (4096, 4, 0), (4096, 4, 3), (4096, 4, 9), (8192, 5, 14)):
                    asg = {x: pt[1] for x in cap}
                    asg.update({('ctr',): pt[2]})
                    for x in atoms(s, set()) | atoms(g, set()):
                        if x not in asg: asg[x] = pt[0] if x[0] == 'fld' else None
                    asg = {k: x for k, x in asg.items() if x is not None}
                    x, y = ev(s, asg), ev(g, asg)
                    if x is None or y is None: c.und('P02', 'slot address of the worker ' + wh); break
                    if x != y:
                        c.problem('P02', 'slot ' + wh, 'with a capacity of %d, task number %d is stored at offset %d of the queue but taken from offset %d (%s)' % (pt[1], pt[2], x - pt[0], y - pt[0], wh))
                        break
            # not empty
            o = src[0]
            b = st.mem.get((o[0], o[1] + R['back'][1], 8))
            fr = cs[R['front']]
            if b is None:
                loaded = [k for k in st.mem if len(k) == 3 and k[0] == o[0] and k[1] - o[1] != R['front'][1]]
                if loaded: c.und('P02', 'emptiness test not recognised ' + wh)
                else: c.problem('P02', 'empty ' + wh, 'the worker takes a task without checking that the queue has one (%s)' % wh)
                continue
            for F in (0, 5):
                if possible(st, {b: F, fr: F}, (b, fr)) is True:
                    c.problem('P02', 'empty ' + wh, 'the worker takes a task from an empty queue (%s)' % wh)
                fine.setdefault(wh, []).append(possible(st, {b: F + 1, fr: F}, (b, fr)))
        for wh, l in fine.items():
            if l and all(x is False for x in l): c.problem('P02', 'last ' + wh, 'the worker never takes the last task of a queue (%s)' % wh)
    # ---- lock / lock_multiple
    qtok = [q for _, _, q, _ in a.acquired if q]
    for n in ('lock', 'lock_multiple'):
        c = out[n]
        if not c.locked: c.problem('P02', 'never ' + n, '%s never returns a queue' % n)
        room = []
        for f, v, q, st in c.locked:
            c.count('locked', str(q)[:200])
            # the index returned is the one of the locked queue
            want = subst(('p',) + qtok[0], ('arg', 1), v) if qtok else None
            have = ('p',) + q
            if want is not None and want != have:
                at = sorted(atoms(want, set()) | atoms(have, set()), key=str)
                phis = [x for x in at if x[0] in ('v', 'old') and f.ins.get(x[1], {}).get('op') == 'phi']
                if not all_eq(want, have, at):
                    if phis or v == ('u',): c.und('P01', 'index returned by %s' % n)
                    else: c.problem('P01', 'index ' + n, '%s returns the index of another queue than the one it has locked (%s)' % (n, show(v)))
            # the count of new tasks starts at zero
            if R['enq']:
                e = st.mem.get((q[0], q[1] + R['enq'][1], 8))
                if e is None or f.truth(f.icmp('eq', e, ('c', 0)), st) is not True:
                    if e is None and not reset_at_release(out, R): c.problem('P02', 'enq ' + n, '%s hands out a queue whose count of newly enqueued tasks (%s) has not been reset' % (n, name(R['enq'])))
                    elif e is not None: c.problem('P02', 'enq ' + n, '%s hands out a queue whose count of newly enqueued tasks (%s) has not been reset' % (n, name(R['enq'])))
            # room
            b, fr = (st.mem.get((q[0], q[1] + R[k][1], 8)) for k in ('back', 'front'))
            if b is None or fr is None:
                if any(len(k) == 3 and k[0] == q[0] and (R['enq'] is None or k[1] - q[1] != R['enq'][1]) for k in st.mem): c.und('P02', 'room test of %s' % n)
                else: c.problem('P02', 'room ' + n, '%s hands out a queue without checking that it has room' % n)
                continue
            qfld = lambda x: ('ld', ('p', q[0], q[1] + x[1]))
            caps = [qfld(x) for x in cap if x[0] == 'fld']
            for F in (0, 5):
                for k in (1, 4):
                    for size in range(k + 1):
                        for req in ((1,) if n == 'lock' else range(1, k + 1)):
                            asg = {b: F + size, fr: F, ('arg', 1): req}
                            asg.update({x: k for x in caps})
                            p = possible(st, asg, (b, fr))
                            fits = size + req <= k
                            if p is True and not fits:
                                c.problem('P02', 'room ' + n, '%s can hand out a queue with %d of %d slots taken%s' % (n, size, k, '' if n == 'lock' else ' when %d are needed' % req))
                            if fits: room.append((k, size, req, p))
                            elif p is None: c.und('P02', 'room test of %s' % n)
        for k, size, req in {r[:3] for r in room}:
            if all(r[3] is False for r in room if r[:3] == (k, size, req)):
                c.problem('P02', 'refuse ' + n, '%s never hands out a queue with %d of %d slots taken, although there is room%s: callers wait for ever' % (n, size, k, '' if n == 'lock' else ' for %d' % req))
    layout(P, R, out, slotfn, qsize)
    lifecycle(P, R, out)
    # ---- lock order
    edges = {(x, y): w for c in out.values() for x, y, w in c.order}
    cn = lambda x: P.cls(x) if x is not None else 'another mutex'
    for (x, y), w in sorted(edges.items(), key=str):
        seen, work = set(), [y]
        while work:
            z = work.pop()
            if z in seen: continue
            seen.add(z)
            work += [t for (s, t) in edges if s == z]
        if x in seen:
            out['thread0'].problem('P01', 'order %s' % cn(x), 'the mutexes of %s and %s are locked in both orders, or twice (%s): two threads can wait for each other for ever' % (cn(x), cn(y), w))
    out['edges'] = edges
    # ---- waits without timeout whose condition can change without the mutex
    bad = {(c, off): w for n, cl in out.items() if n not in ('edges', 'create') for c, off, held, w in cl.atomstores if not held}
    for n, cl in out.items():
        if n == 'edges': continue
        for fld, w in cl.waitatoms:
            if fld in bad: cl.problem('P04', 'lost ' + w, 'an untimed wait (%s) depends on %s, which is changed without the mutex (%s): the wake-up can be lost' % (w, cl.fieldname(*fld), bad[fld]))


def loops(f):
    """natural loops: header -> blocks"""
    succ = {b: list(x['ins'][-1].get('succ', [])) for b, x in f.blocks.items()}
    for b, x in f.blocks.items():
        i = x['ins'][-1]
        for k in ('normal', 'unwind'):
            if k in i and i[k] not in succ[b]: succ[b].append(i[k])
    pred = {}
    for b in succ:
        for s in succ[b]: pred.setdefault(s, set()).add(b)
    dom = {b: set(succ) for b in succ}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in succ:
            if b == f.entry: continue
            ps = [dom[p] for p in pred.get(b, ())]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b], ch = n, True
    out = {}
    for b in succ:
        for h in succ[b]:
            if h in dom[b]:
                l, work = out.setdefault(h, {h}), [b]
                while work:
                    x = work.pop()
                    if x in l: continue
                    l.add(x)
                    work += pred.get(x, ())
    return out, succ


def lifecycle(P, R, out):
    """P03: everything that was started is stopped, everything that was made is destroyed"""
    d, c = out['destroy'], out['create']
    ths = [out[n] for n in out if n.startswith('thread')]
    for cl, kinds in ((d, ('join', 'qdead')), (c, ('join', 'qdead'))):
        for kind in kinds:
            evs = [e for e in cl.events if e[0] == kind]
            what = {'join': 'joins', 'qdead': 'destroys'}[kind]
            thing = {'join': 'workers', 'qdead': 'queues'}[kind]
            if not evs:
                if cl is d: cl.problem('P03', 'none ' + kind, '%s never %s the %s' % (cl.name, what, thing))
                continue
            res = [cl.covers(e[1], e[2], e[5]) for e in evs]
            cl.count('loops over all objects', (kind, evs[0][3]))
            if any(r is True for r in res): continue
            if all(r is False for r in res): cl.problem('P03', 'cover %s %s' % (kind, evs[0][3]), '%s does not visit each of the %s exactly once when it %s them (%s)' % (cl.name, thing, what, evs[0][3]))
            else: cl.und('P03', 'range of the loop that %s the %s' % (what, thing))
    # queued tasks are destroyed in their slots
    if not any(e for e in d.slots): d.problem('P03', 'notasks', 'destroy never destroys the tasks that are still queued')
    # starting
    if not c.startstates: c.problem('P03', 'nostart', 'create never starts a worker')
    for f, ins, st, w in c.startstates[:40]:
        if c.starthdr is None: c.und('P03', 'loop that starts the workers'); break
        r = c.covers(('ix', ('c', 0), ((1, ('iv', c.starthdr)),)), {x: t for x, t in st.facts.items()}, st)
        if r is False: c.problem('P03', 'starts', 'create does not start as many workers as workers() reports (%s)' % w)
        elif r is None: c.und('P03', 'number of workers started')
        p = f.val(ins['ops'][1], st)
        b, off = norm(p)
        clos = st.mem.get((b, off))
        fields = {k[1]: v for k, v in st.mem.items() if len(k) == 3 and k[0] == clos} if clos else {}
        if not fields: c.und('P03', 'what a worker is started with'); continue
        cnt = c.cnt(st)
        alloc = c.misc(st).get('alloc')
        for t in ths:
            for data in t.index:
                if data[0] == 'ld' and norm(data[1])[0] == ('arg', 0) and norm(data[1])[1] in fields:
                    v = fields[norm(data[1])[1]]
                    c.count('worker indices', show(v))
                    r = c.covers(('ix', ('c', 0), ((1, v),)), dict(st.facts), st)
                    if r is False or v[0] == 'c': c.problem('P03', 'index', 'the workers are not numbered 0 .. workers() - 1 (%s)' % w)
                    elif r is None: c.und('P03', 'numbers of the workers')
                else: c.und('P03', 'index passed to the tasks')
            for (b, o), k in t.ptrs.items():
                # the monitor and the queues of the worker are those of the pool
                at = [a for a in atoms(('p', b, o), set()) if a[0] == 'ld' and norm(a[1])[0] == ('arg', 0)]
                e = ('p', b, o)
                for a in at:
                    v = fields.get(norm(a[1])[1])
                    if v is None: e = None; break
                    e = subst(e, a, v)
                if e is None or alloc is None: c.und('P03', 'objects given to a worker'); continue
                if k == R['busy'][0]:
                    wm = [(bb, oo) for (bb, oo), kk in out['wait'].ptrs.items() if kk == k and bb == ('arg', 0)]
                    if wm:
                        c.count('objects given to a worker', 'counter of unfinished tasks')
                        if not all_eq(e, ('p', alloc, wm[0][1]), sorted(atoms(e, set()) | {alloc}, key=str)):
                            c.problem('P03', 'monitor', 'the workers count finished tasks in another counter than the one wait() reads')
    # stopping
    for t in ths:
        stop = c.flagoffs | d.flagoffs
        if not t.flagloads: t.problem('P03', 'deaf', 'the worker never looks whether it has been told to stop')
        elif stop and not (t.flagoffs & stop): t.problem('P03', 'deaf', 'the flag that the worker reads is not the one that is set to stop it')
        if not t.stats.get('exits'): t.problem('P03', 'endless', 'the worker never ends')
        f = t.flow
        ls, succ = loops(f)
        atom = {b for b, x in f.blocks.items() if any(i['op'] == 'load' and i.get('atomic') for i in x['ins'])}
        timed = {b for b, x in f.blocks.items() if any((i.get('callee') or '').startswith(('pthread_cond_clockwait', 'pthread_cond_timedwait')) for i in x['ins'])}
        for h, l in ls.items():
            if not l & set(f.visited): continue
            t.count('loops of the worker', h)
            if h in f.ivheaders: continue
            if l & timed and not any(x in l and x != h for x in ls): continue
            if h in atom: continue
            seen, work, bad = set(), [s for s in succ[h] if s in l], False
            while work:
                x = work.pop()
                if x == h: bad = True; break
                if x in seen or x in atom or x not in l: continue
                seen.add(x)
                work += succ[x]
            if bad:
                w = next((where(i) for i in f.blocks[h]['ins'] if where(i) != '?'), '?')
                t.problem('P03', 'loop ' + w, 'the worker can go round a loop for ever without looking whether it has been told to stop (%s)' % w)


EVAL = {'c', 'add', 'sub', 'mul', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'sdiv', 'srem', 'neg', 'p', 'ix', 'icmp', 'sel', 'trunc'}


def unknowns(e, out):
    """maximal subexpressions that cannot be evaluated"""
    if not isinstance(e, tuple) or not e: return out
    if isinstance(e[0], tuple):
        for x in e: unknowns(x, out)
    elif e[0] in EVAL:
        for x in e[1:]:
            if isinstance(x, tuple): unknowns(x, out)
    elif isinstance(e[0], str): out.add(e)
    else:
        for x in e: unknowns(x, out)
    return out


def layout(P, R, out, slotfn, qsize):
    """the slots of the queues are disjoint, inside the memory of the pool, and clear of everything else that create() writes there"""
    c = out['create']
    if len(c.allocargs) < 1 or len({a for _, _, a in c.allocargs}) != 1: c.und('P02', 'memory of the pool'); return
    cal, args, alloc = c.allocargs[0]
    size = [a for a in args if a[0] != 'c']
    if len(size) != 1: c.und('P02', 'size of the memory of the pool'); return
    size = size[0]
    writes = {k: w for k, w in c.writes.items() if root(k[0]) == alloc}
    qs = sorted({(b, o) for (b, o), k in c.ptrs.items() if k == R['queue'] and root(b) == alloc and any(a[0] == 'iv' for a in atoms(b, set()))}, key=str)
    made = {norm(p)[0] for p, _, _ in writes}
    qs = [q for q in qs if q[0] in made]
    cnt = out['workers'].result
    if not qs or not slotfn or cnt is None: c.und('P02', 'where the queues are'); return
    leaf = set()
    for e in [size] + [x for k in writes for x in (k[0], k[2])]: unknowns(e, leaf)
    base = [x for x in unknowns(size, set())]
    if not base or len(base) > 3: c.und('P02', 'size of the memory of the pool'); return
    BASE = 1 << 20
    done = 0
    bad = set()
    import itertools
    for vals in itertools.product((1, 2, 3, 5), repeat=len(base)):
        asg = dict(zip(base, vals))
        asg[alloc] = BASE
        total = ev(size, asg)
        if total is None: c.und('P02', 'size of the memory of the pool'); return
        mem, owner = {}, {}

        def look(e, extra, depth=0):
            """value, with memory of the pool read back"""
            if depth > 6: return None
            a = dict(asg)
            a.update(extra)
            for x in unknowns(e, set()):
                if x in a: continue
                if x[0] == 'ld':
                    p = look(x[1], extra, depth + 1)
                    if p is None or p not in mem: continue
                    v, ex = mem[p]
                    if v == 'num': a[x] = ex
                    else:
                        y = look(v, ex, depth + 1)
                        if y is not None: a[x] = y
            return ev(e, a)
        n = 0
        for rnd in (0, 1):  # first what does not depend on a loop: it gives the number of workers
            for (p, sz, v), w in writes.items():
                ivs = [a for a in atoms(p, set()) if a[0] == 'iv']
                if bool(ivs) != bool(rnd) or len(ivs) > 1: continue
                for i in range(n if ivs else 1):
                    ex = {ivs[0]: i} if ivs else {}
                    pa = look(p, ex)
                    if pa is None: continue
                    o = (norm(p)[0][:2] if ivs else 'h', i)
                    if pa < BASE or pa + sz > BASE + total: bad.add(('out', w, 'create writes %d bytes at offset %d of the %d bytes it has allocated for the pool (%s)' % (sz, pa - BASE, total, w)))
                    if not (rnd == 0 and v == ('c', 0) and pa in mem): mem[pa] = (v, ex)
                    for k in range(pa, pa + sz): owner[k] = w
            if rnd == 0:
                n = look(subst(cnt, ('arg', 0), alloc), {})
                if n is None or not 0 < n < 100: break
        if n is None or not 0 < n < 100: continue
        slots = {}
        ok = True
        caps = 0
        for i in range(n):
            for b, off in qs[:1]:
                iv = [a for a in atoms(b, set()) if a[0] == 'iv'][0]
                qa = look(b, {iv: i})
                if qa is None: ok = False; break
                qa += off
                for s in slotfn:
                    a = {('ctr',): 0}
                    for x in unknowns(s, set()):
                        if x[0] == 'fld':
                            v = mem.get(qa + x[1])
                            y = look(v[0], v[1]) if v else None
                            if y is not None: a[x] = y
                    cp = [a.get(x) for x in divisors(s) if x[0] == 'fld']
                    if len(cp) != 1 or cp[0] is None or not 0 < cp[0] < 1000: ok = False; break
                    caps += cp[0]
                    for k in range(cp[0]):
                        a[('ctr',)] = k
                        x = ev(s, a)
                        if x is None: ok = False; break
                        if x < BASE or x + 64 > BASE + total: bad.add(('slotout', i, 'with %d workers and a total of %d bytes, slot %d of queue %d is at offset %d: outside the memory of the pool' % (n, total, k, i, x - BASE)))
                        hit = next((owner[y] for y in range(x, x + 64) if y in owner), None)
                        if hit: bad.add(('slothit', 0, 'with %d workers, slot %d of queue %d overlaps what create writes at %s' % (n, k, i, hit)))
                        for y in range(x - 63, x + 64):
                            if y in slots: bad.add(('slots', 0, 'with %d workers, slot %d of queue %d overlaps slot %d of queue %d: two tasks share memory' % ((n, k, i) + slots[y][::-1])))
                        slots[x] = (i, k)
        if not ok: continue
        done += 1
        cr = out['capacity'].result
        if cr is not None:
            x = look(subst(cr, ('arg', 0), alloc), {})
            if x is not None and x != caps: bad.add(('capacity', 0, 'capacity() is %d but the queues have %d slots' % (x, caps)))
            if x is not None: c.count('layouts with capacity()', vals)
        c.count('layouts', vals)
    if not done: c.und('P02', 'layout of the memory of the pool')
    seen = set()
    for k, _, t in sorted(bad, key=str):
        if k in seen: continue
        seen.add(k)
        c.problem('P02', 'layout ' + k, t)


def divisors(e):
    out = set()
    if isinstance(e, tuple):
        if e and e[0] in ('urem', 'udiv') and len(e) == 3: out |= {x for x in atoms(e[2], set())}
        for x in e: out |= divisors(x)
    return out


def all_eq(a, b, at):
    for k in range(12):
        asg = {x: 1 + (7 * i * i + 13 * i + 31 * k * (i + 1)) % 97 for i, x in enumerate(at)}
        x, y = ev(a, asg), ev(b, asg)
        if x is None or y is None: continue
        if x != y: return False
    return True


def reset_at_release(out, R):
    return getattr(out['unlock'], 'enqzero', False)


def show(e):
    return re.sub(r"[(),']+", ' ', str(e))[:160]


NEED = {  # instances without which a rule would be vacuous
    'P01': [('lock', 'locked'), ('unlock', 'unlocks'), ('acquire', 'accesses'), ('thread0', 'locks'), ('thread0', 'accesses'), ('wait', 'locks'), ('wait', 'accesses')],
    'P02': [('thread0', 'task actions'), ('thread0', 'pops'), ('acquire', 'acquired'), ('lock', 'locked'), ('lock_multiple', 'locked'), ('unlock', 'hand-overs'), ('thread0', 'counter updates')],
    'P03': [('create', 'life cycle events'), ('destroy', 'life cycle events'), ('create', 'unwinding paths'), ('thread0', 'loops of the worker')],
    'P04': [('wait', 'waits'), ('thread0', 'counter updates'), ('thread0', 'notifications')]}
KINDS = {'P01': ('locks', 'unlocks', 'accesses', 'locked', 'acquired', 'exits', 'task actions'), 'P02': ('task actions', 'pops', 'pop sessions', 'acquired', 'locked', 'hand-overs', 'counter updates', 'layouts', 'layouts with capacity()'),
         'P03': ('life cycle events', 'unwinding paths', 'loops over all objects', 'loops of the worker', 'worker indices', 'objects given to a worker', 'exits'),
         'P04': ('waits', 'zero crossings', 'notifications', 'counter updates', 'exits')}


def report(rep, prop):
    """the check of one of the properties"""
    try: P, R, out = analyse()
    except Partial as e:
        c, why = e.args
        for (p, key), text in c.problems.items():
            if p == prop: rep.violation(key, text)
        rep.coverage.update({'obligations': len(c.problems), 'undecided': ['everything else: after a violation of %s the analysis was given up (%s)' % (sorted({p for p, _ in c.problems}), why)]})
        return
    und, per, samples, n = set(), {}, [], 0
    for name, c in out.items():
        if name == 'edges': continue
        for (p, key), text in c.problems.items():
            if p == prop: rep.violation(key, text)
        und |= {'%s: %s' % (name, x) for x in c.undecided.get(prop, ())}
        per[name] = {k: len(c.stats[k]) for k in KINDS[prop] if c.stats.get(k)}
        for k in KINDS[prop]:
            n += len(c.stats.get(k, ()))
            for x in sorted(map(str, c.stats.get(k, ())))[:2]: samples.append('%s, %s: %s' % (name, k, x[:150]))
    for name, k in NEED[prop]:
        if not out[name].stats.get(k) and not rep.violations: raise Broken('no instance of "%s" in %s: the analysis no longer sees the code' % (k, name))
    name = lambda x: '%s, offset %d' % (P.cls(x[0]), x[1]) if isinstance(x, tuple) and isinstance(x[0], int) else P.cls(x) if isinstance(x, int) else str(x)
    rep.coverage.update({'obligations': n, 'undecided': sorted(und), 'undecided_count': len(und), 'instances': per, 'samples': samples[:30],
                         'roles': {k: name(v) for k, v in R.items() if v is not None}, 'lock_order': {'%s -> %s' % (P.cls(x) if x is not None else '?', P.cls(y) if y is not None else '?'): w for (x, y), w in out['edges'].items()},
                         'entry_points': [k for k in out if k != 'edges']})
    rep.assumptions += ['locking, unlocking and notifying never fail', 'no loop goes round 2^40 times and no counter of tasks wraps around 2^64',
                        'callers of the C interface of the pool respect it: acquire(q) and unlock(q) only between lock() or lock_multiple() returning q and unlock(q)']
    return P, R, out
