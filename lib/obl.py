"""value-graph obligations: for every pair i__X / s__X of functions in a driver, the library side (i__) and the
independent specification side (s__) must denote the same function."""
import os, re, sys, json, threading, multiprocessing as mp
from common import *
import vg, realnf, bitdom
from vg import NODES, Unsupported


def outputs(g, gi=None):
    """final values: return value and memory written through argument pointers"""
    o = {}
    if g.ret is not None:
        o['ret'] = (g.ret, g.f['ret'])
    for (b, off), (sz, n, t) in g.mem.e.items():
        if isinstance(b, str) and b.startswith('a'):
            o[(b, off, sz)] = (n, t)
    return o


def apis(f):
    """library functions inlined into this function, most specific first"""
    seen = {}
    for b in f['blocks']:
        for i in b['ins']:
            for l in (i.get('loc') or []):
                p, line, fn = l.split(':', 2)
                if '/muu/' in p or p.startswith(REPO):
                    k = (p.replace(REPO + '/', ''), fn)
                    seen.setdefault(k, int(line))
    return ['%s:%d %s' % (p, l, fn) for (p, fn), l in sorted(seen.items(), key=lambda x: x[0])]


def split_wide(o, elem):
    """memory written in one piece but made of several elements is compared element by element"""
    r = {}
    for k, (n, t) in o.items():
        e = elem.get(k[0]) if isinstance(elem, dict) and k != 'ret' else elem
        w = vg.width(e) // 8 if isinstance(e, str) and k != 'ret' else 0
        if w and not (t in vg.FLT and e not in vg.FLT) and k[2] > w and k[2] % w == 0 and k[1] % w == 0:
            for q in range(k[2] // w):
                r[(k[0], k[1] + q * w, w)] = (None, e)
        else:
            r[k] = (n, t)
    return r


def pairout(gi, gs, elem=None):
    oi, os_ = outputs(gi), split_wide(outputs(gs), elem)
    pairs = []
    # outputs written by the specification define the obligation; extra writes by the library side are compared to the
    # initial contents only if the spec touches the same object
    for k, (n, t) in os_.items():
        if k == 'ret':
            if 'ret' not in oi:
                raise Unsupported('no return value')
            pairs.append((k, oi['ret'][0], n, t))
        else:
            b, off, sz = k
            v = gi.load_from(gi.mem, b, off, sz, t)
            if n is None:
                n = gs.load_from(gs.mem, b, off, sz, t)
            pairs.append((k, v, n, t))
    return pairs


def one(args):
    path, name, opts = args
    try:
        import time
        t0 = time.time()
        r = _one(path, name, opts)
        r[3]['s'] = round(time.time() - t0, 1)
        return r
    except RecursionError:
        return (name, 'undecided', 'recursion', {}, [])


_mods = {}


def _one(path, name, opts):
    if path not in _mods:
        vg.reset()
        _mods.clear()
        _mods[path] = vg.Module(path)
    m = _mods[path]
    vg.reset()
    vg.NARROW = not opts.get('words')
    fi, fs = m.functions['i__' + name], m.functions['s__' + name]
    api = apis(fi)
    try:
        gi = m.graph('i__' + name, calls=opts.get('calls'), elem=opts.get('elem'))
    except Unsupported as e:
        if str(e).startswith('no return'):
            try:
                m.graph('s__' + name, calls=opts.get('calls'), elem=opts.get('elem'))
                return (name, 'differ', 'the library code never returns: every path is endless or undefined', {}, api)
            except Unsupported: pass
        return (name, 'undecided', 'library side: %s' % e, {}, api)
    try:
        gs = m.graph('s__' + name, calls=opts.get('calls'), elem=opts.get('elem'))
        pairs = pairout(gi, gs, opts.get('elem'))
    except Unsupported as e:
        return (name, 'undecided', 'spec side: %s' % e, {}, api)
    if not pairs:
        return (name, 'undecided', 'no outputs', {}, api)
    st = {'outputs': len(pairs), 'leaves': 0, 'regions': 0}
    worst = 'proved'
    why = ''
    over = unwound(gi, gs)
    done, bad = set(), 0
    if len(pairs) > 1 and opts.get('lin') and over is None:
        ks = [i for i, (k, a, b, t) in enumerate(pairs) if a != b and (opts.get('domain') or domain_of(a, b, t)) == 'bits']
        left = bitdom.decide_all([(pairs[i][1], pairs[i][2]) for i in ks], opts) if len(ks) > 1 else range(len(ks))
        done = set(ks) - {ks[j] for j in left}
    for idx, (k, a, b, t) in enumerate(pairs):
        if idx in done:
            st['leaves'] += 1
            continue
        if over is not None:
            a = vg.ite(over, b, a)
        if a == b:
            st['leaves'] += 1
            continue
        kind = opts.get('domain') or domain_of(a, b, t)
        if kind == 'bits':
            r = bitdom.decide(a, b, opts)
        else:
            pf = opts.get('points')
            pts = None
            if pf:
                pts = lambda atoms: pf(atoms, name)
            r = realnf.decide([(a, b)], isbool=t in ('i1',), points=pts, maxleaves=opts.get('maxleaves', 2500))
        st['leaves'] += r.leaves
        st['regions'] += r.regions
        if r.status == 'differ':
            return (name, 'differ', 'output %s: %s' % (k, describe(r)), st, api)
        if r.status == 'undecided':
            worst = 'undecided'
            why = 'output %s: %s' % (k, r.detail if not isinstance(r.detail, dict) else '%d-gate region not separated' % len(r.detail))
            bad += 1
            if opts.get('stop') and bad >= opts['stop']: break
    if worst == 'proved' and over is not None:
        if bitdom.decide(over, vg.ci(0, 1), {}).status != 'proved':
            worst, why = 'undecided', 'a loop may run longer than the unrolling bound'
    return (name, worst, why, st, api)


def unwound(*gs):
    """loops were unrolled up to a bound: the condition under which the bound is exceeded (None: never)"""
    r = None
    for g in gs:
        if any(k[0] == '@__vg_unwound' for k in g.mem.e):
            n = g.load_from(g.mem, '@__vg_unwound', 0, 1, 'i8')
            if n != vg.ci(0, 8):
                c = g.icmp('ne', n, vg.ci(0, 8), 8)
                r = c if r is None else vg.ite(r, r, c)
    return r


def describe(r):
    a, b, x, y = r.detail
    import mpmath
    pt = {}
    if r.point:
        for k, v in r.point.items():
            pt['%s[%s]' % (k[1], k[2] if k[0] == 'ld' else '')] = mpmath.nstr(v, 8) if not isinstance(v, int) else hex(v)
    f = lambda v: mpmath.nstr(v, 8) if not isinstance(v, int) else hex(v)
    return 'library gives %s where the specification gives %s, in the region containing %s' % (f(x), f(y), pt)


def domain_of(a, b, t):
    """bits for integer code without float arithmetic, reals otherwise"""
    seen, st = set(), [a, b]
    fl = False
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        x = NODES[n]
        if x[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'fn1', 'fn2', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            fl = True
            break
        st.extend(realnf.kids_all(x))
    if fl:
        return 'real'
    if t in vg.FLT:
        return 'real'
    return 'bits'


def library_error(msg):
    """the first compile error of a driver, if it lies inside a template of the library that the driver uses as documented"""
    m = re.search(r'([^\s:]+):(\d+):\d+: (?:fatal )?error: ([^\n]*)', msg)
    if not m or not os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + '/'): return None
    n = re.search(r'([^\s:]*drivers/[^\s:]+:\d+):\d+: note: in instantiation', msg[m.end():])
    if not n: return None
    return 'the library does not compile for a supported use (%s): %s' % (n.group(1), m.group(3)[:300]), '%s:%s' % (m.group(1).replace(REPO + '/', ''), m.group(2))


def run_driver(src, variants, opts=None, names=None, jobs=8, flags=()):
    """variants: {vname: [flags]}; returns list of (variant, name, status, why, stats, api)"""
    opts = opts or {}
    src = os.path.join(VERIF, 'drivers', src)
    tasks = []

    def comp(v):
        vn, fl = v
        base = os.path.join(tmpdir(), os.path.basename(src) + '.' + vn)
        try: compile_ir(src, base + '.bc', list(fl) + list(flags))
        except Broken as e:
            w = library_error(str(e))
            if not w: raise
            return vn, w
        dump(base + '.bc', '', base + '.json', unroll=opts.get('unroll', 0), rounds=opts.get('rounds', 0))
        return vn, base + '.json'

    with cf.ThreadPoolExecutor(8) as ex:
        files = list(ex.map(comp, variants.items()))
    failed = []
    for vn, path in files:
        if isinstance(path, tuple):
            failed.append((vn, 'compile', 'differ', path[0], {}, [path[1]]))
            continue
        d = json.load(open(path))
        fs = {f['name'] for f in d['functions']}
        ns = sorted(n[3:] for n in fs if n.startswith('i__'))
        for n in ns:
            if 's__' + n not in fs:
                raise Broken('no specification for ' + n)
            if names and not names(n): continue
            tasks.append((vn, (path, n, opts)))
    if not tasks and not failed:
        raise Broken('no obligations in ' + src)
    out = list(failed)
    res = parallel(one, [t[1] for t in tasks], jobs, opts.get('timeout', 200))
    for (vn, t), r in zip(tasks, res):
        if r is None:
            r = (t[1], 'undecided', 'time limit', {}, [])
        out.append((vn,) + r)
    return out


def parallel(fn, items, jobs, timeout):
    """fork one process per item, at most `jobs` at a time, each with a time limit"""
    import time, pickle, select, signal
    res = [None] * len(items)
    running = {}
    nxt = 0
    sys.stdout.flush()
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, 512 << 20))
                    threading.stack_size(256 << 20)
                    box = []

                    def go():
                        try:
                            box.append(fn(items[nxt]))
                        except MemoryError:
                            box.append((items[nxt][1], 'undecided', 'memory limit', {}, []))
                        except Exception as e:
                            import traceback
                            box.append((items[nxt][1], 'error', traceback.format_exc(), {}, []))
                    t = threading.Thread(target=go)
                    t.start()
                    t.join()
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(box[0], f)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (nxt, pid, time.time(), b'')
            nxt += 1
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for r in rl:
            k, pid, t0, buf = running[r]
            d = os.read(r, 1 << 16)
            if d:
                running[r] = (k, pid, t0, buf + d)
            else:
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res[k] = pickle.loads(buf)
                except Exception:
                    res[k] = None
        now = time.time()
        for r in list(running):
            k, pid, t0, buf = running[r]
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
    return res


def summarise(rep, results, must=None):
    """turn obligation results into the report"""
    cov = rep.coverage
    cov.setdefault('obligations', 0)
    cov.setdefault('discharged', 0)
    cov.setdefault('undecided', [])
    cov.setdefault('proved', [])
    for vn, name, status, why, st, api in results:
        cov['obligations'] += 1
        if status == 'proved':
            cov['discharged'] += 1
            cov['proved'].append('%s/%s (%d outputs, %d gate leaves)' % (name, vn, st.get('outputs', 0), st.get('leaves', 0)))
        elif status == 'differ':
            rep.violation(name, '[%s] %s; through: %s' % (vn, why, '; '.join(api[:12])))
        elif status == 'error':
            raise Broken('analysis of %s/%s failed: %s' % (name, vn, why[-1500:]))
        else:
            cov['undecided'].append('%s/%s: %s (regions compared: %s)' % (name, vn, why, st.get('regions', 0)))
    return rep
