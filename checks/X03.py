"""promises to the optimiser: a function declared pure has no visible effect, a function declared const reads nothing but its arguments and constants"""
import os, json, concurrent.futures as cf
from common import *
LEVEL = 'other'
TECHNIQUE = 'interprocedural memory-effect analysis over the LLVM IR of the release configuration, compared with the declared attributes'
F = ['-DSCALAR=float', '-DUINT=uint32', '-DEXPMASK=0x7F800000u']
N = ['-DSCALAR=int', '-DINTEGRAL=1']
PARTS = ['-DT_%s' % p for p in ('ACC', 'SPAN', 'EA', 'SA', 'CP', 'IR', 'FS', 'TP', 'FV', 'HASH', 'PUV', 'SAT')]
INST = [PARTS, ['-DEL=float', '-DGL=float'], ['-DEL=double'], ['-DEL=int'], ['-DGL=double'], ['-DEL=muu::half'], ['-DGL=muu::half'], ['-DEL=long double'], ['-DGL=long double']]
DRIVERS = [('vec.cpp', F), ('vec.cpp', N), ('mat.cpp', F), ('quat.cpp', F), ('box.cpp', F), ('geo.cpp', F), ('util.cpp', []), ('bits.cpp', []), ('tptr.cpp', []), 
           ('hash.cpp', ['-DPART_UUID']), ('text.cpp', ['-DPART_8']), ('text.cpp', ['-DPART_16']), ('text.cpp', ['-DPART_32=1']), ('text.cpp', ['-DPART_HEX']), ('cont.cpp', [])]
# functions of the C library that only compute a value (errno apart)
LIBM = {n + s for n in 'sin cos tan asin acos atan atan2 sqrt cbrt pow exp exp2 expm1 log log2 log10 log1p fmod remainder floor ceil trunc round nearbyint rint fabs fmin fmax fma hypot copysign ldexp scalbn ilogb logb nextafter'.split() for s in ('', 'f', 'l')} | {
    'strlen', 'wcslen', 'memcmp', 'strcmp', 'memchr', 'wmemchr'}


def check(rep):
    T = tmpdir()
    srcs = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
    if not srcs: raise Broken('no library sources')
    jobs = [('inst%d' % k, VERIF + '/drivers/inst.cpp', f) for k, f in enumerate(INST)]
    jobs += [('%s%d' % (d, k), VERIF + '/drivers/' + d, f) for k, (d, f) in enumerate(DRIVERS) if os.path.exists(VERIF + '/drivers/' + d)]
    jobs += [(s, REPO + '/src/' + s, ['-DMUU_BUILDING=1', '-I' + REPO + '/src']) for s in srcs]

    def unit(name, src, flags):
        base = ['-std=c++20' if 'text' in name else '-std=c++17', '-w', '-DNDEBUG', *flags, '-I' + REPO + '/include', '-I' + REPO, '-I' + VERIF + '/drivers']
        bc = os.path.join(T, name + '.bc')
        r = run(['clang++-18', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-femit-all-decls', *base, '-emit-llvm', '-c', src, '-o', bc])
        if r.returncode: raise Broken('%s does not compile: %s' % (name, r.stderr[:400]))
        r = run([tool('effects'), bc])
        if r.returncode: raise Broken('effects failed on %s: %s' % (name, r.stderr[:400]))
        fs = [json.loads(l) for l in r.stdout.split('\n') if l]
        q = run([tool('astq'), REPO + '/', '--', *base, src])
        if q.returncode: raise Broken('astq failed on %s: %s' % (name, q.stderr[:400]))
        cl = {}
        for l in q.stdout.split('\n'):
            if l.startswith('{') and ('"const":true' in l or '"pure":true' in l):
                d = json.loads(l)
                if d['kind'] == 'function' and d.get('mangled'): cl[d['mangled']] = 'const' if d['const'] else 'pure'
        return name, fs, cl
    seen, n, und = {}, {'const': 0, 'pure': 0}, {}
    ndone = {'const': 0, 'pure': 0}
    samples = []
    with cf.ThreadPoolExecutor(8) as ex:
        for fu in [ex.submit(unit, *j) for j in jobs]:
            name, fs, cl = fu.result()
            for f in fs:
                if REPO not in str(f.get('file')): continue
                c = cl.get(f['name']) or f['claim']
                if not c or seen.get(f['name']) == c: continue
                seen[f['name']] = c
                n[c] += 1
                where = '%s:%s' % (f['file'].replace(REPO + '/', ''), f['line'])
                open_ = []
                for e in f['effects']:
                    if e['kind'] in 'ag':
                        if c == 'const' or e['rw'] == 'w':
                            what = ('the object its parameter %d refers to' % e['arg'] if e['kind'] == 'a' else 'the variable ' + e['what'])
                            if f['demangled'].find('::') > 0 and e['kind'] == 'a' and e['arg'] == (1 if f['sret'] else 0): what += ' (`this`, for a member function)'
                            rep.violation('%s %s' % (where, e['rw']), '%s: %s is declared %s but %s %s, at %s' % (
                                where, f['demangled'][:200], c, 'writes' if e['rw'] == 'w' else 'reads', what, e['at'].replace(REPO + '/', '')))
                    elif e['kind'] == 'c' and e['what'] in LIBM: pass
                    elif c == 'pure' and e['rw'] == 'r': pass
                    else: open_.append('%s %s' % ({'u': 'pointer of unknown origin', 'c': 'call of ' + (e['what'] or 'an unknown function')}[e['kind']], e['at'].replace(REPO + '/', '')))
                if open_: und[f['demangled'][:160]] = open_[0][:200]
                else:
                    ndone[c] += 1
                    if len(samples) < 12 and n[c] % 97 == 5: samples.append('%s: %s (%s)' % (where, f['demangled'][:120], c))
    if (n['pure'] < 1000 or n['const'] < 400) and not rep.violations:
        raise Broken('only %d pure and %d const functions found' % (n['pure'], n['const']))
    rep.coverage.update({'obligations': n['pure'] + n['const'], 'discharged': ndone['pure'] + ndone['const'], 'pure_functions': n['pure'], 'const_functions': n['const'],
                         'undecided': dict(sorted(und.items())[:60]), 'undecided_count': len(und), 'translation_units': [j[0] for j in jobs], 'samples': samples,
                         'explanation': 'Every instantiated function whose declaration carries pure or const in the release configuration (from the AST) is analysed on unoptimised IR after promotion of locals: '
                                        'the set of argument-reachable objects and mutable variables it (or a callee) reads or writes. const: both empty; pure: writes empty. '
                                        'Blocks from which every path is unreachable are ignored; function-local statics written only under their initialisation guard count as constants.'})
    rep.assumptions += ['setting errno in mathematical functions is not a visible effect', 'a pointer loaded from memory may point anywhere: effects through it are reported as undecided, never as a violation']
