"""header hygiene: every public header compiles on its own in every configuration, leaves no trace beyond its own names, and declares nothing that is not defined"""
import os, re, json, concurrent.futures as cf
from common import *
LEVEL = 'other'
TECHNIQUE = 'compile-fail witnesses per header and configuration, preprocessor-state audit, and a declaration/definition audit over the type-checked AST'
CONF = {  # name: (command, tier of headers)
    'clang-17': ['clang++-18', '-std=c++17'], 'clang-20': ['clang++-18', '-std=c++20'],
    'gcc-17': ['g++', '-std=gnu++17'], 'gcc-20': ['g++', '-std=gnu++20'],
}
ALLCONF = {
    'clang-2b': ['clang++-18', '-std=c++2b'], 'gcc-23': ['g++', '-std=gnu++23'], 'gcc-strict-17': ['g++', '-std=c++17', '-fext-numeric-literals'],
    'gcc-strict-20': ['g++', '-std=c++20', '-fext-numeric-literals'],
    'clang-noexc': ['clang++-18', '-std=c++17', '-fno-exceptions', '-fno-rtti'], 'gcc-noexc': ['g++', '-std=gnu++17', '-fno-exceptions', '-fno-rtti'],
    'clang-release': ['clang++-18', '-std=c++17', '-O2', '-DNDEBUG', '-march=x86-64-v3'], 'gcc-release': ['g++', '-std=gnu++20', '-O2', '-DNDEBUG', '-march=x86-64-v3'],
    'clang-wchar16': ['clang++-18', '-std=c++20', '-fshort-wchar', '-funsigned-char'], 'gcc-wchar16': ['g++', '-std=gnu++17', '-fshort-wchar', '-funsigned-char'],
    'clang-char8-17': ['clang++-18', '-std=c++17', '-fchar8_t'], 'clang-nochar8-20': ['clang++-18', '-std=c++20', '-fno-char8_t'], 'gcc-char8-17': ['g++', '-std=gnu++17', '-fchar8_t'],
    'clang-nofloat16': ['clang++-18', '-std=c++17', '-DMUU_HAS_FLOAT16=0'], 'clang-fast': ['clang++-18', '-std=c++20', '-ffast-math'], 'gcc-fast': ['g++', '-std=gnu++17', '-ffast-math'],
}
PROHIBITED = ('bitset.h', 'concatenate.h', 'rolling_average.h', 'semver.h')   # '#error ... not fully implemented'
PARTS = {'ACC': 'accumulator', 'SPAN': 'span', 'EA': 'emplacement_array', 'SA': 'static_array', 'CP': 'compressed_pair', 'IR': 'integral_range', 'FS': 'fixed_string', 'TP': 'tagged_ptr',
         'FV': 'function_view', 'HASH': 'fnv1a and hash_combiner', 'PUV': 'packed_unit_vector', 'SAT': 'sat_tester'}
I = ['-I' + REPO + '/include']


def first_error(err):
    for l in err.split('\n'):
        if 'error' in l:
            return l.strip().replace(REPO + '/', '')[:300]
    return err[:300]


def pragma(lines, name, text):
    """the pragma stack of the repository's own files at the end of a header -> problems"""
    f, out = '', []
    st = {}
    for l in lines:
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            f = m.group(2)
            continue
        if not l.startswith('#pragma') or not f.startswith(REPO + '/'):
            continue
        p = l[7:].strip()
        q = None
        for k, push, pop in (('diagnostic', r'(clang|GCC) diagnostic push', r'(clang|GCC) diagnostic pop'), ('options', r'GCC push_options', r'GCC pop_options'),
                             ('float_control', r'(clang )?float_control *\( *push', r'(clang )?float_control *\( *pop'), ('visibility', r'GCC visibility push', r'GCC visibility pop'),
                             ('attribute', r'clang attribute.* push', r'clang attribute.* pop')):
            if re.match(push, p): st[k] = st.get(k, 0) + 1
            elif re.match(pop, p):
                st[k] = st.get(k, 0) - 1
                if st[k] < 0: q = 'pops %s below its own push' % k
        m = re.match(r'push_macro *\( *"(\w+)"', p)
        if m: st['macro ' + m.group(1)] = st.get('macro ' + m.group(1), 0) + 1
        m = re.match(r'pop_macro *\( *"(\w+)"', p)
        if m: st['macro ' + m.group(1)] = st.get('macro ' + m.group(1), 0) - 1
        if re.match(r'(clang|GCC) diagnostic ignored', p) and st.get('diagnostic', 0) <= 0: q = 'ignores a warning outside push/pop: ' + p
        if re.match(r'GCC (optimize|target)', p) and st.get('options', 0) <= 0: q = 'changes code generation outside push_options/pop_options: ' + p
        if q: out.append('%s (%s)' % (q, f.replace(REPO + '/', '')))
    for k, v in st.items():
        if v: out.append('%s: %+d unbalanced push' % (k, v))
    return out


def macros(lines):
    f, d = '', {}
    for l in lines:
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            f = m.group(1)
            continue
        m = re.match(r'#define (\w+)', l)
        if m: d[m.group(1)] = f
        m = re.match(r'#undef (\w+)', l)
        if m:
            old = d.pop(m.group(1), None)
            if old is not None and f.startswith(REPO + '/') and not old.startswith(REPO + '/'): d['#undef ' + m.group(1)] = f
    return [(k, v.replace(REPO + '/', '')) for k, v in d.items() if v.startswith(REPO + '/') and not re.match(r'(MUU|POXY)_', k)]


def check(rep):
    hs = sorted(h for h in os.listdir(REPO + '/include/muu') if h.endswith('.h') and h not in PROHIBITED)
    if len(hs) < 40 or 'all.h' not in hs:
        raise Broken('only %d public headers found' % len(hs))
    T = tmpdir()
    nobl = [0]
    jobs = []

    def src(name, text):
        p = os.path.join(T, name + '.cpp')
        if not os.path.exists(p):
            with open(p, 'w') as f: f.write(text)
        return p

    def compiles(key, what, cmd, text, extra=()):
        p = src(key.replace('/', '_').replace(' ', '_'), text)
        r = run(cmd + list(extra) + ['-w', '-fsyntax-only', *I, p])
        if r.returncode:
            return [(key, '%s does not compile with %s: %s' % (what, ' '.join(cmd), first_error(r.stderr)))]
        return []

    def prep(h, cn):
        p = src('pp_' + cn + h, '#include <muu/%s>\n' % h)
        r = run(CONF[cn] + ['-w', '-E', '-dD', *I, p])
        if r.returncode:
            return []   # reported by the compile obligation
        ls = r.stdout.split('\n')
        out = [('%s macro %s' % (h, k), 'including <muu/%s> leaves the macro change "%s" made in %s' % (h, k, f)) for k, f in macros(ls)]
        out += [('%s pragma %s' % (h, q.split(' (')[0][:40]), 'including <muu/%s> (%s): %s' % (h, cn, q)) for q in pragma(ls, h, '')]
        return out

    for h in hs:
        t = '#include <muu/%s>\n#include <muu/%s>\n' % (h, h)
        for cn, cmd in CONF.items():
            jobs.append((compiles, ('%s alone %s' % (h, cn), 'including <muu/%s> alone' % h, cmd, t)))
        for cn in ('clang-17', 'clang-20', 'gcc-20'):
            jobs.append((prep, (h, cn)))
    rev = ''.join('#include <muu/%s>\n' % h for h in reversed(hs))
    for cn, cmd in list(CONF.items()) + list(ALLCONF.items()):
        jobs.append((compiles, ('all.h ' + cn, 'including <muu/all.h>', cmd, '#include <muu/all.h>\n')))
        if cn in CONF: jobs.append((compiles, ('reverse ' + cn, 'including all headers in reverse order', cmd, rev)))
    # every member of every class template instantiates
    def inst(what, flag, cn):
        r = run(CONF[cn] + ['-w', '-fsyntax-only', *flag, *I, VERIF + '/drivers/inst.cpp'])
        if r.returncode:
            return [('instantiate %s' % what, 'explicit instantiation of %s does not compile with %s: %s' % (what, ' '.join(CONF[cn]), first_error(r.stderr)))]
        return []
    for t in ('ACC', 'SPAN', 'EA', 'SA', 'CP', 'IR', 'FS', 'TP', 'FV', 'HASH', 'PUV', 'SAT'):
        for cn in ('clang-17', 'gcc-20'):
            jobs.append((inst, (PARTS[t], ['-DT_' + t], cn)))
    for t in ('float', 'double', 'long double', 'muu::half', 'int', 'unsigned char', 'long long', 'bool'):
        for cn in ('clang-20', 'gcc-17'):
            jobs.append((inst, ('vector and matrix of ' + t, ['-DEL=' + t], cn)))
            if t in ('float', 'double', 'long double', 'muu::half'): jobs.append((inst, ('the geometry types of ' + t, ['-DGL=' + t], cn)))
    # the umbrella header includes every other header
    def umbrella():
        r = run(CONF['clang-20'] + ['-w', '-H', '-fsyntax-only', *I, src('umb', '#include <muu/all.h>\n')])
        inc = {os.path.basename(l.split()[-1]) for l in r.stderr.split('\n') if re.match(r'\.+ ', l) and os.path.dirname(os.path.normpath(l.split()[-1])) == REPO + '/include/muu'}
        if not inc: raise Broken('clang -H printed no include of the repository')
        return [('all.h includes ' + h, '<muu/all.h> does not include <muu/%s>' % h) for h in hs if h not in inc]
    jobs.append((umbrella, ()))
    nhead = len(hs)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(f, *a) for f, a in jobs]
        for f in fs:
            for k, t in f.result(): rep.violation(k, t)
    nobl = len(jobs) - 1 + len(hs)
    # declarations and definitions
    srcs = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
    if not srcs: raise Broken('no library sources')
    defs = {}
    for s in srcs:
        o = os.path.join(T, s + '.ll')
        r = run(['clang++-18', '-std=c++20', '-O0', '-w', '-DMUU_BUILDING=1', *I, '-I' + REPO + '/src', '-S', '-emit-llvm', os.path.join(REPO, 'src', s), '-o', o])
        if r.returncode:
            rep.violation('src/' + s, 'src/%s does not compile: %s' % (s, first_error(r.stderr)))
            continue
        for l in open(o):
            m = re.match(r'define (.*?)@"?([\w.$]+)"?\(', l) or re.match(r'@"?([\w.$]+)"? = ((?:dso_local |local_unnamed_addr |unnamed_addr )*)(?:global|constant|alias)', l)
            if not m: continue
            if l.startswith('define'):
                if re.search(r'\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally)\b', m.group(1)): continue
                defs.setdefault(m.group(2), []).append(s)
            else:
                defs.setdefault(m.group(1), []).append(s)
    ndecl = 0
    decls = {}
    for std in ('c++17', 'c++20'):
        r = run([tool('astq'), REPO + '/include/', '--', '-std=' + std, '-w', *I, src('umb', '#include <muu/all.h>\n')])
        facts = [json.loads(l) for l in r.stdout.split('\n') if l]
        if r.returncode:
            if rep.violations: continue
            raise Broken('astq failed: ' + r.stderr[:500])
        if sum(f['kind'] == 'function' for f in facts) < 1000: raise Broken('astq found too few functions')
        for f in facts:
            where = '%s:%s' % (f['file'].replace(REPO + '/', ''), f['line'])
            k = f['kind']
            if k == 'function':
                if f['body'] and not f['inline'] and not f['pattern'] and not f['instance'] and f['linkage'] >= 5:
                    rep.violation('noninline ' + f['name'], '%s: %s is defined in a header without being inline: a program of two translation units does not link' % (where, f['name']))
                if not f['defined'] and not f['pattern'] and not f['instance'] and f['canonical'] and 'deduction guide' not in f['name'] and not f['builtin'] and not f['deleted'] and f['linkage'] >= 5:
                    m = f.get('mangled')
                    decls[m] = (f, where)
                ndecl += 1
            elif k == 'variable':
                ndecl += 1
                if not f['inline'] and not f['pattern'] and not f['instance'] and f['linkage'] >= 5 and f['defined']:
                    rep.violation('noninline ' + f['name'], '%s: the variable %s is defined in a header without being inline' % (where, f['name']))
            elif k == 'using_directive' and f['global']:
                rep.violation('using ' + f['what'], '%s: using-directive for %s at namespace scope of the includer' % (where, f['what']))
            elif k == 'toplevel' and f['decl'] not in ('ParmVar', 'TemplateTypeParm', 'NonTypeTemplateParm', 'TemplateTemplateParm') and not re.match(r'(muu|MUU)_', f['name']):
                rep.violation('global ' + f['name'], '%s: declares %s %s in the global namespace' % (where, f['decl'], f['name']))
    for m, (f, where) in sorted(decls.items()):
        m2 = m.replace('C1', 'C2') if m not in defs else m
        n = defs.get(m) or defs.get(m2)
        if not n and not rep.violations:
            rep.violation('undefined ' + f['name'], '%s: %s (%s) is declared but no source file of the library defines it' % (where, f['name'], f['type']))
        elif n and len(n) > 1:
            rep.violation('multiple ' + f['name'], '%s: %s is defined in %s' % (where, f['name'], ', '.join(n)))
    if not decls and not rep.violations: raise Broken('no out-of-line declarations found')
    nobl += ndecl + len(decls)
    rep.coverage.update({'obligations': nobl, 'discharged': nobl - len(rep.violations), 'headers': nhead, 'configurations': sorted(CONF) + sorted(ALLCONF),
                         'out_of_line_declarations': len(decls), 'declarations_audited': ndecl, 'excluded_headers': list(PROHIBITED),
                         'explanation': 'Each public header is type-checked on its own (included twice) with clang and gcc in C++17 and C++20; all.h and the reverse inclusion order also in %d further '
                                        'configurations; the preprocessor output is audited for leaked macros and unbalanced pragma stacks; the AST of all.h for non-inline definitions, global names, '
                                        'using-directives and declarations without exactly one definition in src/.' % len(ALLCONF)})
    rep.assumptions += ['x86-64 Linux; MSVC, ICC and 32-bit configurations are not available here', 'g++ in strict dialects needs -fext-numeric-literals (as the build of the library passes)']
