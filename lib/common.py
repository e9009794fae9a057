"""shared plumbing: paths, compilation, evidence, violation reporting"""
import os, sys, json, time, subprocess, hashlib, tempfile, shutil, atexit, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUU_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'
INC = ['-I' + REPO + '/include', '-I' + REPO, '-I' + VERIF + '/drivers', '-include', VERIF + '/drivers/prelude.h']
_tmp = None


class Broken(Exception):
    """the analysis itself could not be carried out (no verdict)"""


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='muuverif.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    return p


def tool(name):
    p = os.path.join(BUILD, name)
    src = os.path.join(VERIF, 'tools', name + '.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        r = run([os.path.join(VERIF, 'setup.sh')], timeout=1700)
        if r.returncode or not os.path.exists(p):
            raise Broken('cannot build tool %s: %s' % (name, r.stderr[-2000:]))
    return p


OPT = ['-O2', '-march=x86-64-v3', '-fno-vectorize', '-fno-slp-vectorize', '-fno-math-errno', '-mllvm', '-unroll-threshold=200000', '-mllvm', '-unroll-full-max-count=512', '-mllvm', '-unroll-max-upperbound=512',
       '-mllvm', '-unroll-runtime=false', '-mllvm', '-disable-loop-idiom-all',
       '-ffp-contract=off', '-mllvm', '-inline-threshold=100000', '-g1', '-w', '-fno-exceptions']


def compile_ir(src, out, flags=(), opt=OPT, std='c++20'):
    cmd = [CLANG, '-std=' + std, *opt, *INC, *flags, '-emit-llvm', '-c', src, '-o', out]
    r = run(cmd)
    if r.returncode:
        raise Broken('driver %s does not compile (%s): %s' % (os.path.basename(src), ' '.join(flags), r.stderr[:6000]))
    return out


def dump(bc, prefix, out, locs=True, unroll=0, rounds=0):
    with open(out, 'w') as f:
        p = subprocess.run([tool('irdump'), bc, prefix] + (['locs'] if locs else []) + (['unroll=%d' % unroll] if unroll else []) + (['rounds=%d' % rounds] if rounds else []), stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Broken('irdump: ' + p.stderr[:1000])
    return out


class Report:
    def __init__(self, pid, level, technique):
        self.pid, self.level, self.technique = pid, level, technique
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.coverage = {}
        self.assumptions = []
        self.knownlist = load_known(pid)

    def violation(self, key, text):
        """key: stable identifier of the failing construct (matched against the known-findings file)"""
        for k in self.knownlist:
            if k['key'] == key:
                self.known.append((key, text))
                return
        self.violations.append((key, text))

    def finish(self):
        pid = self.pid
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.coverage,
              'wall_s': round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        if self.violations:
            ev['violations'] = [{'key': k, 'what': t[:2000]} for k, t in self.violations]
        ev['known_findings_seen'] = [k for k, _ in self.known]
        try:
            json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
        except OSError as e:
            print('cannot write evidence: %s' % e)
        seen = set()
        for k, t in self.known:
            if k not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, k))
                seen.add(k)
        if self.violations:
            path = os.path.join(rd, '%s.txt' % pid)
            with open(path, 'w') as f:
                for k, t in self.violations:
                    f.write('== %s\n%s\n' % (k, t))
            for k, t in self.violations[:20]:
                print('  violated: %s: %s' % (k, t[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('%s: held; %s' % (pid, json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, str))})[:600]))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key = rest.split(' -- ')[0].strip()
                out.append({'key': key, 'text': rest})
    return out


def main(fn):
    try:
        sys.exit(fn())
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        sys.exit(3)
