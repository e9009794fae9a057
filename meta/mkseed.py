#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from meta/seeds.py; mkseed.py [ids...]  (--test: demos on clean and changed scratch copies)"""
import os, sys, subprocess, json, shutil, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
test = '--test' in sys.argv
W = '/tmp/seedwt'
DEMO = '''#!/bin/bash
# builds demo.cpp against the sources in the current directory; exit 0 when the property holds
d=$(mktemp -d)
trap 'rm -r -- "$d"' EXIT
printf '#pragma once\\n#include <muu/preprocessor.h>\\n#undef MUU_FMA_BLOCK\\n#define MUU_FMA_BLOCK static_assert(true)\\n' > "$d/prelude.h"
clang++ -std=c++%s -O1 -w -I include -include "$d/prelude.h" %s "$(dirname "$0")/demo.cpp" %s -o "$d/demo" %s || exit 3
timeout 120 "$d/demo"
'''
if test:
    subprocess.run(['rm', '-rf', W]); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
for s in SEEDS:
    if ids and s['id'] not in ids: continue
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    patch = ''
    for f, edits in s['edits'].items():
        a = open('/repo/' + f).read()
        b = a
        for old, new in edits:
            assert b.count(old) == 1, (s['id'], f, b.count(old), old)
            b = b.replace(old, new)
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(
            l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
            for l in difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    if s.get('script'): open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + s['script'])
    else: open(d + '/demo.sh', 'w').write(DEMO % (s.get('std', '17'), s.get('flags', ''), ' '.join(s.get('srcs', [])), s.get('libs', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if test:
        r0 = subprocess.run([d + '/demo.sh'], cwd=W, capture_output=True, text=True)
        p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, capture_output=True, text=True)
        r1 = subprocess.run([d + '/demo.sh'], cwd=W, capture_output=True, text=True)
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and p.returncode == 0
        print(s['id'], 'ok' if ok else 'BAD', r0.returncode, p.returncode, r1.returncode, '' if ok else (p.stderr + r0.stderr + r1.stderr)[:1500])
    else:
        print(s['id'])
