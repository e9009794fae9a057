#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        c = 'python3-vt checks/run.py ' + p['id']
        checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c, 'technique': p['technique'],
                       'level': p.get('level', 'other'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: every check reads the unmodified headers and sources. DESIGN.md describes the engines, the rules and the findings.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    s = p['statement'].rstrip('.').split('. ')
    assert len(s) <= 3, (p['id'], len(s))
    for x in p['files']:
        assert os.path.exists('/repo/' + x), x
assert len({p['id'] for p in PROPS}) == len(PROPS)
print(len(checks), 'claimed;', len(na), 'not applicable')
