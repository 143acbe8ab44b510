#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and spec.py (developer tool; outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from spec import SPEC
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
ids = [p['id'] for p in PROPS]
checks = []
for i in ids:
    if i not in SPEC: continue
    s = SPEC[i]; p = next(p for p in PROPS if p['id'] == i)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': s.get('technique', 'property-based testing: ' + p['tech']), 'level': s.get('level', 'exploration'),
        'level_note': p.get('note', 'Holds on every generated case; a failure is shrunk and its replay file reproduces it. Trusts the oracle in harness/ and the compiler (gcc, ASan build).')})
claimed = {c['property'] for c in checks}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'Every check configures /repo with cmake into /verif/build (git-ignored) and compiles its generators and oracles against /repo\'s working tree. No hooks in /repo.'}
assert claimed | {n['property'] for n in NOT_APPLICABLE} == set(ids), set(ids) - claimed
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(ids), 'properties,', len(checks), 'checks')
