#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['prop'] for n in NA if 'prop' in n]:
        d = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh ' + p['id'],
        'thorough_cmd': './run.sh ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
     'notes': 'One static analyser (checker/, Go, go/types + go/ssa) decides every property from /repo\'s current source; run.sh builds it and runs the named check. Nothing of /repo is executed.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import subprocess
subprocess.check_call([sys.executable, os.path.join(root, 'tools', 'design.py')])
