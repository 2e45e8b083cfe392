#!/usr/bin/env python3
"""Write MANIFEST.json from the plans and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.plans import PLANS

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
missing = {}
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': PLANS[i].technique,
        'level': PLANS[i].level,
        'level_note': PLANS[i].note,
    } for i in ids if i in PLANS],
    'not_applicable': [{'property': i, 'reason': missing.get(i, 'no check yet')} for i in ids if i not in PLANS],
    'notes': 'The specification is in Quint (spec/*.qnt). The checks need no hooks in /repo.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
