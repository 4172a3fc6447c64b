#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_CLAIMED
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks = []
for p in ids:
    i = p['id']
    if i not in PROPS:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': PROPS[i].get('technique', 'TLA+ specification (spec/DspVec.tla) checked with TLC; histories enumerated by TLC are replayed on the library, and recordings of the library are validated against the specification with TLC'),
        'level': 'model_checking',
        'level_note': PROPS[i].get('note', 'Exhaustive over the small constants given in DESIGN.md for the specification itself; the library is bound by conformance of every replayed and recorded call (returned value, error, state, data of all slots), so changes are seen for the inputs and histories which are generated. Trusts the projection in harness/vecdrv and TLC.')})
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NOT_CLAIMED.get(p['id'], 'Specification and driver for this part are being built; not claimed yet.')} for p in ids if p['id'] not in PROPS],
     'notes': 'See DESIGN.md. Fixed defects and findings: known_findings.txt.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
