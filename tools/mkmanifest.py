#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in harness/check.py is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from check import MODULES
from notes import NOTES
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in MODULES:
        n = NOTES[p]
        checks.append({'property': p, 'quick_cmd': 'python3 harness/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 harness/check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': n[1], 'level': n[0], 'level_note': n[2]})
    else: na.append({'property': p, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'sh harness/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
