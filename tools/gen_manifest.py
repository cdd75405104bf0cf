#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks in lib/checks.py and the notes below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = checks.NOT_APPLICABLE
out = []
na = []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        tech, note = checks.describe(i)
        out.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i, 'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check of this property yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': out, 'not_applicable': na,
           'notes': 'Static analysis of the compiler\'s MIR of /repo\'s current tree; no hooks in /repo are used.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'claimed', len(na), 'not')
