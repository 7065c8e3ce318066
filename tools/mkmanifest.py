#!/usr/bin/env python3-vt
"""Writes MANIFEST.json: every property with a checks/cNN.py is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TEC = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t = TEC[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                       'technique': t['technique'], 'level': 'model_checking', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'hooks': {'guard': 'XCC_VERIF', 'enable': 'none needed: no hooks are used', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC and bound to the real tools by replaying specification behaviours (see DESIGN.md).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
