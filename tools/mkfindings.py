#!/usr/bin/env python3
"""Adds a fixed entry to known_findings.json for every fix: commit of /repo that is not listed.  tools/fixprops.json maps subject -> property."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + '/tools/fixprops.json'))
known = [f for f in json.load(open(V + '/known_findings.json'))['findings'] if f['status'] != 'fixed'] if os.path.exists(V + '/known_findings.json') else []
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n'):
    if ' fix:' not in l: continue
    h, s = l.split(' ', 1)
    s = s[4:].strip()
    if s not in m: print('no property for', s); continue
    out.append({'status': 'fixed', 'property': m[s], 'commit': h, 'what': s, 'entry': f'fixed: property={m[s]} {h} {s}'})
json.dump({'findings': known + out}, open(V + '/known_findings.json', 'w'), indent=1)
print(len(known), 'known', len(out), 'fixed')
