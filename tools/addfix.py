#!/usr/bin/env python3
"""addfix.py PROP... : maps the newest unmapped fix: subjects (in order) to the given properties and regenerates known_findings.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + '/tools/fixprops.json'
m = json.load(open(f))
new = [l[4:].strip() for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%s'], capture_output=True, text=True).stdout.split('\n') if l.startswith('fix:') and l[4:].strip() not in m]
for s, p in zip(new, sys.argv[1:]): m[s] = p; print(p, s)
json.dump(m, open(f, 'w'), indent=1)
subprocess.run([sys.executable, V + '/tools/mkfindings.py'])
