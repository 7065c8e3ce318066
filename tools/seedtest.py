#!/usr/bin/env python3
"""seedtest.py [--check-only] ID...: confirm planted bugs in scratch copies and run their check (development tool)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def passed(f):
    x = json.load(open(f))
    for k in ('passed', 'passes', 'stable', 'tests'):
        if k in x: return set(x[k] if not isinstance(x[k], dict) else [n for n, v in x[k].items() if v in ('pass', 'passed', True)])
args = sys.argv[1:]
only = '--check-only' in args
args = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
for i in args:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    w = f'/tmp/seedtest-{i}'
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + '-vp', ignore_errors=True)
    sh(f'cp -a /repo {w} && cp -a /opt/vp {w}-vp && sed -i "s#/repo#{w}#g; s#/opt/vp#{w}-vp#g" {w}-vp/*.sh {w}-vp/*.py')
    r = sh(f'git -C {w} apply {d}/patch.diff')
    res = [i, meta['property']]
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout.decode()); continue
    if not only:
        r = sh(f'bash {w}-vp/build.sh')
        if r.returncode: print(i, 'BUILD FAILS', r.stdout.decode()[-800:]); continue
        sh(f'bash {w}-vp/test.sh {w}-vp/out.json')
        bad = passed('/opt/vp/BASELINE.json') - passed(f'{w}-vp/out.json')
        res.append('tests ok' if not bad else f'TESTS FAIL {sorted(bad)[:4]}')
        r = sh(f'timeout 300 bash {d}/demo.sh', cwd='/repo'); res.append(f'demo clean {r.returncode}')
        if r.returncode: print(r.stdout.decode()[-500:])
        r = sh(f'timeout 300 bash {d}/demo.sh', cwd=w); res.append(f'demo bug {r.returncode}')
    t = time.time()
    r = sh(f'python3 check.py {meta["property"]} quick', cwd=V, env=dict(os.environ, VERIF_REPO=w))
    out = r.stdout.decode('utf-8', 'replace')
    res.append('CAUGHT' if r.returncode == 1 and f'VIOLATION property={meta["property"]}' in out else f'MISSED rc={r.returncode}')
    res.append(f'{time.time()-t:.0f}s')
    if r.returncode not in (0, 1): res.append(out[-500:])
    print(*res, sep=' | ', flush=True)
    if '-v' in sys.argv: print(out[-1500:])
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + '-vp', ignore_errors=True)
