"""C21: the compiler driver (spec/CDriver.tla): every reachable end of the driver's state machine
is compared with what the driver does, tools being replaced by stand-ins that fail as planned."""
import os, shutil, signal, stat
import harness as H

OLD = 'old contents\n'
CHAIN = {'E': ['cpp'], 'S': ['cpp', 'cc1'], 'c': ['cpp', 'cc1', 'as'], 'x': ['cpp', 'cc1', 'as']}
def chain(k, mode): return CHAIN[mode] if k == 'c' else ['as'] if k == 's' and mode in 'cx' else []

NAMES = ['m{}', 'a{}b', 'x.{}', 'dir/m{}', 'dir.d/n{}', 'sp ace{}', '_{}', 'M{}', 'o{}', 'dir/../k{}', './q{}']

def gen(r):
    mode = r.choice('ESScccxxxx')
    n = r.choice([1, 1, 2, 3, 4]) if mode != 'x' else r.choice([1, 2, 2, 3, 4, 5])
    c = dict(mode=mode, srcs=[], args=[], files={}, stdin=b'', old=[])
    args = []
    K = None; HV = None; werror = False; xc = False
    if r.random() < .4:
        K = r.choice([1, 5, 9]); args.append(r.choice([['-D', f'K={K}'], [f'-DK={K}']] + ([['-DK']] if K == 1 else [])))
    hdr = r.random() < .4
    if hdr:
        ds = r.sample(['inc1', 'inc2', 'noinc'], r.choice([1, 2, 3]))
        hv = {'inc1': 2, 'inc2': 3}
        HV = next((hv[d] for d in ds if d in hv), None)
        args.append([a for d in ds for a in r.choice([['-I', d], ['-I' + d]])])
        for d, v in hv.items(): c['files'][d + '/hv.h'] = f'#define HV {v}\n'
    if r.random() < .25: args.append(['-Wall', '-Werror']); werror = True
    if r.random() < .3: args.append([r.choice(['-O1', '-O2', '-Os', '-g', '-std=c11', '-fno-such', '-pedantic'])])
    if r.random() < .15: args.append(['-x', 'c']); xc = True
    names = set()
    def name():
        while True:
            t = r.choice(NAMES).format(r.randrange(30))
            if os.path.basename(t).split('.')[0] not in {os.path.basename(x).split('.')[0] for x in names} and os.path.normpath(t) not in {os.path.normpath(x) for x in names}: names.add(t); return t
    kinds = [r.choice('cccss' if mode in 'cx' else 'ccccs') for _ in range(n)]
    if mode == 'x' or r.random() < .2: kinds += r.choices('oal', k=r.choice([0, 0, 1, 2]))
    if r.random() < .05: kinds.insert(r.randrange(n + 1), 'unk')
    mi = kinds.index('c') if 'c' in kinds and (mode == 'x' or r.random() < .15) else None
    if mode == 'x' and r.random() < .04: mi = None
    fcount = 0
    def bigtext(i): return ''.join(f'static int z{i}_{j}(int x) {{ return x * {j} + 1; }}\nint y{i}_{j}(int x) {{ return z{i}_{j}(x); }}\n' for j in range(r.choice([40, 600, 1500])))
    libdirs = False
    bad_at = None
    for i, k in enumerate(kinds, 1):
        nm = name(); s = dict(k=k, own=[], out='', defs=[], refs=[], vals=[], big=False)
        f = f'f{i}'; v = 10 * i
        if k in 'cs' or k == 'unk':
            ch = chain('c' if k == 'unk' else k, mode)
            own = r.choice(ch) if ch and r.random() < .1 else None
            if own == 'as' and k == 'c' and mode not in 'cx': own = None
        else: own = 'ld' if mode == 'x' and r.random() < .05 else None
        if k == 'unk':
            s['path'] = r.choice(['foo.xyz', 'noext', 'dir.c/foo', 'foo.', 'foo.cc'])
            if xc: s['k'] = k = 'c'; nm = None
        if k == 'c':
            if nm: s['path'] = nm + r.choice(['.c', '.c', '.c', '.C'])
            if nm and xc and r.random() < .4 and not any(x.get('path') == '-' for x in c['srcs']): s['path'] = '-'
            t = '#ifndef K\n#define K 0\n#endif\n'; val = v + 1000 * (K or 0)
            if hdr and r.random() < .7:
                t += r.choice(['#include "hv.h"\n', '#include <hv.h>\n'])
                if HV is None: s['own'].append('cpp')
                else: val += 10000 * HV
            else: t += '#undef HV\n#define HV 0\n'
            s['big'] = r.random() < .1
            if s['big'] and r.random() < .5: t += bigtext(i)
            bad = {'cpp': ['#error no\n', '#include "nothing.h"\n', '#if 1\n', '#if )\n#endif\n'], 'cc1': ['int g(void) { return nothing; }\n', 'int 3x;\n', 'int h(void) { return 1 }\n', 'int a[-1];\n'],
                   'as': ['void g(void) { __asm("bogus %eax, %ebx"); }\n', 'void g(void) { __asm("mov %eax"); }\n']}
            if own and r.random() < .3 and own == 'cpp' and s['path'] != '-': s['own'].append('cpp'); s['missing'] = True
            elif own: s['own'].append(own); t += r.choice(bad[own])
            if werror and r.random() < .2 or (not werror and r.random() < .1):
                t += f'int w{i}(void) {{ int unused; return 0; }}\n'
                if werror and mode != 'E': s['own'].append('cc1')
            if i - 1 == mi:
                s['ismain'] = True
            else:
                t += f'int {f}(void) {{ return {v} + 1000 * K + 10000 * HV; }}\n'
                s['defs'], s['vals'] = [f], [val]
            if s['big'] and 'y%d_0' % i not in t: t += bigtext(i)
            s['text'] = t
        elif k == 's':
            s['path'] = nm + r.choice(['.s', '.s', '.S'])
            t = f'\t.text\n\t.globl {f}\n{f}:\n\tmov ${v}, %eax\n\tret\n'
            if own == 'as':
                s['own'].append('as')
                if r.random() < .3: s['missing'] = True
                else: t += r.choice(['\tbogus %eax\n', '\tmov %eax\n', '\tmov $1, $2\n'])
            s['defs'], s['vals'] = [f], [v]; s['text'] = t
        elif k in 'oal':
            s['path'] = nm + '.o' if k == 'o' else nm + '.a' if k == 'a' else f'vf{i}'
            if own: s['own'].append('ld'); s['missing'] = True
            s['defs'], s['vals'] = [f], [v]; s['text'] = f'int {f}(void) {{ return {v}; }}\n'
            if k == 'l': libdirs = True
        c['srcs'].append(s)
    allf = [d for s in c['srcs'] for d in s['defs']]
    dup = mode == 'x' and r.random() < .05
    cand = [s for s in c['srcs'] if s['k'] in 'co' and s['defs']]
    if dup and len(cand) > 1:
        a, b = r.sample(cand, 2); b['text'] = b['text'].replace(b['defs'][0] + '(', a['defs'][0] + '('); b['defs'] = list(a['defs'])
        allf = [d for s in c['srcs'] for d in s['defs']]
    if mi is not None:
        s = c['srcs'][mi]
        refs = list(dict.fromkeys(allf)); r.shuffle(refs)
        # a library's function may be left unused
        libs = [d for x in c['srcs'] if x['k'] in 'al' for d in x['defs']]
        for d in libs:
            if r.random() < .3: refs.remove(d)
        if mode == 'x' and r.random() < .05: refs.append('nothere')
        s['refs'] = refs; s['defs'], s['vals'] = ['main'], [0]
        s['text'] += '#include <stdio.h>\n' + ''.join(f'extern int {x}(void);\n' for x in refs) + 'int main(void) {\n' + ''.join(f'  printf("%d ", {x}());\n' for x in refs) + '  return 0; }\n'
        missing = [x for x in c['srcs'] if x['k'] in 'al' and 'ld' in x['own']]
    # outputs
    nout = sum(1 for s in c['srcs'] if s['k'] in ('c', 's', 'unk'))
    named = r.random() < (.5 if mode == 'x' or nout == 1 else .03)
    exe = dict(name='a.out', can=True); o = None
    if named:
        o = r.choice(['out', 'out.o', 'res.x', 'dir/out', 'nodir/out', 'o ut'])
        if mode == 'S' and r.random() < .2: o = '-'
    if mode == 'x':
        if o: exe = dict(name=o, can=not o.startswith('nodir'))
    for s in c['srcs']:
        if not chain(s['k'], mode): continue
        if mode in 'Sc':
            b = os.path.basename(s['path']); b = b[:b.rindex('.')] if '.' in b else b
            s['out'] = o if o not in (None, '-') else '' if o == '-' else b + ('.s' if mode == 'S' else '.o')
        elif mode == 'E': s['out'] = o or ''
        if mode != 'x' and s['out'].startswith('nodir'): s['own'].append('as' if mode == 'c' else 'cpp')
        if s['path'] == '-' and mode == 'S' and o is None: s['out'] = '-.s'
    if o: args.append(r.choice([['-o', o], ['-o' + o]]))
    if mode != 'x': args.append(['-' + mode])
    if libdirs: args.append(r.choice([['-L', 'libs'], ['-Llibs']]))
    outs = sorted({s['out'] for s in c['srcs'] if s['out']} | ({exe['name']} if mode == 'x' else set()))
    c['old'] = [x for x in outs if not x.startswith('nodir') and r.random() < .3]
    # a fault
    fault = dict(i=-1, stage='none'); plan = None
    if r.random() < .6 and not any(s['own'] or s['k'] == 'unk' for s in c['srcs']):
        inst = [(i, st) for i, s in enumerate(c['srcs'], 1) for st in chain(s['k'], mode)]
        if mode == 'x': inst += [(0, 'ld')]
        if inst:
            i, st = r.choice(inst)
            nth = 1 if i == 0 else 1 + sum(1 for s in c['srcs'][:i - 1] if st in chain(s['k'], mode))
            s = c['srcs'][i - 1] if i else None
            last = i == 0 or (chain(s['k'], mode)[-1] == st and (s['out'] or mode == 'x'))
            when = r.choice(['start', 'mid', 'mid', 'end'] + (['write', 'write'] if last else []))
            how = r.choice([1, 2, 3, 255, 128, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGKILL, -signal.SIGTERM])
            lim = r.choice([0, 1, 20]) if st in ('cpp', 'cc1') else r.choice([0, 1, 64, 300]) if st == 'as' else r.choice([0, 100, 4000])
            if s and s['big'] and r.random() < .5: lim = r.choice([1000, 4095, 4096, 4097]) if st != 'cpp' else 1000
            fault = dict(i=i, stage=st); plan = f'{st}:{nth}:{when}:{how}:{lim}'
    c['fault'], c['plan'], c['named'], c['exe'] = fault, plan, o is not None, exe
    # the command line: options anywhere, inputs in order
    inputs = [[r.choice(['-l' + s['path'], '-l' + s['path'], ('-l', s['path'])])] if s['k'] == 'l' else [s['path']] for s in c['srcs']]
    inputs = [[y for x in q for y in (x if isinstance(x, tuple) else (x,))] for q in inputs]
    slots = [[] for _ in range(len(inputs) + 1)]
    for a in args: slots[r.randrange(len(slots))].append(a)
    if r.random() < .5: slots[0] = sum(slots, []); slots[1:] = [[] for _ in slots[1:]]
    cmd = []
    for j, sl in enumerate(slots):
        for a in sl: cmd += a
        if j < len(inputs): cmd += inputs[j]
    c['cmd'] = cmd
    return c

def tla(c):
    return dict(mode=c['mode'], named=c['named'], exe=c['exe'], fault=c['fault'], old=c['old'],
                srcs=[{k: s[k] for k in ('k', 'own', 'out', 'defs', 'refs', 'vals')} for s in c['srcs']])

class Tools:
    def __init__(self):
        self.b = H.build()
        d = self.dir = H.mkdir('tools')
        stub = os.path.join(d, 'stub')
        rc, o, e = H.run(['gcc', '-O1', '-o', stub, os.path.join(H.VERIF, 'lib', 'drvstub.c')], timeout=60)
        if rc != 0: raise RuntimeError(e)
        shutil.copy2(os.path.join(self.b, 'xcc'), os.path.join(d, 'xcc'))
        for t in ('cpp', 'cc1', 'as', 'ld'): shutil.copy2(stub, os.path.join(d, t))
        for x in ('include', 'lib'): os.symlink(os.path.join(self.b, x), os.path.join(d, x))
        self.xcc, self.real = os.path.join(d, 'xcc'), os.path.join(self.b, 'xcc')

def snapshot(d):
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            res[os.path.relpath(q, d)] = (open(q, 'rb').read() if stat.S_ISREG(os.lstat(q).st_mode) else 'special')
    return res

def setup(t, c, d):
    os.makedirs(d, exist_ok=True)
    for x in ('dir', 'dir.d', 'dir.c', 'inc1', 'inc2', 'libs'): os.makedirs(os.path.join(d, x), exist_ok=True)
    for f, x in c['files'].items(): open(os.path.join(d, f), 'w').write(x)
    stdin = b''
    for s in c['srcs']:
        if s.get('missing') or 'text' not in s: continue
        p = os.path.join(d, s['path'])
        if s['path'] == '-': stdin = s['text'].encode()
        elif s['k'] in 'oal':
            tmp = os.path.join(d, 'libs', 'tmp_.c'); open(tmp, 'w').write(s['text'])
            obj = p if s['k'] == 'o' else tmp[:-1] + 'o'
            rc, o, e = H.run([t.real, '-c', '-o', obj, tmp], cwd=d)
            if rc != 0: return None
            if s['k'] != 'o':
                ar = p if s['k'] == 'a' else os.path.join(d, 'libs', f'lib{s["path"]}.a')
                H.run(['ar', 'rcs', ar, obj]); os.unlink(obj)
            os.unlink(tmp)
        else: open(p, 'w').write(s['text'])
    for o in c['old']: open(os.path.join(d, o), 'w').write(OLD)
    return stdin

def works(t, c, idx, path, kind, w):
    """is the output of the inputs idx (preprocessed text, assembly or object at path) right: finish it and run it"""
    os.makedirs(w, exist_ok=True)
    x = os.path.join(w, 'thing' + {'E': '.c', 'S': '.s', 'c': '.o'}[kind]); shutil.copyfile(path, x)
    ss = [c['srcs'][i - 1] for i in idx]
    main = next((s for s in ss if s.get('ismain')), None)
    pairs = [(f, v) for s in ss for f, v in zip(s['defs'], s['vals']) if f != 'main']
    y = os.path.join(w, 'fin.c')
    vals = {f: v for s in c['srcs'] for f, v in zip(s['defs'], s['vals'])}
    with open(y, 'w') as fp:
        if main is None:
            fp.write('#include <stdio.h>\n' + ''.join(f'extern int {f}(void);\n' for f, _ in pairs) + 'int main(void) {' + ''.join(f' printf("%d ", {f}());' for f, _ in pairs) + ' return 0; }\n')
            exp = ''.join(f'{v} ' for _, v in pairs)
        else:
            have = {f for f, _ in pairs}
            fp.write(''.join(f'int {f}(void) {{ return {vals.get(f, 4)}; }}\n' for f in main['refs'] if f not in have) or 'int dummy;\n')
            exp = ''.join(f'{vals.get(f, 4)} ' for f in main['refs'])
    z = os.path.join(w, 'fin')
    rc, o, e = H.run([t.real, '-o', z, y, x], cwd=w, timeout=30)
    if rc != 0: return False
    rc, o, e = H.run([z], cwd=w)
    return rc == 0 and o.decode(errors='replace') == exp

def execute(t, c, d):
    """-> (observed outcome, list of other complaints)"""
    w = d + '.w'
    stdin = setup(t, c, d)
    if stdin is None: return None, []
    before = snapshot(d)
    log = d + '.log'
    env = {'PATH': os.environ.get('PATH', ''), 'VF_REAL': t.b, 'VF_LOG': log}
    if c['plan']: env['VF_PLAN'] = c['plan']
    rc, out, err = H.run([t.xcc] + c['cmd'], cwd=d, env=env, stdin=stdin, timeout=30)
    if rc == 'timeout': return dict(zero=None), ['the driver does not end']
    runs = [l.split(' ', 2) for l in open(log, errors='replace').read().splitlines()] if os.path.exists(log) else []
    runs = [q for q in runs if q[0] in ('cpp', 'cc1', 'as', 'ld')]
    after = snapshot(d)
    zero = rc == 0
    bad = []
    outs = {s['out'] for s in c['srcs']} | ({c['exe']['name']} if c['mode'] == 'x' else set())
    norm = {os.path.normpath(x) for x in outs if x}
    for f in sorted(set(before) | set(after)):
        if os.path.normpath(f) in norm: continue
        if f not in after: bad.append(f'{f} has been removed')
        elif f not in before: bad.append(f'{f} is left behind')
        elif before[f] != after[f]: bad.append(f'{f} has been changed')
    known = norm | {os.path.normpath(s['path']) for s in c['srcs'] if 'path' in s}
    for l in open(log, errors='replace').read().splitlines() if os.path.exists(log) else []:
        for a in l.split(' '):
            if a.startswith('/tmp/') and a.endswith('.o') and not a.startswith(H.scratch()) and os.path.exists(a): bad.append(f'temporary file {a} is left behind'); os.unlink(a)
    fcls = {}
    for o in sorted(outs | {c['exe']['name']}):
        p = os.path.join(d, o)
        if o == '' or not os.path.exists(p): fcls[o] = 'absent'
        elif open(p, 'rb').read() == OLD.encode(): fcls[o] = 'old'
        elif c['mode'] == 'x':
            rc2, o2, e2 = H.run([p], cwd=d)
            fcls[o] = 'new'; c['_prints'] = (rc2, o2.decode(errors='replace'))
        else:
            idx = [i for i, s in enumerate(c['srcs'], 1) if s['out'] == o and chain(s['k'], c['mode'])]
            fcls[o] = 'new' if works(t, c, idx, p, c['mode'], w) else 'broken'
    cnt = {s: sum(1 for q in runs if q[0] == s) for s in ('cpp', 'cc1', 'as', 'ld')}
    return dict(zero=zero, files=fcls, out=out, cnt=cnt, rc=rc, err=err), bad

def compare(t, c, outs, obs, w):
    """-> None, or what is wrong"""
    why = []
    for o in outs:
        if o['zero'] != obs['zero']: why.append(f'exit status {obs["rc"]}, expected {"zero" if o["zero"] else "non-zero"}'); continue
        df = [f'{n or "(stdout)"} is {obs["files"].get(n)}, expected {v}' for n, v in (o['files'] or {}).items() if n != '' and obs['files'].get(n, 'absent') != v]
        if df: why.append('; '.join(df)); continue
        if not o['zero']: return None
        if any(o['ran'][s] != obs['cnt'][s] for s in o['ran']): why.append(f'stages run {obs["cnt"]}, expected {o["ran"]}'); continue
        if c['mode'] == 'x':
            exp = ''.join(f'{v} ' for v in o['prints'])
            if c['_prints'] != (0, exp): why.append(f'the program prints {c["_prints"]}, expected {exp!r}'); continue
        elif o['text']:
            os.makedirs(w, exist_ok=True); p = os.path.join(w, 'text'); open(p, 'wb').write(obs['out'])
            if not works(t, c, o['text'], p, c['mode'], w): why.append('standard output is not the requested text'); continue
        elif obs['out']: why.append('unexpected standard output'); continue
        return None
    return ' / '.join(dict.fromkeys(why))

def special(t, chk):
    """an output that is not a regular file is not removed, whatever happens"""
    d = H.mkdir('special')
    open(os.path.join(d, 'e.c'), 'w').write('int f(void) { return nothing; }\n'); open(os.path.join(d, 'p.c'), 'w').write('#error x\n'); open(os.path.join(d, 's.s'), 'w').write('\tbogus\n')
    fifo = os.path.join(d, 'fifo'); os.mkfifo(fifo)
    fd = os.open(fifo, os.O_RDWR | os.O_NONBLOCK)
    for i, cmd in enumerate([['-c', 'e.c'], ['-c', 'p.c'], ['-S', 'e.c'], ['-E', 'p.c'], ['-c', 's.s'], ['e.c'], ['p.c'], ['-c', 'none.c'], ['-c', 'none.s']]):
        rc, o, e = H.run([t.xcc, '-o', 'fifo'] + cmd, cwd=d, env={'PATH': os.environ.get('PATH', ''), 'VF_REAL': t.b, 'VF_LOG': d + '.log'})
        try: os.read(fd, 1 << 16)
        except OSError: pass
        chk.add('special_files')
        if rc == 0 or not os.path.exists(fifo):
            chk.violation(f'special-{i}', f'xcc -o fifo {" ".join(cmd)}: exit {rc}, the fifo {"is there" if os.path.exists(fifo) else "has been removed"}', {'e.c': open(os.path.join(d, 'e.c')).read()})
            if not os.path.exists(fifo): os.mkfifo(fifo); os.close(fd); fd = os.open(fifo, os.O_RDWR | os.O_NONBLOCK)
    os.close(fd)

def main(chk):
    t = Tools()
    rounds, n = (1, 420) if chk.quick() else (8, 1200)
    for rd in range(rounds):
        cases = [gen(chk.rng) for _ in range(n)]
        outs = H.spec_outcomes('CDriver', [tla(c) for c in cases], chk)
        base = H.mkdir(f'r{rd}')
        def one(i):
            c = cases[i]; d = os.path.join(base, f'k{i}')
            obs, bad = execute(t, c, d)
            res = None
            if obs is not None and obs['zero'] is not None: res = compare(t, c, outs[i], obs, d + '.v')
            for x in (d, d + '.w', d + '.v'): shutil.rmtree(x, ignore_errors=True)
            return obs, bad, res
        for i, (obs, bad, res) in enumerate(H.pmap(one, range(n))):
            c = cases[i]
            if obs is None: continue
            chk.add('driver_runs'); chk.add('faults_injected', 1 if c['plan'] else 0)
            chk.add('failures_seen', 0 if obs.get('zero') else 1)
            if bad or res:
                desc = f'xcc {" ".join(c["cmd"])}  [fault {c["plan"]}, own {[s["own"] for s in c["srcs"]]}]: {"; ".join(bad + ([res] if res else []))}'
                files = {s['path'].replace('/', '_'): s.get('text', '') for s in c['srcs'] if 'path' in s}
                files['case.json'] = __import__('json').dumps({**tla(c), 'cmd': c['cmd'], 'plan': c['plan']})
                files['stderr.txt'] = obs.get('err', b'').decode(errors='replace')
                chk.violation(f'driver-{rd}-{i}', desc, files)
            elif i < 3: chk.sample('xcc ' + ' '.join(c['cmd']) + f' fault={c["plan"]} -> {obs["files"]} exit {obs["rc"]}')
        shutil.rmtree(base, ignore_errors=True)
    special(t, chk)
    chk.add('traces_validated_against_impl', n * rounds)
