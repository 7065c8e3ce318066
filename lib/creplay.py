"""Run programs through the abstract machine (TLC) and replay its behaviours on the real compilers."""
import json, os
import harness as H
import cast

def spec_run(progs, chk=None, timeout=600):
    """-> list of dict(taken, out, ub) in program order"""
    f = os.path.join(H.scratch(), f'progs-{id(progs)}.json')
    with open(f, 'w') as fp:
        json.dump([p.spec() for p in progs], fp)
    t = H.tlc('CRun', env={'PROGS': f}, timeout=timeout)
    os.unlink(f)
    res = {r['pid']: r for r in t.json_lines()}
    if len(res) != len(progs):
        raise H.ModelError(f'spec reported {len(res)} of {len(progs)} programs\n' + t.out[-3000:])
    if chk:
        chk.add('states', t.distinct)
        chk.add('transitions', t.generated)
    return [res[i + 1] for i in range(len(progs))]

class Target:
    """ccs: one compiler command per translation unit when the program is compiled in separate units"""
    def __init__(self, name, tg, cc, flags=(), ccs=None, link=None):
        self.name, self.tg, self.cc, self.flags, self.ccs, self.link = name, tg, cc, list(flags), ccs, link

def targets(b, names):
    d = {
        'x64': Target('x64', 'x64', os.path.join(b, 'xcc')),
        'x64-ssa': Target('x64-ssa', 'x64', os.path.join(b, 'xcc'), ['--apply-ssa']),
        'x64-O': Target('x64-O', 'x64', os.path.join(b, 'xcc'), ['-O2']),
        'wasm': Target('wasm', 'wasm', os.path.join(b, 'wcc')),
        'gcc': Target('gcc', 'x64', 'gcc', ['-w', '-O0', '-fwrapv']),
        'clang': Target('clang', 'x64', 'clang', ['-w', '-O1']),
    }
    x, w, g = [d['x64'].cc], [d['wasm'].cc], ['gcc', '-w', '-O1', '-fno-stack-protector', '-fcf-protection=none']
    gl = ['gcc', '-no-pie', '-Wl,-z,noexecstack']
    c = ['clang', '-w', '-O1']
    for nm, cs, ln in (('xcc+xcc', (x, x), x), ('xcc+gcc', (x, g), gl), ('gcc+xcc', (g, x), gl), ('xcc+clang', (x, c), gl),
                       ('clang+xcc', (c, x), gl), ('ssa+xcc', (x + ['--apply-ssa'], x), x)):
        d[nm] = Target(nm, 'x64', ln[0], (), cs, ln)
    d['wcc+wcc'] = Target('wcc+wcc', 'wasm', w[0], (), (w, w), w)
    return [d[n] for n in dev_targets(names) if d[n].tg == d[names[0]].tg]

def compile_run(tgt, src, tag, timeout=10):
    """src text -> (status, lines); status 'ok' or a description"""
    d = H.mkdir('replay')
    c = os.path.join(d, f'{tag}.c')
    o = os.path.join(d, f'{tag}.{"wasm" if tgt.tg == "wasm" else "exe"}')
    if isinstance(src, list):
        objs = []
        for i, t in enumerate(src):
            ci, oi = os.path.join(d, f'{tag}-{i}.c'), os.path.join(d, f'{tag}-{i}.o')
            with open(ci, 'w') as fp: fp.write(t)
            rc, out, err = H.run([*tgt.ccs[i], '-c', '-o', oi, ci], timeout=30)
            os.unlink(ci)
            if rc != 0 or not os.path.exists(oi):
                return ('compile', rc or 'no object', err.decode('utf-8', 'replace')[-1500:])
            objs.append(oi)
        rc, out, err = H.run([*tgt.link, '-o', o, *objs], timeout=30)
        for f in objs: os.unlink(f)
    else:
      with open(c, 'w') as fp:
        fp.write(src)
      rc, out, err = H.run([tgt.cc, *tgt.flags, '-o', o, c], timeout=30)
    if rc != 0:
        st = ('compile', rc, err.decode('utf-8', 'replace')[-1500:])
        if os.path.exists(c): os.unlink(c)
        return st
    if tgt.tg == 'wasm':
        if os.path.exists(c): os.unlink(c)
        return ('wasm', o, '')
    rc, out, err = H.run([o], timeout=timeout)
    for f in (c, o):
        try: os.unlink(f)
        except OSError: pass
    return ('ran', rc, out.decode('latin1'))

def run_sources(tgt, srcs):
    """list of C texts -> list of ('compile'|'ran', rc, text)"""
    r = H.pmap(lambda t: compile_run(tgt, t[1], f'{tgt.name}-{t[0]}'), enumerate(srcs))
    if tgt.tg == 'wasm':
        idx = [i for i, x in enumerate(r) if x[0] == 'wasm']
        got = H.run_wasm_batch([r[i][1] for i in idx])
        for i, g in zip(idx, got):
            try: os.unlink(r[i][1])
            except OSError: pass
            r[i] = ('ran', g[0], g[1].decode('latin1'))
    return r

def judge(exp, res):
    """expected lines vs result -> None or description"""
    if res[1] == 'skipped': return None
    if res[0] == 'compile':
        return f'compiler failed (status {res[1]}): {res[2][-600:]}'
    lines = [cast.norm_line(l) for l in res[2].split('\n') if l != '']
    if res[1] != 0:
        return f'program ended with status {res[1]} after {len(lines)} of {len(exp)} observations'
    if lines != exp:
        for i in range(max(len(lines), len(exp))):
            a = exp[i] if i < len(exp) else '<none>'
            b = lines[i] if i < len(lines) else '<none>'
            if a != b:
                return f'observation {i}: specification {a}, program {b}'
    return None

def step_of(prog, taken, obs):
    """index of the main step which emits observation number obs"""
    for i, t in enumerate(taken):
        if t > obs: return i
    return None

def replay(chk, progs, tgts, what, spec=None):
    """The whole pipeline for one batch of programs that share tg."""
    spec = spec or spec_run(progs, chk)
    pr = [cast.CP(p) for p in progs]
    exps = []
    for p, c, r in zip(progs, pr, spec):
        if r['ub']:
            raise H.ModelError('undefined start state: ' + r['ub'] + '\n' + c.program()[-3000:])
        exps.append(cast.expected_text(r['out']))
    chk.add('programs', len(progs))
    chk.add('steps_taken', sum(1 for r in spec for t in r['taken'] if t >= 0))
    chk.add('steps_undefined', sum(1 for r in spec for t in r['taken'] if t < 0))
    if os.environ.get('VERIF_DEV_UND'):
        import collections
        print(collections.Counter(u for r in spec for u in r['und']))
    chk.add('observations', sum(len(e) for e in exps))
    bad = 0
    for tgt in tgts:
        if tgt.ccs: srcs = [c.units(r['taken'], p.meta.get('units')) for p, c, r in zip(progs, pr, spec)]
        else: srcs = [c.program(r['taken']) for c, r in zip(pr, spec)]
        res = run_sources(tgt, srcs)
        chk.add('traces_validated_against_impl', len(res))
        for p, c, r, e, s, x in zip(progs, pr, spec, exps, srcs, res):
            d = judge(e, x)
            if d is None:
                continue
            x2 = run_sources(tgt, [s])[0]             # must repeat
            if judge(e, x2) is None:
                chk.log(f'not repeated, ignored: {d}')
                continue
            stmt = ''
            if d.startswith('observation '):
                i = step_of(p, r['taken'], int(d.split()[1].rstrip(':')))
                if i is not None:
                    stmt = c.s(p.main[i]).strip()
            bad += 1
            chk.violation(f'{what} {tgt.name} {p.meta.get("key", "")} :: {stmt[:300]}', d,
                          {**({'prog.c': s} if isinstance(s, str) else {f'unit{i}.c': t for i, t in enumerate(s)}), 'expected.txt': '\n'.join(e) + '\n', 'actual.txt': str(x[2]),
                           'command.txt': ' '.join([tgt.cc, *tgt.flags]) + '\n'})
            if bad > 20:
                return
    if progs:
        k = len(progs) // 2
        srcs = [c.program(r['taken']) for c, r in zip(pr, spec)]
        chk.sample(f'{what}: ' + srcs[k][srcs[k].find('int main'):][:700] + ' => ' + ' '.join(exps[k][:8]))

def dev_targets(names):
    """VERIF_DEV_TARGETS=gcc,clang validates the specification itself during development."""
    return os.environ.get('VERIF_DEV_TARGETS', '').split(',') if os.environ.get('VERIF_DEV_TARGETS') else names
