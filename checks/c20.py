"""C20: scopes, linkage and name spaces (spec/CScope.tla).  The specification decides which events of a
random translation unit C accepts and what every use denotes; the rendered program must print exactly that,
or be rejected without output when it ends in a constraint violation."""
import os
import harness as H
import creplay, libdrv

POOL = ['a', 'b', 'T', 'S', 'x1', 'a_', 'A']
LONG = ['ident', 'Ident', 'identifier_with_a_rather_long_name_that_goes_on_and_on_', '_z', 'x', 'tbl_entry_']

# pairs with equal 32-bit FNV-1a hashes, and names that differ only far from the start
PAIRS = ['FvF0ic A_dr17', 'wo62fB dC2f4e', 'nDbnf3 EFy_hr', 'x1iEFd rAy8Ej', 'yBud81 knd6h6', 'h75krg gmE1s1', 'D1ssnj zjjt3l', 'ywAChr uC9n54']

def gen(r, big=False, goto=True):
    ev = []
    size = [0]
    def sz():
        size[0] += 1
        return 5 + size[0]
    def val():
        size[0] += 1
        return 1 + size[0] % 120
    pool = POOL[:r.choice([2, 3, 4, 7])]
    if big:
        k = r.choice([60, 200, 500]); pool = [f'{r.choice(LONG)}{r.choice([i, i * 8, i * 64, i * 1009])}' for i in range(k)]
        pool = list(dict.fromkeys(pool))
    elif r.random() < .2: pool = [r.choice(LONG) + str(i) for i in range(4)]
    elif r.random() < .1: pool = ' '.join(r.sample(PAIRS, 2)).split()
    elif r.random() < .1: pool = ['n' * r.choice([30, 31, 62, 63, 100, 255]) + x for x in 'abc']
    nm = lambda: r.choice(pool)
    def nm2(): return nm() if r.random() < .7 else ''
    def umem():
        ok = r.random() > .15                                   # distinct names
        left = r.sample(pool, len(pool))
        def mem(depth):
            o = []
            for _ in range(r.choice([1, 2, 3])):
                if depth < 2 and r.random() < .15:
                    x = mem(depth + 1)
                    if x: o.append(dict(n='', s=0, kw=r.choice(['struct', 'union']), sub=x))
                elif not ok or left: o.append(dict(n=left.pop() if ok else nm(), s=r.choice([1, 2, 3, 5, 7]), kw='', sub=[]))
            return o
        return mem(0) or [dict(n=nm(), s=3, kw='', sub=[])]
    kw = lambda: r.choice(['struct', 'struct', 'union'])
    def decl(file):
        x = r.random()
        if x < .45:
            rep = r.choice(['int', 'arr', 'arr', 'base'])
            sp = r.choice(['none', 'none', 'extern', 'static']) if file else r.choice(['none', 'none', 'none', 'static', 'extern'])
            return dict(k='decl', name=nm(), rep=rep, size=r.choice([sz(), sz(), 3]), dim=nm() if rep == 'arr' and r.random() < .25 else '', base=nm(), spec=sp,
                        init=rep != 'base' and sp != 'extern' and (not file or r.random() < .5), val=val(), iuse=nm() if rep == 'int' and r.random() < .3 else '')
        if x < .58: return dict(k='typedef', name=nm(), size=r.choice([sz(), 3]), dim=nm() if r.random() < .2 else '', base=nm() if r.random() < .25 else '')
        if x < .70: return dict(k='enum', tag=nm2(), consts=[dict(name=nm(), auto=r.random() < .3, val=val(), dim=nm() if r.random() < .25 else '') for _ in range(r.choice([1, 1, 2, 3]))])
        if x < .82: return dict(k='struct', kw=kw(), tag=nm2() or (nm() if file else ''), mem=umem(), name='' if file or r.random() < .5 else nm())
        if x < .88: return dict(k='fwd', kw=kw(), tag=nm())
        if x < .94 and not file: return dict(k='ptr', kw=r.choice(['struct', 'struct', 'union', 'enum']), tag=nm(), name=nm())
        return dict(k='func', name=nm(), sig=r.choice([0, 0, 1]), spec=r.choice(['none', 'none', 'static', 'extern']), **{'def': file and r.random() < .5}, val=val())
    def use():
        f = r.choice(['size', 'size', 'val', 'val', 'type', 'mem', 'pt', 'tag', 'tag'])
        u = dict(k='use', form=f, name=nm())
        if f == 'mem': u['m'] = nm()
        if f == 'tag': u['kw'] = r.choice(['struct', 'struct', 'union', 'enum'])
        return u
    def body(depth, n):
        for _ in range(n):
            x = r.random()
            if x < .40: ev.append(use())
            elif x < .72: ev.append(decl(False))
            elif x < .86 and depth < 4:
                if r.random() < .3:
                    ev.append(dict(k='for', name=nm(), val=val())); body(depth + 1, r.choice([1, 3, 5])); ev.append(dict(k='forend'))
                else:
                    ev.append(dict(k='open', st=r.randrange(5))); body(depth + 1, r.choice([1, 3, 5])); ev.append(dict(k='close'))
            elif not goto: pass
            elif x < .90: ev.append(dict(k='label', name=nm()))
            elif x < .95: ev.append(dict(k='gl', name=nm()))
            else: ev.append(dict(k='goto', name=nm()))
    nf = r.choice([1, 2, 3])
    for f in range(1, nf + 1):
        for _ in range(r.choice([1, 4, 8]) if not big else len(pool) // r.choice([1, 2])): ev.append(decl(True))
        ps = r.sample(pool, r.choice([0, 1, 2])) if len(pool) > 1 else []
        if not big and r.random() < .05: ps = [ps[0] if ps else 'a'] * 2
        ev.append(dict(k='fun', f=f, params=[dict(name=n, val=val()) for n in ps]))
        body(1, r.choice([4, 8, 14, 30]) if not big else 120)
        ev.append(dict(k='end'))
    return dict(ev=ev, ptr=8)

def cstr_dim(d, size): return f'sizeof({d}) + {size}' if d else str(size)

def members(q):
    return ' '.join(f'char {m["n"]}[{m["s"]}];' if not m['kw'] else f'{m["kw"]} {{ {members(m["sub"])} }};' for m in q)

def render(c, s, err=None):
    """-> (source, expected lines, or None when the program ends in violation number err)"""
    o, exp, depth, funs, once = [libdrv.PRELUDE, 'static void lg_(long long v_) { pi(v_); nl(); }\nstatic int zero_; static char once_tab[4096]; static int once_(int k_) { return !once_tab[k_]++; }\n'], [], [], [], 0
    lnk = s['lnk'] if isinstance(s['lnk'], dict) else {}
    bad = False
    def out(x): o.append('  ' * len(depth) + x + '\n')
    for i, (e, d) in enumerate(zip(c['ev'], s['dec'])):
        if i == err: bad = True
        elif d['st'] != 'ok':
            if e['k'] != 'fun': continue
            e = dict(e, params=[])
        k = e['k']; v = d['v']
        if k == 'decl':
            sp = '' if e['spec'] == 'none' else e['spec'] + ' '
            if e['rep'] == 'int': x = f'{sp}int {e["name"]}' + (f' = ' + (f'sizeof({e["iuse"]}) + ' if e['iuse'] else '') + str(e['val']) if e['init'] else '')
            elif e['rep'] == 'arr': x = f'{sp}char {e["name"]}[{cstr_dim(e["dim"], e["size"])}]' + (f' = {{ {e["val"]} }}' if e['init'] else '')
            else: x = f'{sp}{e["base"]} {e["name"]}'
            out(x + ';')
        elif k == 'typedef': out(f'typedef {e["base"]} {e["name"]};' if e['base'] else f'typedef char {e["name"]}[{cstr_dim(e["dim"], e["size"])}];')
        elif k == 'enum': out(f'enum {e["tag"]} {{ ' + ', '.join(q['name'] + ('' if q['auto'] else ' = ' + (f'sizeof({q["dim"]}) + ' if q['dim'] else '') + str(q['val'])) for q in e['consts']) + ' };')
        elif k == 'struct': out(f'{e["kw"]} {e["tag"]} {{ ' + members(e['mem']) + f' }} {e["name"]};')
        elif k == 'fwd': out(f'{e["kw"]} {e["tag"]};')
        elif k == 'ptr': out(f'{e["kw"]} {e["tag"]} *{e["name"]};')
        elif k == 'func':
            sp = '' if e['spec'] == 'none' else e['spec'] + ' '
            out(f'{sp}int {e["name"]}({"int q_" if e["sig"] else "void"})' + (f' {{ return {e["val"]}; }}' if e['def'] else ';'))
        elif k == 'fun':
            out(f'static void F{e["f"]}_(' + (', '.join('int ' + p['name'] for p in e['params']) or 'void') + ') {'); depth.append('}')
            funs.append(f'F{e["f"]}_(' + ', '.join(str(p['val']) for p in e['params']) + ');')
        elif k == 'for': once += 1; out(f'for (int {e["name"]} = {e["val"]}; once_({once}); ) {{'); depth.append('}')
        elif k == 'open': st = e['st']; out(['{', 'if (1) {', 'if (0) ; else {', 'do {', 'switch (1) default: {'][st]); depth.append('} while (0);' if st == 3 else '}')
        elif k in ('close', 'forend', 'end'): x = depth.pop(); out(x)
        elif k == 'label': out(f'{e["name"]}: ;')
        elif k == 'gl': size = len(exp); exp.append('-7'); out(f'goto {e["name"]}; lg_(-1); {e["name"]}: lg_(-7);')
        elif k == 'goto': out(f'if (zero_) goto {e["name"]};')
        elif k == 'use':
            n, f = e['name'], e['form']
            if f == 'size': x = f'sizeof({n})'
            elif f == 'val': x = n + {'func': '(1)' if n in lnk and lnk[n]['sig'] else '()', 'arr': '[0]'}.get(d['kind'], '')
            elif f == 'type': x = None
            elif f == 'mem': x = f'sizeof({n}.{e["m"]})'
            elif f == 'pt': x = f'sizeof(*{n})'
            else: x = f'sizeof({e["kw"]} {n})'
            out(f'lg_({x});' if x else f'{{ {n} *q_; lg_(sizeof(*q_)); }}')
            if not bad: exp.append(str(lnk[v[0]]['val'] if isinstance(v[0], str) else v[0]))
        if bad: break
    while depth: x = depth.pop(); out(x)
    for n, e in lnk.items():
        if not e['def']:
            if e['k'] == 'func': o.append(f'{"static " if e["lk"] == "int" else ""}int {n}({"int q_" if e["sig"] else "void"}) {{ return 0; }}\n')
            elif e['lk'] == 'ext' and not e['tent']: o.append(f'int {n};\n' if e['rep'] == 'int' else f'char {n}[{e["size"]}];\n')
    o.append('int main(void) {\n  ' + ' '.join(funs) + '\n  flush_(); return 0;\n}\n')
    return ''.join(o), (None if bad else exp)

def run(chk, t, items):
    """items: (source, expected or None)"""
    good = [i for i, x in enumerate(items) if x[1] is not None]
    for i, g in zip(good, creplay.run_sources(t, [items[i][0] for i in good])):
        src, exp = items[i]
        chk.add('traces_validated_against_impl', 1)
        m = None
        if g[1] == 'skipped': continue
        got = g[2].split('\n')[:-1] if g[0] == 'ran' else []
        if g[0] != 'ran': m = f'valid program rejected: {g[2][-300:]}'
        elif got != exp:
            j = next((j for j in range(max(len(got), len(exp))) if j >= len(got) or j >= len(exp) or got[j] != exp[j]), 0)
            m = f'use {j}: specification {exp[j] if j < len(exp) else "none"}, program {got[j] if j < len(got) else "none"} (status {g[1]})'
        elif g[1] != 0: m = f'ended with status {g[1]}'
        if m: chk.violation(f'scope {t.name}', f'{t.name}: {m}', {'program.c': src})
        if len(chk.viol) > 5: return
    d = H.mkdir('c20-' + t.name)
    def one(i):
        src, exe = os.path.join(d, f'e{i}.c'), os.path.join(d, f'e{i}.out')
        open(src, 'w').write(items[i][0])
        rc, o, e = H.run([t.cc, *t.flags, '-o', exe, src], timeout=30)
        return rc, e.decode('latin1'), os.path.exists(exe)
    bad = [i for i, x in enumerate(items) if x[1] is None]
    for i, (rc, e, left) in zip(bad, H.pmap(one, bad)):
        chk.add('rejections_checked', 1)
        m = None
        if rc == 0: m = 'program with a constraint violation accepted'
        elif not isinstance(rc, int) or rc < 0 or rc >= 128: m = f'compiler ended abnormally ({rc}): {e[-200:]}'
        elif left: m = f'rejected (status {rc}) but left an output file'
        if m: chk.violation(f'scope {t.name} error', f'{t.name}: {m}', {'program.c': items[i][0]})
        if len(chk.viol) > 5: return

def main(chk):
    b = H.build()
    r = chk.rng
    for rnd in range(1 if chk.quick() else 8):
        cases = [gen(r) for _ in range(400 if chk.quick() else 1500)] + [gen(r, True) for _ in range(4 if chk.quick() else 20)]
        for names, ptr in ((['x64', 'gcc'], 8), (['wasm'], 4)):
            tg = [t for t in creplay.targets(b, names) if t.name != 'gcc' or os.environ.get('VERIF_DEV_TARGETS')]
            if not tg: continue
            if ptr == 4: cases = [gen(r, goto=False) for _ in range(len(cases) // 3)]
            for c in cases: c['ptr'] = ptr
            specs = H.spec_cases('CScope', cases, chk)
            items = [render(c, s) for c, s in zip(cases, specs)]
            # violations of every sort seen, the rare ones first
            sorts = {}
            for c, s in zip(cases, specs):
                for i, (e, d) in enumerate(zip(c['ev'], s['dec'])):
                    if d['st'] == 'err': sorts.setdefault((e['k'], e.get('form') or e.get('rep'), e.get('spec'), e.get('init') or e.get('def'), d['kind']), []).append((c, s, i))
            n = (60 if ptr == 4 else 400) if chk.quick() else 1500
            for l in sorts.values(): r.shuffle(l)
            picks, j = [], 0
            while len(picks) < n and any(len(l) > j for l in sorts.values()):
                picks += [l[j] for l in sorts.values() if len(l) > j]; j += 1
            items += [render(c, s, i) for c, s, i in picks[:n]]
            chk.add('sorts_of_violation', len(sorts))
            chk.add('programs', len(items)); chk.add('uses_resolved', sum(len(x[1]) for x in items if x[1] is not None))
            for t in tg: run(chk, t, items)
        if rnd == 0: chk.sample(items[0][0][-600:])
