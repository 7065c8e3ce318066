"""C26: the standard headers (spec/CHeaders.tla): every constant and type the headers provide, in every context, on both targets."""
import os, re
import harness as H, creplay, libdrv
import c27

def nat(m): return sum(l << 15 * i for i, l in enumerate(m))
def val(v): return -nat(v[1]) if v[0] else nat(v[1])
def lit(v):
    """an expression for the value that does not use the headers"""
    if v < 0: return f'(-{-v - 1}LL - 1)'
    return f'{v}ULL' if v >= 1 << 63 else f'{v}LL'

def program(h, es):
    """-> text; prints one line per entry: index, definedness, checks"""
    o = [libdrv.PRELUDE, f'#include <{h}>\n']
    if h == 'inttypes.h': o.append('#include <stdio.h>\n')
    if h == 'stdint.h': o.append('#include <stddef.h>\n')
    # the header has to give its definitions itself: what the text above includes is taken back
    o.append('union U_ { double d; unsigned long long q; };\n')
    body = []
    for i, e in es:
        k, n = e['k'], e.get('n')
        g0 = f'#if defined({n})\n' if k in ('int', 'flo', 'fmt') else '#if ' + (' && '.join(f'defined({x})' for x in e.get('need', [])) or '1') + '\n'
        if k == 'int':
            v = val(e['v'])
            o.append(f'{g0}#if ({n}) == {lit(v)}\n#define PP{i} 1\n#else\n#define PP{i} 0\n#endif\n' if h not in () else '')
            o.append(f'static __typeof__({n}) st{i} = {n}; static unsigned long long su{i} = (unsigned long long){n}; static char ar{i}[({n}) == {lit(v)} ? 3 : 5];\n#endif\n')
            body.append(f'{g0}  pi({i}); ps(" int "); pi(_Generic(({n}), {e["t"]}: 1, default: 0)); sp(); pu((unsigned long long)({n})); sp(); pi(({n}) < 0); sp(); pi(PP{i}); sp(); pi(st{i} == {n}); sp(); pu(su{i}); sp(); pi(sizeof ar{i}); nl();\n#endif\n')
        elif k == 'flo':
            ty = e['t']
            o.append(f'{g0}static double st{i} = {n};\n#endif\n')
            g = f'_Generic(({n}), {ty}: 1, default: 0)' if ty else '1'
            body.append(f'{g0}  {{ union U_ a, b; a.d = {n}; b.d = st{i}; pi({i}); ps(" flo "); pi({g}); sp(); pu(a.q); sp(); pu(b.q); nl(); }}\n#endif\n')
        elif k == 'type':
            body.append(f'  pi({i}); ps(" type "); pi(sizeof({n}) * 8); sp(); pi(({n})-1 < 0); sp(); pi(_Alignof({n}) * 8); nl();\n')
        elif k == 'is':
            body.append(f'{g0}  pi({i}); ps(" is "); pi(!!({e["e"]})); nl();\n#endif\n')
        else:
            body.append(f'{g0}  {{ {e["t"]} v = ({e["t"]}){nat(e["bits"])}ULL; char b[64]; int k = snprintf(b, sizeof b, "<%" {n} ">", v); pi({i}); ps(" fmt "); ps(b); sp(); pi(k); nl(); }}\n#endif\n')
    return ''.join(o) + 'int main(void) {\n' + ''.join(body) + '  flush_(); return 0;\n}\n'

def want(e):
    k = e['k']
    if k == 'int':
        v = val(e['v']); u = v % (1 << 64)
        return f'int 1 {u} {int(v < 0)} 1 1 {u} 3'
    if k == 'flo':
        q = e['r']['s'] << 63 | e['r']['b'] << 52 | nat(e['r']['m'])
        return f'flo 1 {q} {q}'
    if k == 'type': return f'type {e["size"]} {int(e["sg"])} {e["size"]}'
    if k == 'is': return 'is 1'
    s = '<' + ('-' if e['neg'] else '') + ''.join(('0123456789ABCDEF' if e['c'] == 'X' else '0123456789abcdef')[d] for d in e['digits']) + '>'
    return f'fmt {s} {len(s)}'

def main(chk):
    d = H.build()
    def limbs(v):
        l = []
        while v: l.append(v & 32767); v >>= 15
        return l
    vals = [0, 1, (1 << 64) - 1, 1 << 63, 0x8000000080008080, 0x7fffffff7fff7f7f, 0x0123456789abcdef] + [chk.rng.getrandbits(chk.rng.randrange(1, 65)) for _ in range(6 if chk.quick() else 60)]
    cases = [dict(tg=t, vals=[limbs(v) for v in vals]) for t in ('x64', 'wasm')]
    f = os.path.join(H.scratch(), 'cases-headers.json')
    import json
    with open(f, 'w') as fp: json.dump(cases, fp)
    t = H.tlc('CHeaders', env={'CASES': f}, timeout=400)
    chk.add('states', t.distinct); chk.add('transitions', t.generated)
    tab = {1: [], 2: []}
    for r in sorted(t.json_lines(), key=lambda r: r['part']):
        for e, m in zip(r['es'], r['must']):
            e['must'] = m; tab[r['pid']].append((len(tab[r['pid']]), e))
    chk.log(f'table of {len(tab[1])} and {len(tab[2])} entries')
    missing = set()
    for p, tg in ((1, 'x64'), (2, 'wasm')):
        es = sorted(tab[p], key=lambda x: x[0])
        hs = list(dict.fromkeys(e['h'] for _, e in es))
        if tg == 'wasm': hs = [h for h in hs if h != 'sys/wait.h']
        jobs = []
        for h in hs:
            mine = [x for x in es if x[1]['h'] == h]
            for at in range(0, len(mine), 150): jobs.append((h, mine[at:at + 150]))
        names = ['x64', 'x64-ssa'] if tg == 'x64' else ['wasm']
        for tgt in creplay.targets(d, names):
            jb = []
            for h, mine in jobs:
                jb.append((h, mine, program(h, mine)))
            res = creplay.run_sources(tgt, [x[2] for x in jb])
            chk.add('traces_validated_against_impl', len(res))
            for (h, mine, src), x in zip(jb, res):
                if x[1] == 'skipped': continue
                if x[0] != 'ran' or x[1] != 0:
                    chk.violation(f'{tg} {h} program', f'{tgt.name} <{h}>: status {x[0]} {x[1]} {x[2][-400:]}', {'t.c': src}); continue
                got = {int(l.split()[0]): l.split(' ', 1)[1].strip() for l in x[2].split('\n') if l}
                for i, e in mine:
                    if i not in got:
                        nm = e.get('n') or ' '.join(e.get('need', [])); missing.add(nm)
                        if e['must']: chk.violation(f'{tg} {h} {nm}', f'{tgt.name} <{h}> does not provide {nm}', {'t.c': src})
                        continue
                    chk.add('entries')
                    w = want(e)
                    if got[i] != w and not (e.get('n') == 'NAN' and got[i].startswith('flo 1') and all(c27.D(int(v)) != c27.D(int(v)) for v in got[i].split()[2:])):
                        chk.violation(f'{tg} {h} {e.get("n") or e["e"]}', f'{tgt.name} <{h}> {e.get("n") or e["e"]} ({e.get("t", "")}): specification "{w}", program "{got[i]}"', {'t.c': src})
    chk.sample('not provided by the headers: ' + ', '.join(sorted(missing)))
    for _, e in tab[1][::40]: chk.sample(str({k: v for k, v in e.items()})[:300])
