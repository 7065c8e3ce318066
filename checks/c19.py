"""C19: start-up, termination and non-local jumps (spec/CExit.tla, spec/CJump.tla)."""
import os
import harness as H
import creplay, libdrv

# ---------------------------------------------------------------- termination
def gen_exit(r, host=False):
    """functions 1..n; function i only calls functions with a larger number; handlers do not exit"""
    n = r.randrange(3, 9)
    many = r.random() < .25
    funs = []
    logn = [0]
    def log():
        logn[0] += 1
        return dict(k='log', n=logn[0])
    nd, nc = r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2, 3])
    plain = lambda f: [log()] + ([dict(k='call', f=r.randrange(f + 1, n + 1))] if f < n and r.random() < .2 else []) + ([log()] if r.random() < .3 else [])
    for f in range(1, n + 1):                                   # handlers and helpers
        b = plain(f)
        if f < n and r.random() < .3: b.insert(r.randrange(len(b) + 1), dict(k='reg', f=r.randrange(f + 1, n + 1)))
        funs.append(b)
    def reg(): return dict(k='reg', f=r.randrange(1, n + 1))
    leaf = []                                                   # functions that only log: for destructors
    for _ in range(nd): funs.append([log()]); leaf.append(len(funs))
    ctors = []
    for _ in range(nc): funs.append([log()] + ([reg()] if r.random() < .5 else []) + [log()]); ctors.append(len(funs))
    mb = [log()]
    for _ in range(r.choice([30, 31, 32, 33, 35]) if many else r.choice([0, 1, 2, 5, 9])): mb.append(reg())
    mb.append(log())
    if r.random() < .5:
        x = [dict(k='exit', n=r.choice([0, 1, 2, 77, 127, 128, 255]))]
        for _ in range(r.choice([0, 1, 2])):
            funs.append([log()] + x + [log()]); x = [dict(k='call', f=len(funs))]
        mb += x + [log()]
    funs.append(mb)
    ret = r.choice([0, 0, 1, 3, 42, 255])
    if many:                                                    # keep the refusals from multiplying
        for f in funs[:n]: f[:] = [a for a in f if a['k'] != 'reg']
    bs = lambda a, lo, hi: [ord(r.choice(a)) for _ in range(r.randrange(lo, hi))]
    args = [bs('ab= -"\\$*', 0, r.choice([1, 3, 9, 40])) for _ in range(r.choice([0, 1, 2, 3, 8]))]
    names = [bs('ABC', 1, 4) for _ in range(r.choice([0, 1, 2, 6]))]
    env = [[nm, bs('AB=x ', 0, 5)] for nm in {bytes(x): x for x in names}.values()]
    if host:
        for i in [len(funs) - 1] + [x - 1 for x in ctors + leaf] + [r.randrange(n)]:
            for _ in range(r.choice([0, 1, 2])):
                funs[i].insert(r.randrange(len(funs[i]) + 1), dict(k='env', name=r.choice(names) if names and r.random() < .7 else bs('ABC', 1, 4)))
        funs[-1].insert(r.randrange(2), dict(k='args'))
    return dict(funs=funs, ctors=ctors, dtors=leaf, main=len(funs), ret=ret, args=args, env=env)

def exit_source(c, path, logp):
    o = ['#include <stdlib.h>\n#include <stdio.h>\n#include <fcntl.h>\n#include <unistd.h>\nstatic int lfd = -1; static FILE *fp; static int Argc; static char **Argv;\n',
         'static void lg(int n) { char t[8]; int i = 8; if (lfd < 0) lfd = open("' + logp + '", O_WRONLY | O_CREAT | O_TRUNC, 0644);\n'
         '  if (fp == NULL) fp = fopen("' + path + '", "w");\n'
         '  printf("%d ", n); fprintf(fp, "%d ", n);\n  t[--i] = 32; do { t[--i] = 48 + n % 10; n /= 10; } while (n); write(lfd, t + i, 8 - i); }\n']
    n = len(c['funs']); s8 = lambda b: '"' + ''.join(map(chr, b)) + '"'
    o.append('static void str(const char *s) { while (*s) lg((unsigned char)*s++); }\nstatic void args(void) { int i, n; for (n = 1; Argv[n]; ++n) {} if (n != Argc) lg(99999); lg(2000 + Argc - 1); for (i = 1; i < Argc; ++i) { for (n = 0; Argv[i][n]; ++n) {} lg(2000 + n); str(Argv[i]); } }\n'
             'static void ev(const char *n) { char *v = getenv(n); lg(v ? 3000 : 3001); if (v) str(v); }\n')
    for f in range(1, n): o.append(f'static void f{f}(void);\n')
    for f in range(1, n + 1):
        at = '__attribute__((constructor)) ' if f in c['ctors'] else '__attribute__((destructor)) ' if f in c['dtors'] else ''
        if f in c['ctors'] + c['dtors']: o = [x for x in o if x != f'static void f{f}(void);\n']
        o.append(f'int main(int argc, char *argv[]) {{\n  Argc = argc; Argv = argv;\n' if f == c['main'] else f'{at}static void f{f}(void) {{\n')
        for a in c['funs'][f - 1]:
            o.append('  ' + {'args': lambda: 'args();', 'env': lambda: f'ev({s8(a["name"])});', 'log': lambda: f'lg({a["n"]});', 'call': lambda: f'f{a["f"]}();', 'exit': lambda: f'exit({a["n"]});',
                             'reg': lambda: f'lg(atexit(f{a["f"]}) == 0 ? 1000 : 1001);'}[a['k']]() + '\n')
        if f == c['main']: o.append(f'  return {c["ret"]};\n' if c['ret'] or n % 2 else '')
        o.append('}\n')
    return ''.join(o)

def run_exit(chk, tgt, cases, outs):
    d = H.mkdir('c19-' + tgt.name); pre = '/' if tgt.tg == 'wasm' else ''
    def one(i):
        src, exe = os.path.join(d, f'x{i}.c'), os.path.join(d, f'x{i}.' + ('wasm' if pre else 'exe'))
        open(src, 'w').write(exit_source(cases[i], f'{pre}x{i}_out', f'{pre}x{i}_log'))
        rc, o, e = H.run([tgt.cc, *tgt.flags, '-o', exe, src], timeout=30)
        if rc != 0: return ('compile', rc, e.decode('latin1')[-600:])
        if pre: return ('wasm', exe, b'')
        s8 = lambda b: ''.join(map(chr, b))
        rc, o, e = H.run([exe] + [s8(a) for a in cases[i]['args']], cwd=d, timeout=10, env={s8(k): s8(v) for k, v in cases[i]['env']})
        return ('ran', rc, o)
    res = list(H.pmap(one, range(len(cases))))
    idx = [i for i, x in enumerate(res) if x[0] == 'wasm']
    for i, g in zip(idx, H.run_wasm_batch([res[i][1] for i in idx], workdir=d)): res[i] = ('ran', g[0], g[1])
    chk.add('traces_validated_against_impl', len(cases))
    for i, (st, rc, so) in enumerate(res):
        src = open(os.path.join(d, f'x{i}.c')).read()
        if rc == 'skipped': continue
        m = None
        if st != 'ran': m = f'compiler failed: {so}'
        else:
            rd = lambda s: open(os.path.join(d, f'x{i}_{s}')).read().split() if os.path.exists(os.path.join(d, f'x{i}_{s}')) else []
            log, fo, so = rd('log'), rd('out'), so.decode('latin1').split()
            exp = outs[i]
            ok = [e for e in exp if [str(x) for x in e['log']] == log]
            if not ok: m = f'order of events {" ".join(log)}; specification permits {len(exp)}, for instance {exp[0]["log"]} (status {rc})'
            elif all(e['status'] != rc for e in ok): m = f'exit status {rc}, specification {ok[0]["status"]}'
            elif so != log: m = f'events written to stdout {len(so)} of {len(log)}: {" ".join(so)}, events {" ".join(log)}'
            elif fo != log: m = f'events written to an open file {len(fo)} of {len(log)}: {" ".join(fo)}, events {" ".join(log)}'
        if m: chk.violation(f'exit {tgt.name}', f'{tgt.name}: {m}', {'program.c': src})
        if len(chk.viol) > 5: return

# ---------------------------------------------------------------- jumps
def gen_jump(r, extent, wasm):
    nf, nb = r.randrange(2, 5), r.randrange(1, 4)
    c = dict(bufs=nb, fuel=r.choice([1, 2, 4, 8, 12]), extent=extent, arg=r.randrange(1000), dep=r.choice([1, 2, 3]), loops=0, funs=[], main=1)
    tag = [0]
    def log():
        tag[0] += 1
        return dict(k='log', n=tag[0])
    def block(depth, f):
        o = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if x < .15: o.append(dict(k='vol', n=r.randrange(100)))
            elif x < .38: o.append(dict(k=r.choice(['call', 'expr']), f=r.randrange(1, nf + 1), n=r.randrange(100)))
            elif x < .62 and depth < 3:
                # forms: 0 if (setjmp == 0)  1 if ((r = setjmp) == 0)  2 r = setjmp; if (r == 0)  3 if (setjmp != 0)  4 if (!setjmp)  5 if (setjmp)
                fm = r.choice([0, 1, 2, 3, 4, 5])
                o.append(dict(k='set', b=r.randrange(1, nb + 1), form=fm, val=fm in (1, 2), zero=block(depth + 1, f), non=[log()] + (block(depth + 1, f) if r.random() < .5 else [])))
            elif x < .85: o.append(dict(k='jump', b=r.randrange(1, nb + 1), n=r.choice([0, 1, 2, -1, 77, 1000000, -2147483648])))
            elif x < .93 and depth < 2:
                c['loops'] += 1; l = c['loops']
                o.append(dict(k='loop', l=l, n=r.choice([1, 2, 3]), body=block(depth + 1, f)))
            elif x < .96: o.append(dict(k='ret'))
            if r.random() < .6: o.append(log())
        return o
    for f in range(1, nf + 1): c['funs'].append(block(0, f) + [log()])
    return c

def jump_source(c):
    o = [libdrv.PRELUDE, '#include <setjmp.h>\n',
         'static int fuel = %d, nid; static volatile int live[8], sq[8], nsq; static jmp_buf B[8];\n' % c['fuel'],
         'static void jumped(int id, int b) { int i; for (i = 0; i < 8; ++i) if (live[i] > id%s) live[i] = 0; }\n' % (' || sq[i] > sq[b]' if c['extent'] == 'if' else ''),
         'static void left(int id) { int i; for (i = 0; i < 8; ++i) if (live[i] == id) live[i] = 0; }\n',
         'struct S { int x; double y; char z[5]; };\n']
    ifx = c['extent'] == 'if'
    for f in range(1, len(c['funs']) + 1): o.append(f'static int f{f}(int a, int dep);\n')
    def stmts(b, ind, f):
        p = '  ' * ind; s = ''
        for x in b:
            k = x['k']
            if k == 'log': s += f'{p}LOG({x["n"]});\n'
            elif k == 'vol': s += f'{p}v = (v * 3 + {x["n"]}) % 1000;\n'
            elif k == 'call': s += f'{p}if (dep > 0) f{x["f"]}((a * 7 + {x["n"]}) % 1000, dep - 1);\n'
            elif k == 'expr': s += f'{p}if (dep > 0) v = (a + f{x["f"]}((a * 7 + {x["n"]}) % 1000, dep - 1) * 2) % 1000;\n'
            elif k == 'jump': s += f'{p}if (fuel > 0 && live[{x["b"]}]) {{ --fuel; longjmp(B[{x["b"]}], {cint(x["n"])}); }}\n'
            elif k == 'ret': s += f'{p}{{ left(id); return (a + v) % 1000; }}\n'
            elif k == 'loop': s += f'{p}for (c{x["l"]} = 0; c{x["l"]} < {x["n"]}; ++c{x["l"]}) {{\n{stmts(x["body"], ind + 1, f)}{p}}}\n'
            elif k == 'set':
                b = f'B[{x["b"]}]'; z = stmts(x['zero'], ind + 1, f); n = f'{p}  jumped(id, {x["b"]});\n' + stmts(x['non'], ind + 1, f)
                lv = f'{p}if (live[{x["b"]}] == id) live[{x["b"]}] = 0;\n' if ifx else ''
                # in the extent rule the buffer is live from inside the statement on; elsewhere too, which is the same
                z = f'{p}  live[{x["b"]}] = id; sq[{x["b"]}] = ++nsq;\n' + z
                fm = x['form']
                if fm == 0: s += f'{p}if (setjmp({b}) == 0) {{\n{z}{p}}} else {{\n{n}{p}}}\n'
                elif fm == 1: s += f'{p}if ((r = setjmp({b})) == 0) {{\n{z}{p}}} else {{\n{n}{p}}}\n'
                elif fm == 2: s += f'{p}r = setjmp({b});\n{p}if (r == 0) {{\n{z}{p}}} else {{\n{n}{p}}}\n'
                elif fm == 3: s += f'{p}if (setjmp({b}) != 0) {{\n{n}{p}}} else {{\n{z}{p}}}\n'
                elif fm == 4: s += f'{p}if (!setjmp({b})) {{\n{z}{p}}} else {{\n{n}{p}}}\n'
                else: s += f'{p}if (setjmp({b})) {{\n{n}{p}}} else {{\n{z}{p}}}\n'
                s += lv
        return s
    def loops(b):
        for x in b:
            if x['k'] == 'loop': yield x['l']; yield from loops(x['body'])
            elif x['k'] == 'set': yield from loops(x['zero']); yield from loops(x['non'])
    o.append('#define LOG(t) { pi(t); sp(); pi(id); sp(); pi(a); sp(); pi(v); sp(); pi(r); sp(); '
             'pc(x1 == a + 1 && x2 == a * 2 && x3 == a - 3 && x4 == a * 5 && x5 == (a ^ 21) && x6 == a + 600 && d1 == a * 0.5 && d2 == a + 0.25 && w == a * 100000001LL && uc == (unsigned char)a && s.x == a && s.y == a && s.z[4] == 7 && p == &s ? 49 : 48); nl(); flush_(); }\n')
    for f, b in enumerate(c['funs'], 1):
        ls = list(loops(b))
        o.append(f'static int f{f}(int a, int dep) {{\n  int x1 = a + 1, x2 = a * 2, x3 = a - 3, x4 = a * 5, x5 = a ^ 21, x6 = a + 600; double d1 = a * 0.5, d2 = a + 0.25;\n'
                 '  long long w = a * 100000001LL; unsigned char uc = a; struct S s; struct S *p = &s; const int id = ++nid; volatile int v = a % 10; volatile int r = 0;\n'
                 + (''.join(f'  volatile int c{l} = 0;\n' for l in ls)) + '  s.x = a; s.y = a; s.z[4] = 7;\n' + stmts(b, 1, f) + '  left(id); return (a + v) % 1000;\n}\n')
    o.append(f'int main(void) {{ f{c["main"]}({c["arg"]}, {c["dep"]}); flush_(); return 0; }}\n')
    return ''.join(o)

def cint(n): return '(-2147483647 - 1)' if n == -2147483648 else str(n)

def run_jump(chk, tgts, cases, specs):
    keep = [(c, s) for c, s in zip(cases, specs) if s['done']]
    chk.add('jump_programs', len(keep))
    chk.add('jump_observations', sum(len(s['out']) for _, s in keep))
    for t in tgts:
        srcs = [jump_source(c) for c, _ in keep]
        for (c, s), src, x in zip(keep, srcs, creplay.run_sources(t, srcs)):
            chk.add('traces_validated_against_impl', 1)
            m = None
            if x[1] == 'skipped': continue
            exp = [' '.join(map(str, e)) + ' 1' for e in s['out']]
            got = x[2].split('\n')[:-1]
            if x[0] != 'ran': m = f'compiler failed: {x[2][-500:]}'
            elif got != exp:
                j = next((j for j in range(max(len(got), len(exp))) if j >= len(got) or j >= len(exp) or got[j] != exp[j]), 0)
                m = f'observation {j} (place, activation, argument, volatile, setjmp value, locals intact): specification {exp[j] if j < len(exp) else "none"}, program {got[j] if j < len(got) else "none"} (status {x[1]})'
            elif x[1] != 0: m = f'ended with status {x[1]}'
            if m: chk.violation(f'jump {t.name}', f'{t.name}: {m}', {'program.c': src})
            if len(chk.viol) > 5: return

def main(chk):
    b = H.build()
    r = chk.rng
    for rnd in range(1 if chk.quick() else 8):
        for names in (['x64', 'gcc'], ['wasm']):
            cases = [gen_exit(r, names[0] == 'x64') for _ in range(150 if chk.quick() else 300)]
            outs = H.spec_outcomes('CExit', cases, chk)
            chk.add('termination_histories', len(cases))
            for t in creplay.targets(b, names):
                if t.name == 'gcc' and not os.environ.get('VERIF_DEV_TARGETS'): continue
                run_exit(chk, t, cases, outs)
        for names, ext in ((['x64', 'x64-ssa', 'gcc'], 'frame'), (['wasm'], 'if')):
            tg = [t for t in creplay.targets(b, names) if t.name != 'gcc' or os.environ.get('VERIF_DEV_TARGETS')]
            if not tg: continue
            jc = [gen_jump(r, ext, names[0] == 'wasm') for _ in range(250 if chk.quick() else 500)]
            run_jump(chk, tg, jc, H.spec_cases('CJump', jc, chk))
        if rnd == 0: chk.sample(exit_source(cases[0], 'out', 'log')[:400]); chk.sample(jump_source(jc[0])[-700:])
