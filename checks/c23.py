"""C23: the tool chain as a function of its inputs (spec/CDeterm.tla): histories of runs of the real tools - several
generations of the compiler, places, environments and companies - must agree with one memo table."""
import hashlib, os, random, re, shutil, struct
import harness as H, cast, creplay
import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c12, c24
from cast import *

def dig(b): return hashlib.sha1(b).hexdigest()[:20]

# ---------------------------------------------------------------- sources
HEAD = '''#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
'''
def flo(r):
    x = r.random()
    if x < .25: return c24.fltlit(r)
    if x < .45: return repr(struct.unpack('<d', struct.pack('<Q', r.choice([0, 1 << 63]) | r.randrange(1 << 52) | r.choice([0, 1, 2, 1022, 1023, 1024, 2046, r.randrange(1, 2047)]) << 52))[0])
    if x < .6: return float.hex(struct.unpack('<d', struct.pack('<Q', r.getrandbits(52) | r.randrange(1, 2047) << 52))[0])
    if x < .8: return f'{r.randrange(10**r.randrange(1, 25))}.{r.randrange(10**r.randrange(1, 20))}e{r.randrange(-330, 310)}' + r.choice(['', '', 'f', 'L'])
    return f'{r.choice(["0.1", "2.5", "1e23", "9007199254740993", "5e-324", "2.2250738585072011e-308", "1.7976931348623157e308", "3.4028235677973366e38", "1e-45", "123456789012345678"])}' + r.choice(['.0', '', '']) * 0
def lits(r):
    t = ['unsigned long long iv[] = {' + ', '.join(c24.intlit(r) for _ in range(40)) + '};']
    fl = [flo(r) for _ in range(40)]
    fl = [f if re.search(r'[.eEpPxX]', f) else f + '.0' for f in fl]
    t.append('double dv[] = {' + ', '.join(fl) + '};'); r.shuffle(fl)
    t.append('float fv[] = {' + ', '.join(f'(float)({f})' if r.random() < .5 else f for f in fl[:20]) + '};')
    t.append('double cv[] = {' + ', '.join(f'{a} {r.choice("+-*/")} {b}' for a, b in zip(fl, fl[1:])) + '};')
    t.append('long lv[] = {' + ', '.join(f'(long)({r.randrange(-2**40, 2**40)}.{r.randrange(100)})' for _ in range(8)) + '};')
    t.append('char sv[] = ' + ' '.join('"' + ''.join(c24.esc(r, False).replace('"', "'").replace('%', 'p').replace('?', 'q') for _ in range(8)) + '"' for _ in range(3)) + ';')
    t.append('int main(void) { double s = 0; float g = 0; ' + ' '.join(f's += {f};' for f in fl[:15]) + ' ' + ' '.join(f'if (g < {f}) g = {f};' for f in fl[:6]) + ' return (int)s; }')
    return '\n'.join(t) + '\n'
def mutate(r, s):
    """a source that is probably wrong"""
    toks = re.findall(r'[A-Za-z_]\w*|\d[\w.]*|"(?:\\.|[^"\\\n])*"|\s+|.', s, re.S)
    a = len(toks) // 3
    for _ in range(r.choice([1, 1, 1, 2, 5])):
        i = r.randrange(a, len(toks)); j = r.randrange(a, len(toks)); k = r.random()
        if k < .3: del toks[i]
        elif k < .5: toks[i] = toks[j]
        elif k < .7: toks.insert(i, toks[j])
        elif k < .8: toks[i] = r.choice(['0', ';', '}', '{', ')', '(', '*', 'int', 'struct', '"', "'", '1.5', 'x1', '#', '\n#if 1\n', '\n#endif\n', '/*', '08', '0x', "''", '...', '->', 'case 1:', 'static', 'void'])
        else: toks = toks[:i]
        if len(toks) < a + 2: break
    return ''.join(toks)
def names(r):
    """many names: whatever is kept in tables comes out in an order"""
    n = [r.choice('abcdefgxyz_') + ''.join(r.choice('abcXYZ019_') for _ in range(r.choice([1, 2, 3, 9, 30]))) for _ in range(40)]
    n = [x for x in dict.fromkeys(n) if x not in ('do', 'if')]
    t = []
    for i, x in enumerate(n):
        y = r.choice(n[:i + 1])
        k = r.randrange(8)
        t.append([f'int {x};', f'static int {x} = {i};', f'int {x}[{i + 1}] = {{{i}}};', f'static void {x}(void) {{}}', f'inline int {x}(int a) {{ return a + {i}; }}',
                  f'extern int {x};', f'void {x}(void) {{ static int q = {i}; static char *s = "{x}"; q += *s; }}', f'__attribute__((weak)) int {x} = {i};'][k])
    for i in range(12): t.append(f'struct S{i} {{ int {r.choice(n)}m; char b[{i + 1}]; }}; enum {{ {r.choice("ABCDE")}{i}e, F{i}e }}; typedef struct S{i} {r.choice(n)}t{i};')
    t.append('int (*tab(int k))(int) { switch (k) { ' + ' '.join(f'case {r.randrange(-99, 999) * 64 + i}: k += {i};' for i in range(20)) + ' } return 0; }')
    t.append('int main(void) { return 0; }')
    return '\n'.join(t) + '\n'

def source(r):
    k = r.choice(['lit', 'lit', 'lit', 'names', 'names', 'c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c08', 'c09'])
    def P(p): return CP(p).program()
    if k == 'lit': return lits(r)
    if k == 'names': return names(r)
    if k == 'c01': return P(c01.expr_prog(r, 'x64', 6, 4))
    if k == 'c02': return P(r.choice([lambda: c02.int_prog(r, 'x64', 6), lambda: c02.flo_prog(r, 'x64', 6), lambda: c02.addr_prog(r, 'x64', 6)])())
    if k == 'c03': return P(c03.nest_prog(r, 'x64', 2, 2, 3))
    if k == 'c04': return P(c04.prog(r, 'x64', nf=4, calls=5))
    if k == 'c05': return P(r.choice([lambda: c05.bf_prog(r, 'x64', 5), lambda: c05.layout_prog(r, 'x64', 5)])())
    if k == 'c06': return P(c06.prog(r, 'x64', 6))
    if k == 'c07': return P(c07.prog(r, 'x64', 12))
    if k == 'c08': return P(r.choice([lambda: c08.pressure(r, 'x64', 2, True), lambda: c08.headloop(r, 'x64'), lambda: c08.constflow(r, 'x64')])())
    return P(c09.expr_prog(r, 'x64', 8))

# ---------------------------------------------------------------- runs
class Place:
    """a directory with the files of a history, an environment, and a generation of the tools"""
    def __init__(self, r, wd, i, gens, files):
        self.gen = gens[i % len(gens)] if i < 2 * len(gens) else r.choice(gens)
        self.dir = os.path.join(wd, r.choice(['w', 'a/b/c/d', 'x' * 100, 'src dir', 'w/w/w']) + str(i)); os.makedirs(self.dir)
        for n, c in files.items():
            os.makedirs(os.path.dirname(os.path.join(self.dir, n)), exist_ok=True)
            with open(os.path.join(self.dir, n), 'wb') as fp: fp.write(c)
        e = dict(PATH='/usr/bin:/bin')
        if i and r.random() < .7:
            e.update(HOME=r.choice(['/', '/nowhere']), LANG=r.choice(['C', 'C.UTF-8', 'ja_JP.UTF-8', 'de_DE']), LC_ALL=r.choice(['', 'C', 'POSIX']), TZ=r.choice(['UTC', 'Asia/Tokyo']), TMPDIR=self.dir)
            if r.random() < .5: e['MALLOC_PERTURB_'] = str(r.randrange(1, 256))
            if r.random() < .5: e.update({f'V{k}': 'y' * r.choice([1, 100, 3000]) for k in range(r.choice([1, 40]))})
            if r.random() < .3: e.update(CPATH='/usr/include', C_INCLUDE_PATH='/usr/include', SOURCE_DATE_EPOCH='12345', COLUMNS='20', TERM='dumb', CC='gcc', CFLAGS='-O3')
        self.env = e; self.wrap = ['setarch', '-R'] if r.random() < .3 else []
    def read(self, n):
        with open(os.path.join(self.dir, n), 'rb') as fp: return fp.read()
    def put(self, n, b):
        with open(os.path.join(self.dir, n), 'wb') as fp: fp.write(b)
    def tool(self, wasm): return self.gen['wcc' if wasm else 'xcc']
    def run(self, tool, args): return H.run(self.wrap + tool + args, 60, cwd=self.dir, env=self.env)
    def text(self, rc, o, e):
        """status and diagnostics, without what names the tool itself or a temporary file"""
        t = (o + e).decode('latin1').replace(self.dir, '@')
        for d in self.gen['inc']: t = t.replace(d, '@inc')
        for d in self.gen['dirs']: t = t.replace(d, '@')
        t = re.sub(r'(?:\S*/)?(?:gen\d)?(cpp|cc1|as|ld|xcc|wcc)\b(?=:)', r'\1', t)
        t = re.sub(r'\S*xcc-\w+\.o', 'TMP.o', t)
        if 'Assertion' in t: return 'aborts'          # by a signal or by a status, in the words of the library
        return f'{rc}\n{t}'

def self_dirs(pl): return [x.encode() for x in pl.gen['inc']]
EXT = {'E': 'i', 'S': 's', 'c': 'o', 'x': 'out'}
def lang(n): return n.rsplit('.', 1)[1]

def history(r, wd, gens, case):
    """case: files, main source(s), opts, wasm -> (runs, log, outs)"""
    files, srcs, opts, wasm, named = case['files'], case['srcs'], case['opts'], case['wasm'], case['named']
    runs, log, outs = [], [], {}
    ctx = dig(b''.join(n.encode() + b'\0' + c for n, c in sorted(files.items()) if n not in srcs))     # headers count as part of the options
    def rec(pl, op, ins, out, args, rc, o, e, ):
        f = os.path.join(pl.dir, out)
        ok = rc == 0
        b = pl.text(rc, o, e).encode()
        if ok and op == 'E' and out == '-':       # the place of the system headers is part of the tool, not of the output
            p = o
            for x in self_dirs(pl): p = p.replace(x, b'@inc')
        elif ok and os.path.exists(f): p = pl.read(out)
        else: p = b'no product'
        # the stages of x64 run side by side, and the first that fails ends the others in the middle of what they say
        v = 'fails ' + dig(b if wasm or op == 'E' else b'')
        if not ok and isinstance(rc, int) and rc < 0 and b != b'aborts': v = 'crash'
        key = dict(op=op, opts=' '.join(opts) + ' ' + ctx, ins=[[n, dig(pl.read(n))] for n in ins], lang=[lang(n) for n in ins], out=dig(p) if ok else v, ok=ok)
        runs.append(key); outs[len(runs) - 1] = (p if ok else b)
        log.append(f'{pl.gen["name"]:5} {os.path.relpath(pl.dir, wd)} $ {"setarch -R " if pl.wrap else ""}{" ".join(args)}  -> {rc} {key["out"]}   env {sorted(k for k in pl.env if not k.startswith("V"))}')
        return p if ok else None
    def said(pl, op, ins, rc, o, e):
        if not wasm and op != 'E' and rc != 0: return
        runs.append(dict(op=op + ' says', opts=' '.join(opts) + ' ' + ctx, ins=[[n, dig(pl.read(n))] for n in ins], lang=['d'] * len(ins), out=dig(pl.text(rc, o, e).encode()), ok=False)); outs[len(runs) - 1] = pl.text(rc, o, e).encode()
        log.append('      and says ' + runs[-1]['out'])
    npl = len(gens) + (3 if not case.get('own') else 1)
    base = [('-c', 'c')] if wasm or case.get('asm') else [('-S', 'S'), ('-c', 'c')]
    for i in range(npl):
        pl = Place(r, wd, i, gens, files)
        pl.wrap = [] if pl.gen['name'] == 'ww' else pl.wrap
        t = pl.tool(wasm)
        todo = []
        for s in srcs:
            todo += [(f, op, [s]) for f, op in base if i < len(gens) or r.random() < .5]
            if r.random() < .4: todo.append(('-E', 'E', [s]))
        todo.append(('', 'x', list(srcs)))
        if i >= len(gens): r.shuffle(todo)
        stem = lambda n: n.rsplit('.', 1)[0]
        made = {}
        for f, op, ins in todo:
            if op == 'x' and case.get('nolink'): continue
            out = f'{stem(ins[0])}.{EXT[op]}'
            if os.path.exists(os.path.join(pl.dir, out)): os.unlink(os.path.join(pl.dir, out))
            if i and r.random() < .3 and op != 'E': pl.put(out, r.randbytes(r.choice([1, 5000, 100000])))
            args = ([f] if f else []) + opts + ['-o', out] + ins
            if op == 'E': out = '-'; args = [f] + opts + ins
            rc, o, e = pl.run(t, args)
            p = rec(pl, op, ins, out, args, rc, o, e)
            said(pl, op, ins, rc, o, e)
            if p is not None: made[op, ins[0]] = out
        # a stage at a time
        for s in srcs:
            if ('S', s) in made:
                n = 'stage_' + stem(s).replace('/', '_') + '.s'; pl.put(n, pl.read(made['S', s]))
                out = n[:-1] + 'o'; args = ['-c'] + opts + ['-o', out, n]; rc, o, e = pl.run(t, args)
                rec(pl, 'c', [n], out, args, rc, o, e)
        if not case.get('nolink') and all(('c', s) in made for s in srcs):
            ins = [made['c', s] for s in srcs]
            args = opts + ['-o', 'from_objects.out'] + ins; rc, o, e = pl.run(t, args); rec(pl, 'x', ins, 'from_objects.out', args, rc, o, e)
        # in company
        if len(srcs) > 1 and not wasm and r.random() < .6:
            order = list(srcs); r.shuffle(order)
            for s in srcs:
                for x in (s.rsplit('.', 1)[0] + '.o', os.path.basename(s).rsplit('.', 1)[0] + '.o'):
                    if os.path.exists(os.path.join(pl.dir, x)): os.unlink(os.path.join(pl.dir, x))
            args = ['-c'] + opts + order; rc, o, e = pl.run(t, args)
            if rc == 0:
                for s in order:
                    x = os.path.basename(s).rsplit('.', 1)[0] + '.o'
                    x = x if os.path.exists(os.path.join(pl.dir, x)) else s.rsplit('.', 1)[0] + '.o'
                    if os.path.exists(os.path.join(pl.dir, x)): rec(pl, 'c', [s], x, args, rc, b'', b'')
        # under another name
        if not named and r.random() < .5:
            s = srcs[0]; n = r.choice(['renamed', 'z' * 60, 'a-b', 'q.q']) + '.c'; pl.put(n, pl.read(s))
            for f, op in base:
                out = n[:-1] + EXT[op]; args = [f] + opts + ['-o', out, n]; rc, o, e = pl.run(t, args)
                if rc == 0: rec(pl, op, [n], out, args, rc, o, e)
    return runs, log, outs

def gen(r, k, asm):
    kind = r.choice(['ok'] * 6 + ['bad'] * 3 + ['asm', 'wasm', 'wasm', 'cpp'])
    opts = r.choice([[], [], ['--apply-ssa'], ['-O2'], ['-O1', '-DFOO=1'], ['-Wall'], ['-I', 'inc']])
    files, named, srcs = {}, False, ['u.c']
    if kind == 'asm':
        files['u.s'] = asm[k % len(asm)]; return dict(files=files, srcs=['u.s'], opts=[], wasm=False, named=False, nolink=True, asm=True)
    if kind == 'cpp': t = cppsource(r); return dict(files={'u.c': t.encode(), 'inc/h.h': b'HH(1)\n#define HH2 3\n'}, srcs=['u.c'], opts=['-Iinc'], wasm=False, named=True, nolink=True)
    try: s = source(r)
    except (RecursionError, IndexError): s = lits(r)
    if kind == 'bad': s = mutate(r, s); named = True
    if kind == 'wasm': opts = []
    files['u.c'] = s.encode('utf-8', 'surrogateescape')
    if r.random() < .5 and kind != 'wasm':
        srcs.append(r.choice(['v.c', 'dir/v.c'])); files[srcs[1]] = names(r).replace('int main(void)', 'int main_(void)').encode() if r.random() < .8 else mutate(r, names(r)).encode()
    if r.random() < .2:
        named = True; files['u.c'] += b'\nconst char *file_(void) { return __FILE__; }\n#line 7 "odd.c"\nconst char *file2_(void) { return __FILE__; }\n'
    if '-I' in opts: files['inc/h.h'] = b'static int from_h = __LINE__;\n'; files['u.c'] = b'#include "h.h"\n' + files['u.c']; named = True
    return dict(files=files, srcs=srcs, opts=opts, wasm=kind == 'wasm', named=named)

def cppsource(r):
    return c10.gen_case(r)[1] if r.random() < .6 else mutate(r, c10.gen_case(r)[1])

def main(chk):
    d = H.build(gen2=True)
    chk.log('built, second generation too')
    inc = ['-Isrc/util', '-Isrc/cc/frontend', '-Isrc/cc/backend', '-Isrc/cpp', '-Isrc/cc', '-Isrc/as', '-Isrc/as/arch/x64', '-Isrc/wcc', '-Isrc/cc/arch/x64']
    D = ['-D_DEFAULT_SOURCE', '-DSELF_HOSTING']
    import glob
    def g(*p): return sorted(x for q in p for x in glob.glob(q, root_dir=d))
    wsrc = g('src/wcc/*.c', 'src/cc/frontend/*.c', 'src/cpp/preprocessor.c', 'src/cpp/pp_parser.c', 'src/cpp/macro.c', 'src/util/archive.c', 'src/util/util.c', 'src/util/table.c')
    # the WebAssembly compiler, compiled by this one and by itself
    def bw(x):
        rc, o, e = H.run(x, 300, cwd=d); return '' if rc == 0 else f'{rc} {(o + e).decode("latin1")[-600:]}'
    Wf = D + ['-DXCC_TARGET_ARCH=XCC_ARCH_WASM', '-Isrc/util', '-Isrc/cpp', '-Isrc/cc/frontend']
    bad = H.pmap(bw, [['./xcc', '-o', 'g2wcc'] + Wf + wsrc, ['./wcc', '-o', 'g2cc.wasm'] + Wf + wsrc])
    for b in bad:
        if b: chk.violation('self compilation', 'the compiler does not compile itself: ' + b); return
    ww = ['node', '--no-warnings', os.path.join(H.VERIF, 'lib/wasi.js'), os.path.join(d, 'g2cc.wasm'), d]
    D1 = [d, '/usr/include', '/usr/lib']; D2 = [d + '/include', '/usr/include']
    G = [dict(name='g1', xcc=[f'{d}/xcc'], wcc=[f'{d}/wcc'], dirs=D1, inc=D2), dict(name='g2', xcc=[f'{d}/gen2xcc'], wcc=[f'{d}/g2wcc'], dirs=D1, inc=D2)]
    GW = G + [dict(name='ww', wcc=ww, dirs=D1, inc=D2)]
    n = int(os.environ.get('VERIF_N', 0)) or (420 if chk.quick() else 1500)
    asm = [c12.lay(chk.rng, c12.gen(chk.rng))[0].encode() for _ in range(20)]
    cases = [gen(chk.rng, k, asm) for k in range(n)]
    # the sources of the tools themselves
    own = g('src/*/*.c', 'src/cc/*/*.c', 'src/cc/arch/x64/*.c', 'src/as/arch/x64/*.c', 'libsrc/*/*.c')
    if chk.quick(): own = chk.rng.sample(own, 12)
    def one(x):
        k, seed, case = x
        r = random.Random(seed); wd = H.mkdir(f'c23-{k}')
        try:
            return case, history(r, wd, GW if case['wasm'] else G, case)
        finally: shutil.rmtree(wd, ignore_errors=True)
    allh = {}
    for root, sub in ((d, 'src'), (d, 'libsrc')):
        for dp, dn, fn in os.walk(os.path.join(root, sub)):
            for f in fn:
                if f.endswith('.h'): allh[os.path.relpath(os.path.join(dp, f), d)] = open(os.path.join(dp, f), 'rb').read()
    for f in own:
        wasm = chk.rng.random() < .3 and f in wsrc
        cases.append(dict(files=dict(allh, **{f: open(os.path.join(d, f), 'rb').read()}), srcs=[f], opts=(D + ['-DXCC_TARGET_ARCH=XCC_ARCH_WASM'] + inc) if wasm else (D + ['-DXCC_TARGET_ARCH=XCC_ARCH_X64'] + inc), wasm=wasm, named=True, nolink=True, own=True))
    res = H.pmap(one, [(k, chk.rng.random(), c) for k, c in enumerate(cases)])
    chk.log('ran')
    reps = H.spec_cases('CDeterm', [dict(named=c['named'], runs=h[0]) for c, h in res], chk)
    for (c, (runs, log, outs)), q in zip(res, reps):
        chk.add('histories'); chk.add('runs', sum(1 for x in runs if not x['op'].endswith('says')))
        chk.add('runs that fail', sum(1 for x in runs if not x['ok'] and not x['op'].endswith('says')))
        if q['why'] == '': continue
        i = q['at'] - 1; R = runs[i]
        def same(x):
            y = runs[x]
            return x < i and y['op'] == R['op'] and y['out'] != R['out'] and (y['ins'] == R['ins'] or [z[1] for z in y['ins']] == [z[1] for z in R['ins']])
        j = next((x for x in range(i) if same(x)), None)
        files = {n: b for n, b in c['files'].items() if not c.get('own') or n in c['srcs']}
        files = {n.replace('/', '__'): b for n, b in files.items()}
        files['history.txt'] = '\n'.join(log)
        files['this_run'] = outs[i]
        if j is not None: files['other_run'] = outs[j]
        chk.violation(f'{q["why"]} {R["op"]}', f'{q["why"]}: {R["op"]} of {R["ins"]}, run {i}' + (f' against run {j}' if j is not None else ''), files)
    for c, (runs, log, outs) in res[:3]: chk.sample('\n'.join(log)[:1500])
