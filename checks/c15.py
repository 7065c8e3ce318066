"""C15: standard I/O streams (spec/CStdio.tla).

A behaviour of the specification is a program: a history of stdio calls on up to five streams
(stdin fed by a pipe in pieces, stdout, files in every mode, memory streams).  The calls the
specification defines are compiled with the library under test, run, and every result, the
files seen from outside and the files after exit are compared."""
import os, subprocess, threading, time
import harness as H
import creplay, libdrv
from libdrv import cstr

OPS = ['open', 'memstream', 'memopen', 'getc', 'read', 'gets', 'getline', 'ungetc', 'putc', 'write', 'puts', 'putsnl', 'printf', 'seek', 'tell',
       'eof', 'flush', 'close', 'look', 'flushall', 'tmpfile', 'full', 'remove']
ON = {o: i for i, o in enumerate(OPS)}
SRC = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
static int lfd;
''' + libdrv.PRELUDE.replace('write(1,', 'write(lfd,') + r'''
struct op { short op, s; int n, m; const char *t; int len; const char *name; };
static const struct op ops[] = {
%OPS%
};
static FILE *S[6];
static char *mp[6]; static size_t ms[6]; static char *fb[6]; static int fn[6];
static char big[4096]; static char *lp; static size_t lc;
static void hx(const char *p, int n) { int i; sp(); pc('.'); for (i = 0; i < n; ++i) ph((unsigned char)p[i]); }
static void memrep(int r, int s) { pi(r); sp(); pu(ms[s]); if (mp[s] == NULL) ps(" null"); else { hx(mp[s], (int)ms[s]); sp(); pi(mp[s][ms[s]] == 0); } }
static FILE *get(int s) { return s == 1 ? stdin : s == 2 ? stdout : S[s]; }
static void run(const struct op *o) {
  int s = o->s, i, r; FILE *f = get(s); size_t k; char *q;
  switch (o->op) {
  case 0: if (o->n) { int fd = open(o->name, *o->t == 'r' ? (o->t[1] ? O_RDWR : O_RDONLY) : (o->t[1] ? O_RDWR : O_WRONLY) | O_CREAT | (*o->t == 'a' ? O_APPEND : O_TRUNC), 0644);
            S[s] = fd < 0 ? NULL : fdopen(fd, o->t); }
          else S[s] = fopen(o->name, o->t);
          pi(S[s] != NULL); break;
  case 1: mp[s] = "?"; ms[s] = 7777; S[s] = open_memstream(&mp[s], &ms[s]); pi(S[s] != NULL); break;
  case 2: if (o->name[0] == 'r') { fb[s] = malloc(o->len + 1); memcpy(fb[s], o->t, o->len); fb[s][o->len] = 'Z'; fn[s] = o->len; }
          else { fb[s] = malloc(o->n + 8); fn[s] = o->n; memset(fb[s], 'Y', o->n + 8); }
          S[s] = fmemopen(fb[s], fn[s], o->name); pi(S[s] != NULL); break;
  case 3: pi(o->n ? getc(f) : fgetc(f)); break;
  case 4: memset(big, 0xa5, sizeof big); k = fread(big, o->n, o->m, f); pu(k); hx(big, (int)k * o->n);
          for (i = o->n * o->m; i < (int)sizeof big; ++i) if ((unsigned char)big[i] != 0xa5) { ps(" overrun"); break; }
          break;
  case 5: memset(big, 0xa5, sizeof big); q = fgets(big, o->n, f); pi(q == big ? 1 : q == NULL ? 0 : 9);
          if (q) { for (i = sizeof big - 1; i > 0 && (unsigned char)big[i] == 0xa5; --i) ; pi(big[i] == 0); hx(big, i); } else { pi(1); hx(big, 0); }
          break;
  case 6: if (o->n) { lp = NULL; lc = 0; }
          r = (int)getline(&lp, &lc, f); pi(r); if (r >= 0) { pi(lp[r] == 0 && lc > r); hx(lp, r); } else { pi(1); hx("", 0); } break;
  case 7: pi(ungetc(o->n, f)); break;
  case 8: pi(o->m ? putc(o->n, f) : fputc(o->n, f)); break;
  case 9: pu(fwrite(o->t, o->n, o->m, f)); break;
  case 10: pi(fputs(o->t, f) >= 0); break;
  case 11: pi(puts(o->t) >= 0); break;
  case 12: pi(o->n == 0 ? fprintf(f, "%s", o->t) : s == 2 ? printf("%.*s", o->len, o->t) : fprintf(f, "%.*s", o->len, o->t)); break;
  case 13: pi(fseek(f, o->n, o->m == 0 ? SEEK_SET : o->m == 1 ? SEEK_CUR : SEEK_END) == 0); break;
  case 14: pi(ftell(f)); break;
  case 15: pi(feof(f) != 0); break;
  case 16: r = fflush(f); if (o->m) memrep(r, s); else pi(r); break;
  case 17: r = fclose(f); if (o->m == 1) { memrep(r, s); free(mp[s]); mp[s] = NULL; }
           else if (o->m == 2) { pi(r); hx(fb[s], fn[s] + 8); }
           else if (o->m == 3) { pi(r); hx(fb[s], fn[s] + 1); }
           else pi(r);
           break;
  case 18: { int fd = open(o->name, O_RDONLY); if (fd < 0) { pi(-1); hx("", 0); } else { for (i = 0; (r = read(fd, big + i, sizeof big - i)) > 0; ) i += r; close(fd); pi(i); hx(big, i); } } break;
  case 19: pi(fflush(NULL)); break;
  case 20: S[s] = tmpfile(); pi(S[s] != NULL); break;
  case 21: S[s] = fopen("/dev/full", "w"); pi(S[s] != NULL); break;
  case 22: pi(remove(o->name) == 0); break;
  }
}
int main(void) {
  int i;
  lfd = open("%LOG%", O_WRONLY | O_CREAT | O_TRUNC, 0644);
  for (i = 0; i < (int)(sizeof ops / sizeof *ops); ++i) { pi(i); sp(); flush_(); run(&ops[i]); nl(); flush_(); }
  return 0;
}
'''
MODES = ['r', 'w', 'a', 'r+', 'w+', 'a+']

def blob(r, n, text=False):
    x = r.random()
    if text: al = b'abc\n' if x < .5 else b'xyz 01\n%'
    elif x < .3: al = bytes(range(256))
    elif x < .6: al = b'ab\n\n'
    else: al = b'\x00\xff\x80\x0aq'
    if r.random() < .2: return [r.choice(al)] * n
    if r.random() < .25:                      # lines whose lengths are around powers of two
        o = []
        while len(o) < n: o += [r.choice(al[:3])] * (r.choice([16, 32, 64, 128]) + r.choice([-2, -1, 0, 1])) + [10]
        return o[:n]
    return [r.choice(al) for _ in range(n)]

def size(r):
    x = r.random()
    if x < .35: return r.randrange(0, 6)
    if x < .55: return r.choice([127, 128, 129, 126, 255, 256, 257, 191, 192, 193, 254, 383, 384, 385])
    return r.randrange(0, 420)

def gen(r, wasm):
    names = ['a', 'b', 'c']
    fs = {n: ([-1] if r.random() < .35 else blob(r, size(r), r.random() < .5)) for n in names}
    fs['stdout'] = []
    for s in (3, 4, 5): fs[f't{s}'] = [-1]
    c = dict(fs=fs, slots=5, stdin=[-1] if wasm or r.random() < .4 else blob(r, r.randrange(0, 1200), r.random() < .6), calls=[], exitlook=1)
    can = {}                                   # slot -> rough idea of what it is, to aim the calls
    if c['stdin'] != [-1]: can[1] = 'r'
    can[2] = 'w'
    def add(op, s=1, n=0, m=0, b=(), mode='', name=''):
        c['calls'].append(dict(op=op, s=s, n=n, m=m, b=list(b), mode=mode, name=name))
    pend = {}
    for _ in range(r.choice([12, 25, 45])):
        free = [s for s in (3, 4, 5) if s not in can]
        if free and (r.random() < .25 or len(can) < 2):
            s = r.choice(free); x = r.random()
            if x < .16: add('memstream', s); can[s] = 'm'
            elif x < .21: add('memopen', s, b=[v or 1 for v in blob(r, r.randrange(1, 60), True)], mode='r'); can[s] = 'r'
            elif x < .27: add('memopen', s, n=r.randrange(2, 80), mode='w'); can[s] = 'w'
            elif x < .31: add('tmpfile', s, name=f't{s}'); can[s] = 'b'
            elif x < .34 and not wasm: add('full', s); can[s] = 'w'
            else:
                m = r.choice(MODES)
                add('open', s, n=r.choice([0, 0, 1]), mode=m, name=r.choice(names), m=r.choice([0, 0, 1, 2])); can[s] = 'r' if m == 'r' else 'w' if m in 'wa' else 'b'
            continue
        x = r.random()
        if x < .05: add('look', name=r.choice(names)); continue
        if x < .07: add('flushall'); continue
        if x < .08: add('remove', name=r.choice(names)); continue
        s = r.choice(list(can)); k = can[s]
        if x < .14 and s > 2 or (x < .075 and s == 2): add('close', s); del can[s]; continue
        if r.random() < .3 and s > 1:
            op = r.choice(['seek', 'seek', 'seek', 'tell', 'tell', 'eof', 'flush'])
            if op == 'seek':
                w = r.choice([0, 1, 2])
                n = size(r) if w == 0 else r.choice([0, 0, 1, -1, -2, 5, -5, size(r), -size(r)]) if w == 1 else r.choice([0, 0, 0, -1, -3, 2, -size(r)])
                add('seek', s, n, w)
            else: add(op, s)
            continue
        if k == 'm' and r.random() < .3:         # overwrite in the middle
            b = blob(r, size(r), True)
            add('write', s, 1, len(b), b); add('seek', s, r.choice([0, 1, 7, -3]), r.choice([0, 2, 1])); add('write', s, 1, 3, [88, 89, 90])
            if r.random() < .8: add('seek', s, r.choice([0, 0, 2, -1]), 2)
            if r.random() < .3: add('write', s, 1, 3, [88, 89, 90])
            add(r.choice(['flush', 'tell']), s)
            continue
        d = k if k in 'rw' else r.choice('rw') if k == 'b' else 'w'
        if k == 'b' and r.random() < .6: add('seek', s, r.choice([0, 0, 1, size(r)]), r.choice([0, 1, 2]) if r.random() < .5 else 1)
        if r.random() < .04: d = 'r' if d == 'w' else 'w'
        for _ in range(r.choice([1, 1, 2, 4])):
            if d == 'r':
                op = r.choice(['getc', 'getc', 'read', 'read', 'read', 'gets', 'gets', 'getline', 'ungetc', 'eof', 'tell'])
                if op == 'read':
                    n = r.choice([1, 1, 1, 2, 3, 4, 7, 0]); add(op, s, n, (size(r) if n == 1 else r.choice([0, 1, 3, 40, 64, 85])))
                elif op == 'gets': add(op, s, r.choice([1, 2, 3, 10, 128, 129, 300]))
                elif op == 'ungetc':
                    if r.random() < .5: add('getc', s)
                    add(op, s, r.choice([65, 10, 0, 255, 200, -1, 300, -56]))
                    if r.random() < .3: add(r.choice(['read', 'eof', 'tell', 'getline']), s, 1, 9)
                elif op == 'getc': add(op, s, r.choice([0, 1]))
                elif op == 'getline': add(op, s, r.choice([0, 1]))
                else: add(op, s)
            else:
                op = r.choice(['putc', 'write', 'write', 'write', 'puts', 'puts', 'printf', 'printf', 'tell', 'flush'] + (['putsnl'] * 4 if s == 2 else []))
                if op == 'putc': add(op, s, r.choice([65, 10, 0, 255, 256 + 66, -1]), r.choice([0, 1]))
                elif op == 'write':
                    n = r.choice([1, 1, 1, 2, 3, 7, 0]); m = size(r) if n == 1 else r.choice([0, 1, 3, 40, 64])
                    add(op, s, n, m, blob(r, n * m))
                elif op in ('puts', 'printf', 'putsnl'): add(op, s, r.choice([0, 1]), 0, [v or 7 for v in blob(r, 0 if r.random() < .15 else size(r), True)])
                else: add(op, s)
    if r.random() < .5: add('look', name=r.choice(names))
    return c

def source(c, exp, pre, log):
    """the program of the calls the specification defines"""
    kind, rows, ro = {}, [], {}
    for k, e in zip(c['calls'], exp['outs']):
        if not e['ok']: continue
        op, s, m, name, t = k['op'], k['s'], k['m'], k['name'], cstr(k['b'])
        if op == 'open':                       # the binary flag changes nothing the program can see
            md = k['mode']
            if m: md = md[0] + ('+b' if m == 1 else 'b+') if '+' in md else md + 'b'
            t = cstr(md.encode())
        if op in ('open', 'look', 'remove'): name = pre + name
        if op == 'memopen': name = k['mode']
        if op == 'memstream': kind[s] = 1
        elif op == 'memopen' and k['mode'] == 'w': kind[s] = 2
        elif op == 'memopen': kind[s] = 3; ro[s] = k['b']
        elif op in ('open', 'tmpfile', 'full'): kind[s] = 0
        if op == 'flush': m = 1 if kind.get(s) == 1 else 0
        if op == 'close':
            m = kind.get(s, 0)
            if m == 3: e['r'] = dict(k='b', v=0, b=ro[s] + [0x5a])       # a stream for reading leaves the buffer alone
        rows.append(f'{{{ON[op]}, {s}, {k["n"]}, {m}, {t}, {len(k["b"])}, {cstr(name.encode())}}},')
    return SRC.replace('%OPS%', '\n'.join(rows)).replace('%LOG%', log)

def hexs(b): return '.' + ''.join('%02x' % x for x in b)

def expected(c, exp):
    """per defined call: (call, predicate over the observed text, text)"""
    out = []
    for k, e in zip(c['calls'], exp['outs']):
        if not e['ok']: continue
        r, op = e['r'], k['op']
        if r['k'] in 'nt': out.append((k, str(r['v']), None))
        elif r['k'] == 'b':
            v = str(r['v']) + ('1' if op in ('gets', 'getline') else '')
            out.append((k, v + ' ' + hexs(r['b']), None))
        elif r['k'] in 'xl': out.append((k, r['k'], None))
        elif r['k'] == 'm': out.append((k, f'{r["v"]} {len(r["b"])} {hexs(r["b"])} ' + ('1' if r['nul'] else '?'), None))
        elif r['k'] == 'f': out.append((k, f'{r["v"]} {hexs(r["b"])}' + ('00' if r['nul'] else '') + '*', k['n']))
    return out

def same(want, got):
    if want.endswith('*'): return got.startswith(want[:-1]) and got.endswith('59' * 8)
    if want.endswith('?'): return got[:-1] == want[:-1]
    return want == got

def feed(p, data, r):
    try:
        i = 0
        while i < len(data):
            n = r.choice([1, 3, 50, 100, 128, 256, 257, 600]); p.stdin.write(bytes(data[i:i + n])); p.stdin.flush(); i += n
            time.sleep(r.choice([0, 0, .002]))
        p.stdin.close()
    except (BrokenPipeError, OSError): pass

def run_native(exe, cwd, stdin, r, timeout=10):
    p = subprocess.Popen([exe], cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    th = None
    if stdin is not None:
        th = threading.Thread(target=feed, args=(p, stdin, r), daemon=True); th.start()
    buf = []
    rd = threading.Thread(target=lambda: buf.append(p.stdout.read()), daemon=True); rd.start()
    try: rc = p.wait(timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = 'timeout'
    rd.join(5)
    if th: th.join(5)
    return rc, (buf[0] if buf else b'')

def run_target(chk, tgt, cases, specs, seed):
    import random
    d = H.mkdir('c15-' + tgt.name)
    pre = '/' if tgt.tg == 'wasm' else ''
    if tgt.tg == 'wasm': os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
    def prep(i):
        c = cases[i]
        p = f'{pre}p{i}_'
        for n, v in c['fs'].items():
            fn = os.path.join(d, f'p{i}_{n}')
            if os.path.exists(fn): os.unlink(fn)
            if v != [-1] and n != 'stdout': open(fn, 'wb').write(bytes(v))
        src = os.path.join(d, f'p{i}.c'); exe = os.path.join(d, f'p{i}.' + ('wasm' if tgt.tg == 'wasm' else 'exe'))
        open(src, 'w').write(source(c, specs[i], p, f'{pre}p{i}_log'))
        rc, o, e = H.run([tgt.cc, *tgt.flags, '-o', exe, src], timeout=30)
        if rc != 0: return ('compile', rc, e.decode('latin1')[-800:])
        if tgt.tg == 'wasm': return ('wasm', exe, '')
        rc, out = run_native(exe, d, None if c['stdin'] == [-1] else c['stdin'], random.Random(f'{seed}-{i}'))
        return ('ran', rc, out)
    res = list(H.pmap(prep, range(len(cases))))
    if tgt.tg == 'wasm':
        idx = [i for i, x in enumerate(res) if x[0] == 'wasm']
        for i, g in zip(idx, H.run_wasm_batch([res[i][1] for i in idx], workdir=d)): res[i] = ('ran', g[0], g[1])
    return d, res

def judge(d, i, c, spec, res):
    if res[0] != 'ran': return f'compiler failed: {res[2]}'
    if res[1] == 'skipped': return None
    try: log = open(os.path.join(d, f'p{i}_log'), 'rb').read().decode('latin1').split('\n')
    except OSError: log = []
    want = expected(c, spec)
    lost = set()
    for j, (k, w, _) in enumerate(want):
        g = log[j] if j < len(log) else '<none>'
        g = g.split(' ', 1)[1] if ' ' in g else g
        if k['op'] == 'full': lost.discard(k['s'])
        if w in ('x', 'l') and g not in ('<none>', ''):
            full = {'putc': k['n'] % 256, 'write': k['m'] if k['n'] else 0, 'puts': 1, 'printf': len(k['b'])}.get(k['op'], 0)
            if g != str(full): lost.add(k['s'])
            if w == 'x' or k['s'] in lost: continue
        if not same(w, g):
            kk = {x: y for x, y in k.items() if y not in ('', [])}
            if len(kk.get('b', [])) > 20: kk['b'] = kk['b'][:20] + ['...']
            return f'call {j} {kk}: specification {w[:120]}, library {g[:120]}'
    if res[1] != 0: return f'program ended with status {res[1]}'
    for n, v in spec['fs'].items():
        if n[0] == 't': continue
        if n == 'stdout': got = list(res[2])
        else:
            fn = os.path.join(d, f'p{i}_{n}')
            got = list(open(fn, 'rb').read()) if os.path.exists(fn) else [-1]
        if got != v: return f'after exit, {n} holds {len(got)} bytes {bytes(x & 255 for x in got)[:60]!r}, specification {len(v)} bytes {bytes(x & 255 for x in v)[:60]!r}'
    return None

def main(chk):
    b = H.build()
    r = chk.rng
    total = 160 if chk.quick() else 2500
    per = 160 if chk.quick() else 500
    for start in range(0, total, per):
        for names, share in ((['x64', 'gcc'], 5), (['wasm'], 3)):
            tgts = creplay.targets(b, names)
            if not os.environ.get('VERIF_DEV_TARGETS'): tgts = [t for t in tgts if t.name != 'gcc']
            if not tgts: continue
            cases = [gen(r, names[0] == 'wasm') for _ in range(per * share // 8)]
            specs = H.spec_cases('CStdio', cases, chk)
            chk.add('histories', len(cases))
            chk.add('calls_defined', sum(1 for s in specs for o in s['outs'] if o['ok']))
            chk.add('calls_undefined_skipped', sum(1 for s in specs for o in s['outs'] if not o['ok']))
            for t in tgts:
                d, res = run_target(chk, t, cases, specs, chk.seed)
                chk.add('traces_validated_against_impl', len(cases))
                for i, x in enumerate(res):
                    m = judge(d, i, cases[i], specs[i], x)
                    if m:
                        src = open(os.path.join(d, f'p{i}.c')).read()
                        chk.violation(f'{t.name}:{m[:40]}', f'{t.name}: {m}', {'history.c': src, 'case.json': H.json.dumps(cases[i])})
                        if len(chk.viol) > 5: return
            if start == 0:
                k = cases[0]; chk.sample('; '.join(f"{q['op']}({q['s']},{q['n']},{q['m']})" for q in k['calls'][:14]))
