"""C14: malloc, calloc, realloc, free (spec/Heap.tla): recorded histories of the real allocator are behaviours of the abstract heap."""
import harness as H
import creplay, libdrv

DRIVER = libdrv.PRELUDE + r'''
#include <stdlib.h>
#ifdef __WASM
#define TOP ((size_t)__builtin_memory_size() << 16)
#else
#define TOP ((size_t)sbrk(0))
#endif
struct op { char k; int id; size_t n, m; };
#define SLOTS 512
static unsigned char *adr[SLOTS]; static size_t len[SLOTS]; static int gen[SLOTS];
static int pat(int id, size_t i) { return (int)((id * 31 + gen[id] * 17 + i * 7 + (i >> 8) * 13 + 1) & 255); }
static void fill(int id) { size_t i; ++gen[id]; for (i = 0; i < len[id]; ++i) adr[id][i] = pat(id, i); }
static size_t intact(int id, unsigned char *p, size_t n) { size_t i; for (i = 0; i < n && p[i] == pat(id, i); ++i) ; return i; }
static size_t base;
static void extent(void) { sp(); pu((TOP - base) / 16); }
static void addr(void *p) { size_t v = (size_t)p; if (p == NULL) ps(" 1 0 0"); else { ps(" 0 "); pu(v >> 28); sp(); pu(v & 268435455); } }
static unsigned rs; static unsigned rnd(unsigned n) { rs = rs * 1103515245u + 12345u; return (rs >> 8) % n; }
static void churn(int seed, int steps, int slots, size_t max) {
  size_t b0 = TOP; size_t live = 0, peak = 0; int errs = 0; int i;
  rs = seed;
  for (i = 0; i < steps; ++i) {
    int id = SLOTS - 1 - (int)rnd(slots);
    size_t n = rnd(8) ? rnd(max / 8 + 1) : rnd(max + 1);
    if (adr[id] == NULL) {
      unsigned char *p = rnd(4) ? malloc(n) : calloc(1, n);
      if (p == NULL) { ++errs; continue; }
      adr[id] = p; len[id] = n; fill(id); live += n + 64;
    } else {
      if (intact(id, adr[id], len[id]) != len[id]) ++errs;
      live -= len[id] + 64;
      if (rnd(3) == 0) {
        size_t old = len[id]; unsigned char *p = realloc(adr[id], n + 1);
        if (p == NULL) { ++errs; live += old + 64; continue; }
        adr[id] = p; len[id] = n + 1;
        if (intact(id, p, old < n + 1 ? old : n + 1) != (old < n + 1 ? old : n + 1)) ++errs;
        fill(id); live += n + 1 + 64;
        if (live + old + 64 > peak) peak = live + old + 64;
      } else { free(adr[id]); adr[id] = NULL; }
    }
    if (live > peak) peak = live;
  }
  for (i = 0; i < SLOTS; ++i) if (i >= SLOTS - slots && adr[i]) { if (intact(i, adr[i], len[i]) != len[i]) ++errs; free(adr[i]); adr[i] = NULL; }
  ps("x "); pi(errs); sp(); pu(peak / 16); sp(); pu((TOP - b0) / 16); nl();
}
static void step(const struct op *o) {
  int id = o->id; size_t n = o->n; void *p; size_t z;
  switch (o->k) {
  case 'm': p = malloc(n); ps("m "); pi(id); addr(p); nl(); if (p) { adr[id] = p; len[id] = n; fill(id); } break;
  case 'c': p = calloc(o->m, n); ps("c "); pi(id); addr(p); sp(); n *= o->m; for (z = 0; p && z < n && ((char*)p)[z] == 0; ++z) ; pu(z); nl();
            if (p) { adr[id] = p; len[id] = n; fill(id); } break;
  case 'r': { size_t old = adr[id] ? len[id] : 0; size_t b = intact(id, adr[id], old);
              p = realloc(adr[id], n); ps("r "); pi(id); addr(p); sp(); pu(b); sp();
              pu(p == NULL ? 0 : intact(id, p, old < n ? old : n)); nl();
              adr[id] = p; if (p) { len[id] = n; fill(id); } break; }
  case 'M': p = malloc(n); ps("M"); addr(p); nl(); break;
  case 'C': p = calloc(n, o->m); ps("C"); addr(p); nl(); break;
  case 'R': { size_t b = intact(id, adr[id], len[id]); p = realloc(adr[id], n); ps("R "); pi(id); addr(p); sp(); pu(b); sp(); pu(p ? 0 : intact(id, adr[id], len[id])); nl(); break; }
  case 'f': ps("f "); pi(id); sp(); pu(adr[id] ? intact(id, adr[id], len[id]) : 0); nl(); free(adr[id]); adr[id] = NULL; break;
  case 'v': { int i; ps("v"); for (i = 0; i < SLOTS; ++i) if (adr[i]) { sp(); pi(i); sp(); pu(intact(i, adr[i], len[i])); } nl(); break; }
  case 'e': ps("e"); extent(); nl(); break;
  case 'x': churn(id, (int)n, (int)(o->m & 255), o->m >> 8); break;
  }
}
static const struct op ops[] = {
%s
};
int main(void) { int i; base = TOP; for (i = 0; i < (int)(sizeof ops / sizeof *ops); ++i) step(&ops[i]); flush_(); return 0; }
'''

def size(r, mx):
    x = r.random()
    if x < .1: return r.choice([0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 64])
    if x < .3: return min(mx, max(0, r.choice([16, 256, 4096, 8192, 4080, 4064]) + r.choice([-33, -32, -17, -16, -1, 0, 1, 15, 16, 17])))
    if x < .8: return r.randrange(0, min(mx, 200) + 1)
    return r.randrange(0, mx + 1)

def history(r, n, mx, slots, tg):
    """a random history of calls; phases shift the balance between allocation and release, so that the free list is walked, split and merged in every order"""
    ops, live = [], {}
    big = (1 << 64) if tg == 'x64' else (1 << 32)
    up = .6
    for k in range(n):
        if k % 25 == 0: up = r.choice([.25, .5, .5, .75, .9])
        free = [i for i in range(slots) if i not in live]
        x = r.random()
        if x < .02: ops.append(('M', 0, big - r.choice([1, 2, 8, 15, 16, 17, 31, 32, 48, 4096, 4097, 8000]), 0))
        elif x < .04:
            a = r.choice([2, 3, 16, 256, 1 << 10]); q = r.choice([0, 0, 0, 1, 5])
            b_ = (big // a + 1 + q) if r.random() < .7 else big - 1 - q
            ops.append(('C', 0, *((a, b_) if r.random() < .5 else (b_, a))))
        elif x < .05 and live: ops.append(('R', r.choice(list(live)), big - r.choice([1, 15, 16, 17, 40, 4096]), 0))
        elif x < .09: ops.append(('v', 0, 0, 0))
        elif x < .11: ops.append(('f', r.choice(free), 0, 0) if free else ('e', 0, 0, 0))
        elif x < .25 and live:
            i = r.choice(list(live)); s = r.choice([0, size(r, mx), size(r, mx), live[i], live[i] + 1, max(1, live[i] - 1), live[i] * 2 if live[i] * 2 <= mx else 1])
            ops.append(('r', i, s, 0))
            if s: live[i] = s
            else: del live[i]
        elif x < .28 and free: i = r.choice(free); s = max(1, size(r, mx)); ops.append(('r', i, s, 0)); live[i] = s
        elif free and (not live or r.random() < up):
            i = r.choice(free); s = size(r, mx)
            if r.random() < .3:
                a = r.choice([1, 2, 3, 8]); s = s // a; p = (s, a) if r.random() < .5 else (a, s)
                ops.append(('c', i, *p)); live[i] = p[0] * p[1]
            else: ops.append(('m', i, s, 0)); live[i] = s
        elif live:
            i = r.choice(list(live)) if r.random() < .5 else (min if r.random() < .5 else max)(live)
            ops.append(('f', i, 0, 0)); del live[i]
    ops.append(('v', 0, 0, 0))
    for i in r.sample(sorted(live), len(live)): ops.append(('f', i, 0, 0))
    ops.append(('e', 0, 0, 0))
    return ops

def coalesce(r, tg):
    """fill with small blocks, free them all in some order, then ask for the whole as few large ones; repeated, sizes growing"""
    ops = []
    for rnd in range(r.choice([4, 6])):
        n = r.randrange(5, 30); s = r.choice([16, 100, 1000])
        for i in range(n): ops.append(('m', i, max(1, s + r.randrange(-8, 9)), 0))
        o = list(range(n)); k = r.choice([0, 1, 2, 3])
        if k == 1: o.reverse()
        elif k == 2: r.shuffle(o)
        elif k == 3: o = o[::2] + o[1::2]
        for i in o: ops.append(('f', i, 0, 0))
        ops.append(('e', 0, 0, 0))
        tot = n * (s - 8)
        for i in range(2): ops.append(('m', i, max(1, tot // 2 - 64), 0))
        ops.append(('e', 0, 0, 0)); ops.append(('v', 0, 0, 0))
        for i in r.sample([0, 1], 2): ops.append(('f', i, 0, 0))
    return ops

def fixed():
    """bounded live set, many rounds of one pattern: the extent must stop growing"""
    ops = []
    for rnd in range(40):
        for i in range(6): ops.append(('m', i, 3000 + 16 * ((rnd * 7 + i * 5) % 40), 0))
        for i in (3, 0, 5, 1): ops.append(('f', i, 0, 0))
        ops += [('r', 2, 5000 + rnd, 0), ('f', 4, 0, 0), ('f', 2, 0, 0)]
        if rnd % 10 == 9: ops.append(('e', 0, 0, 0))
    return ops

def events(ops, lines):
    """recorded lines -> events for the specification; None when the driver's record is incomplete"""
    ev = []
    if len(lines) != len(ops): return None
    for o, l in zip(ops, lines):
        f = l.split(); k = o[0]; n = o[2] * o[3] if k == 'c' else o[2]
        if f[0] != k: return None
        v = [int(x) for x in f[1:]]
        if k == 'm': ev.append(dict(op='m', b=o[1] + 1, n=n, huge=False, null=v[1] == 1, a=v[2:4]))
        elif k == 'c': ev.append(dict(op='c', b=o[1] + 1, n=n, huge=False, null=v[1] == 1, a=v[2:4], zero=v[4]))
        elif k == 'r': ev.append(dict(op='r', b=o[1] + 1, n=n, huge=False, null=v[1] == 1, a=v[2:4], before=v[4], keep=v[5]))
        elif k in 'MC': ev.append(dict(op='m', b=9999, n=1, huge=True, null=v[0] == 1, a=v[1:3]))
        elif k == 'R': ev.append(dict(op='r', b=o[1] + 1, n=1, huge=True, null=v[1] == 1, a=v[2:4], before=v[4], keep=v[5]))
        elif k == 'f': ev.append(dict(op='f', b=o[1] + 1, before=v[1]))
        elif k == 'v': ev.append(dict(op='v', all=[[v[i] + 1, v[i + 1]] for i in range(0, len(v), 2)]))
        elif k == 'e': ev.append(dict(op='e', ext=v[0]))
        elif k == 'x': ev.append(dict(op='x', errs=v[0], peak=v[1], ext=v[2]))
    return ev

def text(ops):
    return DRIVER.replace('%s', ',\n'.join("{'%s',%d,%sU,%s}" % (k, i, hex(n) + 'L' * (n >= 1 << 32) , hex(m) + 'U' + 'L' * (m >= 1 << 32)) for k, i, n, m in ops))

def check(chk, b, tg, hs):
    tgt = creplay.targets(b, [tg])[0]
    al = 16 if tg == 'x64' else 8
    rs = creplay.run_sources(tgt, [text(h) for h in hs])
    chk.add('traces_validated_against_impl', len(rs))
    cases, idx = [], []
    for k, (h, x) in enumerate(zip(hs, rs)):
        if x[1] == 'skipped': continue
        ev = events(h, x[2].strip('\n').split('\n')) if x[0] == 'ran' and x[1] == 0 else None
        if ev is None:
            chk.violation(f'heap {tg} history {k}', f'the program did not finish: {x[0]} {x[1]} {x[2][-300:]}', {'prog.c': text(h), 'out.txt': x[2]}); continue
        chk.add('operations', len(ev))
        cases.append(dict(al=al, ev=ev)); idx.append(k)
    for k, rep in zip(idx, H.spec_cases('Heap', cases, chk)):
        if rep['why']:
            o = hs[k][rep['at'] - 1]
            chk.violation(f'heap {tg} {rep["why"]}', f'history {k}, event {rep["at"]}: {o}', {'prog.c': text(hs[k]), 'out.txt': rs[k][2]})
            if len(chk.viol) > 10: return

def main(chk):
    b = H.build()
    r = chk.rng
    q = chk.quick()
    for tg in ('x64', 'wasm'):
        hs = [fixed()]
        hs += [history(r, r.choice([60, 150, 300]), r.choice([200, 1000, 6000, 20000]), r.choice([6, 20, 60]), tg) for _ in range(30 if q else 300)]
        hs += [coalesce(r, tg) for _ in range(10 if q else 60)]
        hs += [[('x', r.randrange(1 << 30), 20000 if q else 100000, r.choice([5, 30, 120]) | r.choice([64, 600, 3000, 9000]) << 8)] for _ in range(8 if q else 40)]
        check(chk, b, tg, hs)
        chk.log(f'{tg}: {len(hs)} histories')
