"""C18: qsort and bsearch (spec/CSort.tla): recorded outcomes are behaviours of the sorting relation."""
import itertools
import harness as H
import creplay, libdrv

ORD = ['asc', 'desc', 'const', 'mod3', 'half', 'low4']
DRIVER = libdrv.PRELUDE + r'''
#include <stdlib.h>
#include <limits.h>
static int S, N, O, MAG; static unsigned char *A; static unsigned char keyobj[8]; static int wrong; static int inq;
static int keyof(const unsigned char *p) { return S >= 2 ? p[0] + 256 * p[1] : p[0]; }
static int rankof(int k) { switch (O) { case 0: return k; case 1: return -k; case 2: return 0; case 3: return k % 3; case 4: return k / 2; default: return -(k % 16); } }
static int order(int x, int y) {
  int d = x < y ? -1 : x > y ? 1 : 0;
  if (MAG == 1) return d < 0 ? INT_MIN : d > 0 ? INT_MAX : 0;
  if (MAG == 2) return x - y;
  if (MAG == 3) return d * 256;
  return d;
}
static int cmp(const void *p, const void *q) { return order(rankof(keyof(p)), rankof(keyof(q))); }
static int cmpq(const void *p, const void *q) {
  const unsigned char *e = q;
  if (p != (void*)keyobj || e < A || e >= A + (size_t)N * S || (e - A) % S != 0) { ++wrong; return 0; }
  return order(rankof(keyobj[0] + 256 * keyobj[1]), rankof(keyof(e)));
}
static unsigned char *top;
static int filler(int id, int i) { return (id * 37 + i * 11 + 5) & 255; }
static void one(const unsigned short *ks, const unsigned short *qs, int nq) {
  int i, k, torn = 0, spill = 0;
  A = top - (size_t)N * S;
  for (i = 1; i <= 32; ++i) A[-i] = 0xa5 ^ i;
  for (i = 0; i < N; ++i) {
    unsigned char *p = A + (size_t)i * S;
    p[0] = ks[i] & 255; if (S >= 2) p[1] = ks[i] >> 8;
    if (S >= 4) { p[2] = i & 255; p[3] = i >> 8; }
    for (k = 4; k < S; ++k) p[k] = filler(i, k);
    if (S == 3) p[2] = 0;
  }
  qsort(A, N, S, cmp);
  for (i = 1; i <= 32; ++i) if (A[-i] != (0xa5 ^ i)) ++spill;
  for (i = 0; i < N; ++i) {
    unsigned char *p = A + (size_t)i * S; int id = S >= 4 ? p[2] + 256 * p[3] : 0;
    for (k = 4; k < S; ++k) if (p[k] != filler(id, k)) ++torn;
    if (i) sp(); pi(keyof(p)); pc(','); pi(id);
  }
  ps(" | "); pi(spill); sp(); pi(torn); ps(" |");
  for (i = 0; i < nq; ++i) {
    void *p; wrong = 0; keyobj[0] = qs[i] & 255; keyobj[1] = qs[i] >> 8;
    p = bsearch(keyobj, A, N, S, cmpq);
    sp(); pi(qs[i]); pc(','); if (p == NULL) ps("-1"); else if (((unsigned char*)p - A) % S) ps("-9"); else pi(((unsigned char*)p - A) / S); pc(','); pi(wrong);
  }
  nl();
}
struct cs { int n, s, o, mag, k, q, nq; };
static const unsigned short keys[] = { %KEYS% };
static const struct cs cases[] = { %CASES% };
int main(void) {
  int i;
#ifdef __WASM
  top = malloc(70000); top += 70000;
#else
  { size_t t = (size_t)sbrk(0); top = (unsigned char*)((t + 4095) / 4096 * 4096 + 131072); sbrk((intptr_t)((size_t)top - t)); }
#endif
  for (i = 0; i < (int)(sizeof cases / sizeof *cases); ++i) {
    const struct cs *c = &cases[i];
    N = c->n; S = c->s; O = c->o; MAG = c->mag;
    one(keys + c->k, keys + c->q, c->nq); flush_();
  }
  return 0;
}
'''

def shape(r, n, hi):
    k = r.choice(['rand', 'rand', 'few', 'sorted', 'rev', 'organ', 'saw', 'nearly', 'equal', 'killer'])
    if k == 'rand': return [r.randrange(hi) for _ in range(n)]
    if k == 'few': return [r.choice([0, hi - 1, hi // 2]) for _ in range(n)]
    if k == 'equal': return [hi - 1] * n
    a = sorted(r.randrange(hi) for _ in range(n))
    if k == 'sorted': return a
    if k == 'rev': return a[::-1]
    if k == 'organ': return a[::2] + a[1::2][::-1]
    if k == 'saw': return [i % max(1, n // 4) % hi for i in range(n)]
    if k == 'killer':                               # the middle is always an extreme
        v = list(range(n)); 
        for i in range(n - 1, 0, -1): v[i], v[i >> 1] = v[i >> 1], v[i]
        return [x % hi for x in v]
    for _ in range(2):
        if n: i, j = r.randrange(n), r.randrange(n); a[i], a[j] = a[j], a[i]
    return a

def queries(r, a, hi):
    q = []
    for _ in range(r.choice([0, 3, 8])):
        q.append(r.choice(a) if a and r.random() < .5 else r.randrange(hi))
    if a: q += [min(a), max(a)]
    return q + [0, hi - 1]

def cases(r, quick):
    cs = []
    L = 6 if quick else 7
    for n in range(0, L + 1):                       # every array over three keys up to length L
        for a in itertools.product(range(3), repeat=n):
            if n == L and quick and r.random() < .5: continue
            cs.append((list(a), r.choice([1, 2, 4, 8, 12]), 0, r.choice([0, 0, 1, 2, 3]), [0, 1, 2, 3] if r.random() < .3 else []))
    for p in itertools.permutations(range(5)): cs.append((list(p), 4, r.choice([0, 1]), 0, list(range(6))))
    for _ in range(400 if quick else 3000):
        s = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 64, 100])
        n = r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 40, 63]) if r.random() < .6 else r.randrange(0, 160)
        hi = r.choice([2, 5, 200, 256]) if s == 1 else r.choice([2, 5, 300, 60000])
        a = shape(r, n, hi)
        cs.append((a, s, r.randrange(6), r.choice([0, 0, 1, 2, 3]), queries(r, a, hi)))
    for _ in range(6 if quick else 40):
        n = r.choice([700, 1500, 2000]); a = shape(r, n, 60000)
        cs.append((a, r.choice([4, 8, 12]), r.choice([0, 1, 4]), 0, queries(r, a, 60000)))
    return cs

def text(cs):
    keys, out = [], []
    for a, s, o, mag, q in cs:
        k = len(keys); keys += a; kq = len(keys); keys += q
        out.append('{%d,%d,%d,%d,%d,%d,%d}' % (len(a), s, o, mag, k, kq, len(q)))
    return DRIVER.replace('%KEYS%', ','.join(map(str, keys or [0]))).replace('%CASES%', ',\n'.join(out))

def parse(c, l):
    a, s, o, mag, q = c
    p, x, y = l.split('|')
    b = [[int(v) for v in t.split(',')] for t in p.split()]
    spill, torn = map(int, x.split())
    qs = [[int(v) for v in t.split(',')] for t in y.split()]
    ids = s >= 4
    if ids: b = [[k, i + 1] for k, i in b]
    return dict(a=[[k, i + 1 if ids else 0] for i, k in enumerate(a)], b=b, o=ORD[o], ids=ids, spill=spill, torn=torn, q=qs)

def check(chk, b, tg, cs):
    per = 120
    groups = [cs[i:i + per] for i in range(0, len(cs), per)]
    tgt = creplay.targets(b, [tg])
    if not tgt: return
    tgt = tgt[0]
    res = creplay.run_sources(tgt, [text(g) for g in groups])
    chk.add('traces_validated_against_impl', len(cs))
    sc, back = [], []
    for g, x in zip(groups, res):
        if x[1] == 'skipped': continue
        ls = x[2].split('\n')[:-1] if x[0] == 'ran' else []
        for i, c in enumerate(g):
            if i >= len(ls):
                chk.violation(f'{tg} no answer', f'n={len(c[0])} size={c[1]} order={ORD[c[2]]} keys={c[0][:50]}: program ended {x[0]} {x[1]} {x[2][-200:]}', {'prog.c': text([c])}); break
            try: sc.append(parse(c, ls[i])); back.append(c)
            except ValueError: chk.violation(f'{tg} garbled record', ls[i][:300], {'prog.c': text([c])}); break
    for c, rp in zip(back, H.spec_cases('CSort', sc, chk)):
        if rp['why']:
            chk.violation(f'{tg} {rp["why"]}', f'n={len(c[0])} size={c[1]} order={ORD[c[2]]} keys={c[0][:60]} queries={c[4]}', {'prog.c': text([c])})
            if len(chk.viol) > 10: return

def main(chk):
    b = H.build()
    for tg in ('x64', 'wasm'):
        cs = cases(chk.rng, chk.quick())
        check(chk, b, tg, cs)
        chk.log(f'{tg}: {len(cs)} arrays')
