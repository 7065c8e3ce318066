"""C17: string, memory, character and number-parsing functions (spec/CString.tla)."""
import harness as H
import creplay, libdrv
from libdrv import cstr

PTR2 = ['memcpy', 'memmove', 'memcmp', 'strncmp', 'strncpy', 'stpncpy', 'strncat', 'strncasecmp']      # (a, b, n)
STR2 = ['strcpy', 'stpcpy', 'strcat', 'strcmp', 'strcoll', 'strcasecmp', 'strstr', 'strspn', 'strcspn', 'strpbrk']    # (a, b)
STR1 = ['strlen', 'strdup', 'atoi', 'atol', 'atoll']
STRN = ['strnlen', 'strndup']
CHR = ['strchr', 'strrchr']
NUMS = ['strtol', 'strtoll', 'strtoul', 'strtoull']
CLS = ['isdigit', 'isxdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isascii', 'isprint', 'isgraph', 'iscntrl', 'ispunct']

def driver():
    o = [libdrv.PRELUDE, r'''
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <ctype.h>
static unsigned char *A; static int N; static char *sv;
static void dump(void) { int i; sp(); for (i = 0; i < N; ++i) ph(A[i]); nl(); }
static void rp(const void *p) { ps("p "); if (p == NULL) ps("-1"); else pi((const unsigned char*)p - A); dump(); }
static void ru(size_t n) { ps("u "); pu(n); dump(); }
static void rs(int n) { ps("s "); pi(n < 0 ? -1 : n > 0 ? 1 : 0); dump(); }
static void rt(int n) { ps("t "); pi(n != 0); dump(); }
static void rb(char *p) { unsigned char *q = (unsigned char*)p; ps("b ."); if (p == NULL) ps("null"); else for (; *q; ++q) ph(*q); free(p); dump(); }
static void rn(long long v, const char *e) { ps("n "); pi(v); sp(); if (e == NULL) pc('0'); else pi((const unsigned char*)e - A); dump(); }
static void rv(unsigned long long v, const char *e) { ps("n "); pu(v); sp(); pi((const unsigned char*)e - A); dump(); }
static void call(int f, int a, int b, int c, size_t n) {
  unsigned char *x = A + a, *y = A + b; char *e = NULL;
  switch (f) {
''']
    fs = []
    def case(name, code):
        o.append(f'  case {len(fs)}: {{ {code} }} break;\n'); fs.append(name)
    for f in ['memcpy', 'memmove', 'strncpy', 'stpncpy', 'strncat']: case(f, f'rp({f}((void*)x, (void*)y, n));')
    for f in ['memcmp', 'strncmp', 'strncasecmp']: case(f, f'rs({f}((void*)x, (void*)y, n));')
    for f in ['strcpy', 'stpcpy', 'strcat', 'strstr', 'strpbrk']: case(f, f'rp({f}((char*)x, (char*)y));')
    for f in ['strcmp', 'strcoll', 'strcasecmp']: case(f, f'rs({f}((char*)x, (char*)y));')
    for f in ['strspn', 'strcspn']: case(f, f'ru({f}((char*)x, (char*)y));')
    case('strlen', 'ru(strlen((char*)x));'); case('strnlen', 'ru(strnlen((char*)x, n));')
    case('strdup', 'rb(strdup((char*)x));'); case('strndup', 'rb(strndup((char*)x, n));')
    for f in ['strchr', 'strrchr']: case(f, f'rp({f}((char*)x, c));')
    case('memchr', 'rp(memchr(x, c, n));'); case('memset', 'rp(memset(x, c, n));'); case('memccpy', 'rp(memccpy(x, y, c, n));')
    case('strtok', 'rp(n ? strtok(a < 0 ? NULL : (char*)x, (char*)y) : strtok_r(a < 0 ? NULL : (char*)x, (char*)y, &sv));')
    for f in ['strtol', 'strtoll']: case(f, f'long long v = {f}((char*)x, c ? &e : NULL, (int)n); if (!c) {f}((char*)x, &e, (int)n); rn(v, e);')
    for f in ['strtoul', 'strtoull']: case(f, f'unsigned long long v = {f}((char*)x, c ? &e : NULL, (int)n); if (!c) {f}((char*)x, &e, (int)n); rv(v, e);')
    for f in ['atoi', 'atol', 'atoll']: case(f, f'rn({f}((char*)x), NULL);')
    for f in ['tolower', 'toupper']: case(f, f'ps("u "); pi({f}(c)); dump();')
    for f in CLS: case(f, f'rt({f}(c));')
    o.append(r'''  }
}
struct cl { short f, a, b; int c; size_t n; };
static const struct cl calls[] = {
%CALLS%
};
struct cs { short n; const char *mem; int from, to; };
static const struct cs cases[] = {
%CASES%
};
int main(void) {
  int i, k; unsigned char *top;
  free(malloc(2000));
#ifdef __WASM
  top = (unsigned char*)((size_t)__builtin_memory_size() << 16);
#else
  { size_t t = (size_t)sbrk(0); top = (unsigned char*)((t + 4095) / 4096 * 4096 + 4096); sbrk((intptr_t)((size_t)top - t)); }
#endif
  for (i = 0; i < (int)(sizeof cases / sizeof *cases); ++i) {
    N = cases[i].n; A = top - N; sv = NULL;
    for (k = 0; k < N; ++k) A[k] = (unsigned char)cases[i].mem[k];
    for (k = cases[i].from; k < cases[i].to; ++k) { pi(k); sp(); flush_(); call(calls[k].f, calls[k].a, calls[k].b, calls[k].c, calls[k].n); }
  }
  flush_();
  return 0;
}
''')
    return ''.join(o), {f: i for i, f in enumerate(fs)}

SRC, FN = driver()

def rnd_mem(r):
    n = r.choice([1, 2, 5, 8, 13, 20, 30]) if r.random() < .93 else r.randrange(40, 300)
    x = r.random()
    al = r.choice([b'ab', b'aAbB', b'abc,; ', bytes([0x80, 0xff, 0x61, 0x7f]), bytes(range(1, 256)), b'aa', b'0123456789abcdefxXzZ+- \t'])
    m = [r.choice(al) for _ in range(n)]
    for _ in range(r.choice([0, 1, 1, 2, 3])): m[r.randrange(n)] = 0
    if r.random() < .7: m[-1] = 0
    return m

def num_text(r, lb):
    b = r.choice([0, 0, 10, 10, 16, 16, 8, 2, 36, r.randrange(2, 37)])
    bb = b or r.choice([8, 10, 16])
    x = r.random()
    if x < .25: v = r.randrange(0, 1000)
    elif x < .8: v = max(0, (1 << r.choice([lb, lb - 1, 63, 64, 31, 32])) + r.choice([-2, -1, 0, 1, 2, bb, -bb]))
    else: v = r.getrandbits(r.randrange(1, 80))
    ds = ''
    while True:
        d = '0123456789abcdefghijklmnopqrstuvwxyz'[v % bb]; ds = (d.upper() if r.random() < .4 else d) + ds; v //= bb
        if not v: break
    if r.random() < .15: ds = ''
    p = ''
    if bb == 16 and r.random() < .6: p = r.choice(['0x', '0X'])
    elif r.random() < .2 or (b == 0 and bb == 8): p = r.choice(['0', '00', '0'])
    ws = ''.join(r.choice(' \t\n\v\f\r') for _ in range(r.choice([0, 0, 0, 1, 3])))
    t = ws + r.choice(['', '', '+', '-', '-']) + p + ds + r.choice(['', '', '', 'g', 'x', ' 1', '.5', '-', '8', '0x', '+'])
    if r.random() < .1: t = r.choice(['', ' ', '+', '-', '+-1', '- 1', '--1', '0x', '0xg', '0x-1', '+ 1', '-0x', '00x1', 'x1', ' -', '\x0b7', '\x011', 'z', '9', '8', '08', '0b1', '1e5'])
    return t, b

def gen_case(r, lb, num=False):
    calls = []
    if num:
        m = [0] * r.choice([0, 3])
        texts = []
        for _ in range(6):
            t, b = num_text(r, lb)
            texts.append((len(m), b)); m += list(t.encode('latin1')) + [0]
            if r.random() < .1: m[-2 if len(t) else -1] = r.choice([0x80, 0xe9, m[-2 if len(t) else -1]])
        for o, b in texts:
            for f in NUMS + (['atoi', 'atol', 'atoll'] if b in (0, 10) else []):
                if r.random() < .7: calls.append(dict(f=f, a=o, b=0, c=r.choice([0, 1]), n=b))
        return dict(mem=m, lbits=lb, calls=calls)
    m = rnd_mem(r); N = len(m)
    off = lambda: r.randrange(0, N + 1) if r.random() < .2 else r.randrange(0, N)
    tok = r.random() < .25
    for _ in range(r.choice([6, 12])):
        if tok and r.random() < .7: f = 'strtok'
        else: f = r.choice(PTR2 * 3 + STR2 * 3 + STR1 + STRN * 2 + CHR * 4 + ['memchr', 'memset', 'memccpy'] * 4)
        c = r.choice(m + [0, 97, 65, 0x80, 0xff, -128, -1, 256 + 97, -159])
        if r.random() < .25 and c >= 128: c -= 256
        a, b = off(), off()
        n = r.choice([0, 1, 2, 3, N - max(a, b), N - a, N - b, r.randrange(0, N + 1), N + 5])
        if f in ('strncmp', 'strncasecmp', 'strnlen', 'strndup', 'strncat', 'memchr') and r.random() < .2: n = r.choice([N + 1000, 65536]) if f != 'strndup' else 1000
        calls.append(dict(f=f, a=a, b=b, c=c, n=max(0, n)))
        if f == 'strtok':
            calls[-1]['n'] = 0
            if any(x['f'] == 'strtok' for x in calls[:-1]) and r.random() < .7: calls[-1]['a'] = -1
    if tok:
        k = r.choice([0, 1])
        for c in calls:
            if c['f'] == 'strtok': c['n'] = k
    return dict(mem=m, lbits=lb, calls=calls)

def ctype_cases():
    return [dict(mem=[0], lbits=64, calls=[dict(f=f, a=0, b=0, c=c, n=0) for f in CLS + ['tolower', 'toupper']]) for c in range(-1, 256)]

def expect(o):
    k, v = o['k'], o['v']
    m = ''.join('%02x' % x for x in o['m'])
    if k == 'n': s = '%d %d' % (sum(l << (15 * i) for i, l in enumerate(v['n']['mag'])) * (-1 if v['n']['neg'] else 1), v['e'])
    elif k == 'b': s = '.' + ''.join('%02x' % x for x in v)
    elif k == 't': s = '1' if v else '0'
    else: s = str(v)
    return f'{k} {s} {m}'.strip()

def check(chk, b, tg, cases):
    reps = H.spec_cases('CString', cases, chk)
    per = 60
    srcs, exps = [], []
    for at in range(0, len(cases), per):
        ct, cs, ex = [], [], []
        for c, rp in zip(cases[at:at + per], reps[at:at + per]):
            f0 = len(ct)
            for q, o in zip(c['calls'], rp['outs']):
                if not o['ok']: chk.add('calls_undefined'); continue
                chk.add('calls')
                ex.append((q, c, f'{len(ct)} ' + expect(o)))
                ct.append('{%d,%d,%d,%d,%d}' % (FN[q['f']], q['a'], q['b'], q['c'], q['n']))
            cs.append('{%d,%s,%d,%d}' % (len(c['mem']), cstr(bytes(c['mem'])), f0, len(ct)))
        if not ct: continue
        srcs.append(SRC.replace('%CALLS%', ',\n'.join(ct)).replace('%CASES%', ',\n'.join(cs))); exps.append(ex)
    for tgt in creplay.targets(b, [tg]):
        res = creplay.run_sources(tgt, srcs)
        chk.add('traces_validated_against_impl', len(res))
        for s, ex, x in zip(srcs, exps, res):
            if x[1] == 'skipped': continue
            got = [l.strip() for l in x[2].split('\n')] if x[0] == 'ran' else []
            for i, (q, c, e) in enumerate(ex):
                g = got[i] if i < len(got) else ''
                if g != e.strip():
                    chk.violation(f'{tgt.name} {q["f"]}', f'{q} on {bytes(c["mem"])} (before earlier calls): specification "{e}", library "{g}" (status {x[0]} {x[1]})', {'prog.c': s, 'out.txt': x[2]})
                    break
            if len(chk.viol) > 15: return

def main(chk):
    b = H.build()
    r = chk.rng
    m = 1 if chk.quick() else 10
    for k in range(m):
        for tg, lb in (('x64', 64), ('wasm', 32)):
            cs = [gen_case(r, lb) for _ in range(900 if tg == 'x64' else 300)] + [gen_case(r, lb, num=True) for _ in range(250 if tg == 'x64' else 120)]
            if k == 0: cs += ctype_cases()
            check(chk, b, tg, cs)
            chk.log(f'{tg} {k + 1}/{m}')
        if chk.viol: break
