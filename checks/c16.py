"""C16: formatted output (spec/CPrintf.tla)."""
import math, struct
import harness as H
import creplay, libdrv
from libdrv import cstr

def limbs(n):
    o = []
    while n: o.append(n & 32767); n >>= 15
    return o

def num(v): return dict(neg=v < 0, mag=limbs(abs(v)), n=0)

def dbl_rec(x):
    neg = math.copysign(1, x) < 0
    if math.isinf(x): return dict(kind='inf', neg=neg)
    if math.isnan(x): return dict(kind='nan', neg=neg)
    b = struct.unpack('<Q', struct.pack('<d', x))[0] & ((1 << 63) - 1)
    e, m = b >> 52, b & ((1 << 52) - 1)
    if e: m |= 1 << 52
    else: e = 1
    e -= 1075
    while m and m % 2 == 0 and e < 0: m //= 2; e += 1
    return dict(kind='fin', neg=neg, m=limbs(m), e=e)

def int_value(r, bits, signed):
    x = r.random()
    if x < .2: v = r.choice([0, 0, 1, 9, 10, 15, 16, 99, 100])
    elif x < .5: v = (1 << r.randrange(0, bits)) + r.choice([-1, 0, 1])
    elif x < .6: v = r.choice([(1 << bits) - 1, (1 << (bits - 1)) - 1, 1 << (bits - 1)])
    elif x < .7: v = 10 ** r.randrange(0, 20) + r.choice([-1, 0])
    else: v = r.getrandbits(r.randrange(1, bits + 1))
    v &= (1 << bits) - 1
    if signed:
        if v >> (bits - 1): v -= 1 << bits
        elif r.random() < .4: v = -v
    return v

def dbl_value(r):
    x = r.random()
    if x < .08: return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan])
    if x < .3: return r.choice([1, -1]) * r.randrange(0, 10 ** r.choice([1, 3, 6])) / 10 ** r.choice([1, 2, 3, 6])
    if x < .45: return r.choice([1, -1]) * (r.randrange(0, 64) + r.choice([.5, .25, .125, .0625, .375, .5, .5]))     # ties
    if x < .55: return r.choice([1, -1]) * (10.0 ** r.randrange(-8, 24) * (1 - 2.0 ** -r.randrange(20, 53)))         # carries
    if x < .6: return r.choice([9.9999995, 0.9999999, 99.5, 999999.5, 0.05, 9.995, 1e15 + .5, 2.0 ** 53, 2.0 ** 63, 2.0 ** 64, 2.0 ** 64 * 1.5, 1e22, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 4.9999995e-7, 5e-7])
    if x < .8: return struct.unpack('<d', struct.pack('<Q', r.getrandbits(1) << 63 | (1023 + r.randrange(-70, 80)) << 52 | r.getrandbits(52)))[0]
    return struct.unpack('<d', struct.pack('<Q', r.getrandbits(1) << 63 | r.randrange(0, 2047) << 52 | r.getrandbits(52)))[0] if r.random() < .15 else r.choice([1, -1]) * math.ldexp(r.getrandbits(53), r.randrange(-60, 4))

def cint(v, ty):
    bits = {'int': 32, 'unsigned': 32}.get(ty, 64)
    u = v & ((1 << 64) - 1)
    return f'({ty})0x{u:x}ULL'

def gen_case(r, lb):
    """-> spec case + C arguments"""
    f, args, cargs = '', [], []
    def lit():
        t = ''.join(r.choice('abc :;,[]0123-+.%') for _ in range(r.choice([0, 0, 1, 3, 8])))
        if r.random() < .03: t += 'x' * r.choice([20, 50, 130])
        return t.replace('%', '%%')
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        f += lit()
        conv = r.choice('dddduuxxXcssppfff%')
        if r.random() < .02: conv = 'd'
        fl = ''.join(r.sample('-+0', r.choice([0, 0, 1, 1, 2, 3])))
        if conv in 'csp%': fl = fl.replace('+', '').replace('0', '')
        if conv == '%': f += '%%'; continue
        f += '%' + fl + (r.choice('-+0') if fl and conv not in 'csp' and r.random() < .1 else '')
        x = r.random()
        if x < .45:
            w = r.choice([1, 2, 3, 5, 8, 10, 12, 20, 33, 60]); f += str(w)
        elif x < .6:
            w = r.choice([0, 1, 3, 7, 12, 25, -1, -5, -12]); f += '*'; args.append(dict(n=w)); cargs.append(str(w))
        p = None
        if conv not in 'cp' and r.random() < .45:
            p = r.choice([0, 0, 1, 2, 3, 5, 7, 10, 15, 20, 25] + ([40, 60] if conv != 'f' else [17]))
            x = r.random()
            if x < .3: f += '.*'; p = r.choice([p, p, -1, -3]); args.append(dict(n=p)); cargs.append(str(p))
            elif p == 0 and x < .5: f += '.'
            else: f += '.%d' % p
            if p < 0: p = None
        if conv in 'duxX':
            m = r.choice(['', '', 'l', 'll', 'z']); f += m
            bits = {'': 32, 'l': lb, 'll': 64, 'z': lb}[m]
            sg = conv == 'd'
            v = int_value(r, bits, sg)
            ty = {'': 'int', 'l': 'long', 'll': 'long long', 'z': 'long' if lb == 64 else 'int'}[m]
            ty = ty if sg else ('size_t' if m == 'z' else 'unsigned ' + ty if m else 'unsigned')
            args.append(num(v)); cargs.append(cint(v, ty))
        elif conv == 'c':
            v = r.choice([65, 48, 0, 255, 128, 10, 321, -1, 37]); args.append(dict(n=v)); cargs.append(str(v))
        elif conv == 's':
            t = bytes(r.choice(b'abcXYZ 019%\x80\xff\n') for _ in range(r.choice([0, 1, 3, 6, 12, 40])))
            if p is not None and r.random() < .5:                 # an array that is not terminated: exactly the precision is there
                t = (t * 20)[:p] if t else b''
                if t or p == 0: args.append(dict(s=list(t) + [1], n=0)); cargs.append(f'at_end({cstr(t)}, {len(t)})')
                else: args.append(dict(s=[0], n=0)); cargs.append('""')
            else: args.append(dict(s=list(t) + [0], n=0)); cargs.append(f'at_end({cstr(t)}, {len(t) + 1})' if r.random() < .3 else cstr(t))
        elif conv == 'p':
            v = r.choice([int(bool(H.os.environ.get('VERIF_DEV_TARGETS'))), 1, 0x1234, 0xffffffff, (1 << lb) - 1, r.getrandbits(lb)]); args.append(num(v)); cargs.append(f'(void*)(uintptr_t)0x{v:x}ULL')
        elif conv == 'f':
            if r.random() < .1: f += 'l'
            x = dbl_value(r); args.append(dict(dbl_rec(x), n=0))
            b_ = struct.unpack('<Q', struct.pack('<d', x))[0]
            if r.random() < .1 and f.endswith('l'): pass
            cargs.append(f'dbl(0x{b_:x}ULL)')
        f += conv
    f += lit()
    return dict(f=list(f.encode()), args=args), cargs

PRE = libdrv.PRELUDE + r'''
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
static double dbl(unsigned long long u) { double d; memcpy(&d, &u, sizeof d); return d; }
static unsigned char *top; static int used;
static char *at_end(const char *s, int n) {      /* a copy right before the end of memory (further ones lie before it) */
  char *p = (char*)top - used - n; int i; for (i = 0; i < n; ++i) p[i] = s[i]; used += n; return p; }
static char B[3000];
static void fillB(void) { int i; for (i = 0; i < (int)sizeof B; ++i) B[i] = (char)0xee; used = 0; }
static void res(int r, size_t lim) { int i, z = 0; for (i = 0; i < (int)sizeof B; ++i) if ((unsigned char)B[i] != 0xee) z = i + 1;
  pi(r); pc(' '); for (i = 0; i < z; ++i) ph((unsigned char)B[i]); nl(); }
static int vs(char *b, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsprintf(b, f, ap); va_end(ap); return r; }
static int vsn(char *b, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
static int vfp(FILE *fp, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vfprintf(fp, f, ap); va_end(ap); return r; }
static int vp(const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vprintf(f, ap); va_end(ap); return r; }
static void setup(void) {
  free(malloc(3000));
#ifdef __WASM
  top = (unsigned char*)((size_t)__builtin_memory_size() << 16);
#else
  { size_t t = (size_t)sbrk(0); top = (unsigned char*)((t + 4095) / 4096 * 4096 + 4096); sbrk((intptr_t)((size_t)top - t)); }
#endif
}
'''

def render(r, case, cargs, out, k):
    """-> C statements and the bytes they must print"""
    f = cstr(bytes(case['f'])); a = ''.join(', ' + x for x in cargs); n = len(out)
    how = r.choice(['sn'] * 5 + ['vsn', 's', 'vs', 'p', 'fp', 'vfp', 'vp'])
    text = bytes(out)
    if how in ('sn', 'vsn'):
        lim = r.choice([0, 1, 2, n, n + 1, n + 2, max(0, n - 1), r.randrange(0, n + 3), 2000, 2000])
        if r.random() < .05 and not H.os.environ.get("VERIF_DEV_TARGETS"): lim = r.choice(['(size_t)-1', '(size_t)0xffffffffU', '(size_t)0x7fffffffU', '(size_t)0x100000000ULL'])
        if isinstance(lim, str): kept = text + b'\0'
        else: kept = (text[:lim - 1] + b'\0') if lim else b''
        if lim == '(size_t)0x100000000ULL' and k == 32: kept = b''
        fn = 'snprintf' if how == 'sn' else 'vsn'
        dst = 'B' if lim or r.random() < .5 else 'NULL'
        return f'  fillB(); {{ int q = {fn}({dst}, {lim}, {f}{a}); res(q, 0); }}\n', b'%d ' % n + strip_ee(kept) + b'\n'
    if how in ('s', 'vs'):
        return f'  fillB(); {{ int q = {"sprintf" if how == "s" else "vs"}(B, {f}{a}); res(q, 0); }}\n', b'%d ' % n + strip_ee(text + b'\0') + b'\n'
    call = {'p': f'printf({f}{a})', 'fp': f'fprintf(stdout, {f}{a})', 'vfp': f'vfp(stdout, {f}{a})', 'vp': f'vp({f}{a})'}[how]
    return f'  used = 0; flush_(); {{ int q = {call}; fflush(stdout); pc(\'~\'); pi(q); nl(); }}\n', text + b'~%d\n' % n

def strip_ee(b): return b.rstrip(b'\xee').hex().encode()

def check(chk, b, tg, lb, n):
    r = chk.rng
    gs = [gen_case(r, lb) for _ in range(n)]
    reps = H.spec_cases('CPrintf', [g[0] for g in gs], chk)
    items = []
    for (c, ca), rp in zip(gs, reps):
        if not rp['ok'] or len(rp['out']) > 1500: chk.add('formats_undefined'); continue
        chk.add('formats'); items.append((c, *render(r, c, ca, rp['out'], lb)))
    per = 40
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    def text(g):
        return PRE + ''.join(f'static void t{i}(void) {{\n{x[1]}}}\n' for i, x in enumerate(g)) + 'int main(void) { setup();\n' + ''.join(f't{i}(); flush_();\n' for i in range(len(g))) + 'return 0; }\n'
    for tgt in creplay.targets(b, [tg]):
        res = creplay.run_sources(tgt, [text(g) for g in groups])
        chk.add('traces_validated_against_impl', len(items))
        for g, x in zip(groups, res):
            if x[1] == 'skipped': continue
            got = x[2].encode('latin1') if x[0] == 'ran' else b''
            exp = b''.join(y[2] for y in g)
            if got == exp and x[1] == 0: continue
            # which one?
            at = 0
            for y in g:
                if got[at:at + len(y[2])] != y[2]:
                    chk.violation(f'{tgt.name} {bytes(y[0]["f"]).decode()}', f'{y[1].strip()}\n specification {y[2][:300]}\n library {got[at:at + len(y[2]) + 40][:300]} (status {x[0]} {x[1]} {x[2][-200:] if x[0] != "ran" else ""})', {'prog.c': text([y])})
                    break
                at += len(y[2])
            else: chk.violation(f'{tgt.name} extra output or status', f'status {x[1]}', {'prog.c': text(g)})
            if len(chk.viol) > 15: return

def main(chk):
    b = H.build()
    m = 1 if chk.quick() else 12
    for k in range(m):
        check(chk, b, 'x64', 64, 2000)
        check(chk, b, 'wasm', 32, 700)
        chk.log(f'{k + 1}/{m}')
        if chk.viol: break
