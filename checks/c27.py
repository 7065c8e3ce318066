"""C27: <math.h> (spec/CMath.tla): calls of the real library, on both targets, judged by exact arithmetic."""
import os, struct, math
import harness as H, creplay, libdrv

EX1 = ['floor', 'ceil', 'round', 'fabs', 'fabsf', 'sqrt']
CLS = ['isnan', 'isinf', 'isfinite', 'finite', 'signbit', 'fpclassify']
AP1 = ['exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']
ALL = EX1 + CLS + AP1 + ['modf', 'fmod', 'frexp', 'ldexp', 'copysign', 'pow', 'atan2']
D = lambda q: struct.unpack('<d', struct.pack('<Q', q))[0]
Qw = lambda d: struct.unpack('<Q', struct.pack('<d', d))[0]

SPECIAL = [0.0, 1.0, 0.5, 1.5, 2.5, 3.5, 0.49999999999999994, 0.5000000000000001, 0.9999999999999999, 1.0000000000000002, 5e-324, 1e-323, 2.2250738585072014e-308, 2.225073858507201e-308,
           4503599627370496.0, 4503599627370495.5, 4503599627370497.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 2251799813685247.5, 2251799813685248.5, 1.7976931348623157e308, 8.98846567431158e307,
           float('inf'), math.pi, math.pi / 2, math.e, 10.0, 100.0, 2.0, 4.0, 1e-5, 709.0, 710.0, 745.0, 1e10, 4294967296.0, 4294967295.5, 2147483648.5, 1e22]
def arg(r):
    k = r.random()
    if k < .25: v = Qw(r.choice(SPECIAL))
    elif k < .3: v = 0x7ff8000000000000 | r.choice([0, 1, r.getrandbits(51)]) if r.random() < .6 else 0x7ff0000000000001 + r.choice([0, r.getrandbits(50)])
    elif k < .4: v = r.getrandbits(r.randrange(1, 53))
    elif k < .7: v = Qw(D(r.getrandbits(52) | 1023 << 52) * 2.0 ** r.randrange(-4, 60))
    elif k < .85: v = Qw(r.randrange(0, 1 << r.randrange(1, 55)) / 2.0 ** r.randrange(0, 5))
    else: v = r.getrandbits(52) | r.randrange(2047) << 52
    return v | (r.getrandbits(1) << 63)
def modest(r, lo, hi, sgn=True):
    k = r.random()
    if k < .15: return arg(r)
    if k < .3: x = float(r.randrange(int(lo), int(hi) + 1)) if hi >= 1 else r.uniform(lo, hi)
    elif k < .4: x = r.choice(SPECIAL)
    elif k < .5: x = 2.0 ** r.uniform(-40, 0) * hi
    else: x = r.uniform(lo, hi)
    return Qw(-x if sgn and r.random() < .5 else x)
RANGE = dict(exp=(0, 760), log=None, log2=None, log10=None, sin=(0, 1000), cos=(0, 1000), tan=(0, 1000), asin=(0, 1), acos=(0, 1), atan=(0, 100), sinh=(0, 715), cosh=(0, 715), tanh=(0, 30), asinh=(0, 1e6), acosh=(1, 1e6), atanh=(0, 1))
def gen(r):
    k = r.random()
    if k < .25: return (r.choice(EX1), arg(r), 0, 0)
    if k < .32: return (r.choice(CLS), arg(r), 0, 0)
    if k < .55:
        f = r.choice(['modf', 'fmod', 'fmod', 'frexp', 'ldexp', 'ldexp', 'copysign'])
        n = r.choice([0, 1, -1, r.randrange(-60, 60), r.randrange(-1100, 1100), r.randrange(-2200, 2200), 2**31 - 1, -2**31, r.randrange(-2**31, 2**31)])
        y = arg(r)
        x = arg(r)
        if f == 'fmod' and r.random() < .5: y = Qw(float(r.randrange(1, 1000)) * r.choice([1, .1, .5, -1, 1e-3])); x = Qw(float(r.randrange(1, 10**r.randrange(1, 18))) * r.choice([1, .1, .5, -1, 1e-3, 1e5]))
        return (f, x, y, n)
    if k < .65:
        c = r.random()
        if c < .25: return ('pow', arg(r), arg(r), 0)
        if c < .6: return ('pow', Qw(r.choice([-1, 1, 1]) * r.choice([2.0, 3.0, 10.0, .5, r.uniform(.1, 20)])), Qw(float(r.randrange(-60, 60))), 0)
        return ('pow', Qw(2.0 ** r.uniform(-20, 20)), Qw(r.uniform(-30, 30)), 0)
    if k < .7: return ('atan2', arg(r) if r.random() < .4 else Qw(r.uniform(-5, 5)), arg(r) if r.random() < .4 else Qw(r.choice([0., -0., r.uniform(-5, 5)])), 0)
    f = r.choice(AP1)
    if RANGE[f] is None: x = arg(r) if r.random() < .6 else Qw(2.0 ** r.uniform(-3, 3))
    else:
        x = modest(r, *RANGE[f])
        if f in ('sin', 'cos', 'tan') and math.isfinite(D(x)) and abs(D(x)) > 1000: x = Qw(math.fmod(D(x), 1000))
    return (f, x, 0, 0)

def program(cases):
    o = [libdrv.PRELUDE, r'''
#include <math.h>
union U { double d; unsigned long long q; };
struct C { int f; unsigned long long x, y; int n; };
static const struct C cases[] = {
''']
    o += [f'{{{ALL.index(f)}, {x}ULL, {y}ULL, {n if n > -2**31 else "-2147483647 - 1"}}},\n' for f, x, y, n in cases]
    o.append(r'''};
static void px(double d) { union U u; u.d = d; pu(u.q); sp(); }
int main(void) {
  for (int k = 0; k < (int)(sizeof cases / sizeof *cases); ++k) {
    const struct C *c = &cases[k]; union U a, b; int i = 0; double r = 0, r2 = 0; a.q = c->x; b.q = c->y;
    double x = a.d, y = b.d;
    switch (c->f) {
''')
    for i, f in enumerate(ALL):
        if f in CLS: e = f'i = {f}(x)'
        elif f == 'modf': e = 'r = modf(x, &r2)'
        elif f == 'fabsf': e = 'r = fabsf((float)x)'
        elif f == 'frexp': e = 'r = frexp(x, &i)'
        elif f == 'ldexp': e = 'r = ldexp(x, c->n)'
        elif f in ('fmod', 'copysign', 'pow'): e = f'r = {f}(x, y)'
        elif f == 'atan2': e = 'r = atan2(y, x)'
        else: e = f'r = {f}(x)'
        o.append(f'    case {i}: {e}; break;\n')
    o.append(r'''    }
    px(r); px(r2); pi(i); nl();
  }
''' + f'pi(FP_NAN); sp(); pi(FP_INFINITE); sp(); pi(FP_ZERO); sp(); pi(FP_SUBNORMAL); sp(); pi(FP_NORMAL); nl(); flush_(); return 0; }}\n')
    return ''.join(o)

def pk(q):
    m = q & (1 << 52) - 1; l = []
    while m: l.append(m & 32767); m >>= 15
    return dict(s=q >> 63, b=q >> 52 & 2047, m=l)

def main(chk):
    if not chk.quick():
        t = H.tlc('MCBigNat', timeout=800)
        chk.add('states', t.distinct); chk.add('transitions', t.generated)
        chk.log('big-number arithmetic validated exhaustively on short limbs')
    d = H.build()
    n = int(os.environ.get('VERIF_N', 0)) or (8000 if chk.quick() else 120000)
    B = 500
    groups = {'x64': [], 'wasm': []}
    for k in range(n // 500): groups['wasm' if k % 3 == 2 else 'x64'].append([gen(chk.rng) for _ in range(500)])
    cases, where = [], []
    for target, bs in groups.items():
        if not bs: continue
        for tgt in creplay.targets(d, [target]):
            srcs = [program(cs) for cs in bs]
            res = creplay.run_sources(tgt, srcs)
            chk.add('traces_validated_against_impl', len(res))
            for src, cs, x in zip(srcs, bs, res):
                if x[1] == 'skipped': continue
                rows = [l.split() for l in x[2].split('\n') if l] if x[0] == 'ran' else []
                if x[0] != 'ran' or x[1] != 0 or len(rows) != len(cs) + 1:
                    chk.violation(f'{target} program', f'status {x[0]} {x[1]} after {len(rows)} of {len(cs)} calls' + (x[2][-300:] if x[0] != 'ran' else ''), {'t.c': src}); continue
                names = dict(zip([int(v) for v in rows[-1]], ['nan', 'inf', 'zero', 'sub', 'norm']))
                for (f, x, y, nn), row in zip(cs, rows):
                    r, r2, i = int(row[0]), int(row[1]), int(row[2])
                    cases.append(dict(fn=f, x=pk(x), y=pk(y), n=max(-10000, min(10000, nn)), r=pk(r), r2=pk(r2), i=i, cls=names.get(i, '?')))
                    where.append((target, f, x, y, nn, r, r2, i))
                    chk.add('calls')
    chk.log('ran')
    for k in range(0, len(cases), 4000):
        for q, w in zip(H.spec_cases('CMath', cases[k:k + 4000], chk, timeout=800), where[k:k + 4000]):
            if not q['why']: continue
            t, f, x, y, nn, r, r2, i = w
            chk.violation(f'{t} {f} {q["why"]}', f'{t}: {f}({D(x)!r} = {x:#x}, {D(y)!r} = {y:#x}, {nn}) gives {D(r)!r} = {r:#x}, {D(r2)!r}, {i}: {q["why"]}', {})
    for w in where[:10]: chk.sample(f'{w[0]} {w[1]}({D(w[2])!r}, {D(w[3])!r}, {w[4]}) = {D(w[5])!r} {D(w[6])!r} {w[7]}')
