"""C02: compile-time evaluation."""
import harness as H
from cast import *
from gens import *
import creplay

def ctx_int(r, p, cp, e, t, i):
    """the constant expression e in a context where the compiler must evaluate it itself: list of steps"""
    txt = cp.e(e)
    out = []
    k = r.choice([0, 1, 2, 3, 4, 6, 7, 8, 9])
    ct = r.choice(['i', 'u', 'l', 'ull', 'c', 'uc', 's', 'us', 'b', 'll', 'ul'])
    if k == 0:
        out.append(Pr(Cast(T(ct), e), sp=f'{{ static {CNAME[ct]} t_ = {txt}; pr_((u64_)t_); }}'))
    elif k == 1:
        out.append(Pr(Cast(T('ll'), e), sp=f'{{ static const long long t_[2] = {{1, {txt}}}; pr_(t_[1]); }}'))
    elif k == 2:                                   # enumerator (must fit in int)
        e2 = Cast(INT, e)
        out.append(Pr(e2, sp=f'{{ enum {{ EN_{i} = {cp.e(e2)} }}; pr_((u64_)EN_{i}); }}'))
    elif k == 3:                                   # array bound
        e2 = Bin('+', Bin('&', e, Num(63)), Num(1))
        out.append(Pr(e2, sp=f'{{ char a_[{cp.e(e2)}]; pr_((u64_)sizeof(a_)); }}'))
        out.append(Pr(e2, sp=f'{{ static char b_{i}[{cp.e(e2)}]; pr_((u64_)sizeof(b_{i})); }}'))
    elif k == 4:                                   # case label
        tt = promote(t)
        vn = f'cs{i}'
        out.append(Decl(vn, tt, IE(e)))
        out.append(Pr(Comma(e, Num(7)), sp=f'switch ({vn}) {{ case {txt}: pr_(7); break; default: pr_(8); }}'))
        out.append(Pr(Comma(e, Num(8)), sp=f'switch ({vn} ^ 1) {{ case {txt}: pr_(7); break; default: pr_(8); }}'))
    elif k == 6:                                   # bit-field width
        e2 = Bin('+', Bin('&', e, Num(15)), Num(1))
        z = Bin('-', Bin('<<', Num(1, T('u')), e2), Num(1))
        out.append(Pr(z, sp=f'{{ struct {{ unsigned int w : {cp.e(e2)}; unsigned int z : 3; }} s_; s_.w = -1; pr_(s_.w); }}'))
    elif k == 7:                                   # ordinary code, folded
        out.append(Pr(e))
        out.append(If(e, Pr(Num(1)), Pr(Num(0))))
    elif k == 8:
        out.append(Pr(Cast(T('d'), e), 'd', sp=f'{{ static double t_ = {txt}; prd_(t_); }}'))
        out.append(Pr(Cast(T('f'), e), 'f', sp=f'{{ static float t_ = {txt}; prf_(t_); }}'))
    else:
        c = r.choice(['l', 'ull', 'i'])
        out.append(Pr(Cond(e, Num(11), Cast(T(c), Num(-3))), sp=f'{{ static long long t_ = ({txt}) ? 11 : ({CNAME[c]})-3; pr_(t_); }}'))
    return out

class ConstExpr(IntExpr):
    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.1:
            k = r.choice(['i', 'c', 's', 'l', 'll', 'd', 'p'])
            t = T(k) if k != 'p' else P(INT)
            return SzT(A(t, r.randint(1, 9)) if r.random() < 0.5 else t), T('ul')
        if x < 0.2:
            v = Flt(r.choice([0.5, 1.0, 2.75, 100.0, 1e6, 65535.0]), T(r.choice('fd')))
            k = r.choice(['i', 'l', 'll', 's'])
            return Cast(T(k), v), T(k)
        k = r.choice(['i', 'i', 'i', 'u', 'l', 'ul', 'll', 'ull', 'c', 's', 'uc', 'us'])
        return Num(rand_int(r, self.tg, k), T(k)), T(k)

def hide(e, r, p):
    """the same expression with every literal in a volatile object, evaluated at run time"""
    if e['k'] == 'n':
        key = (e['t']['k'], e['pv'])
        m = p.meta.setdefault('hid', {})
        if key not in m:
            m[key] = f'h{len(m)}'
            p.glob(m[key], e['t'], IE(e), q='volatile')
        return V(m[key])
    return {k: hide(v, r, p) if isinstance(v, dict) and k in ('a', 'b', 'c') and 'k' in v else v for k, v in e.items()}

def int_prog(r, tg, n):
    p = Prog(tg); p.meta['key'] = 'iconst'
    cp = CP(p)
    g = ConstExpr(r, tg, [])
    for i in range(n):
        e, t = g.gen(r.randint(1, 4))
        p.main += ctx_int(r, p, cp, e, t, i)
        p.main.append(Pr(hide(e, r, p)))
    return p

def ops_prog(r, tg, n):
    """every operator x every type pair on literals"""
    p = Prog(tg); p.meta['key'] = 'iops'
    cp = CP(p)
    for i in range(n):
        k1, k2 = r.choice(INTS), r.choice(INTS)
        op = r.choice(ALLOPS)
        v1, v2 = rand_int(r, tg, k1), rand_int(r, tg, k2)
        if op in ('<<', '>>'): k2, v2 = 'i', r.randint(0, 63)
        e = Bin(op, Num(v1, T(k1)), Num(v2, T(k2)))
        t = INT if op in REL else promote(T(k1)) if op in ('<<', '>>') else uac(tg, T(k1), T(k2))
        x = r.random()
        if x < 0.2:
            e = Un(r.choice('-~!+'), e); t = promote(t) if e['op'] != '!' else INT
        elif x < 0.4:
            k = r.choice(INTS); e = Cast(T(k), e); t = T(k)
        # the type shows through a sign-sensitive wrapper
        w = r.random()
        if w < 0.3: e, t = Bin('<', e, Num(0)), INT
        elif w < 0.5: e, t = Bin('>>', e, Num(1)), promote(t)
        elif w < 0.6: e, t = Bin('/', e, Num(2)), uac(tg, t, INT)
        p.main += ctx_int(r, p, cp, e, t, i)
        p.main.append(Pr(Cast(T('ll'), e)))
    return p

FV = [0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 0.1, 0.2, 0.3, 1e10, 16777217.0, 16777216.0, 3.0, 7.0, 1e-3, 1e300, 1e-300, 1e38, 123456789.0, -2.75, 9007199254740993.0]
def flo_prog(r, tg, n):
    p = Prog(tg); p.meta['key'] = 'fconst'
    cp = CP(p)
    def leaf():
        if r.random() < 0.3:
            k = r.choice(['i', 'u', 'll', 'ull', 'c', 's', 'l', 'ul'])
            return Num(rand_int(r, tg, k), T(k)), T(k)
        k = r.choice('fdd')
        v = r.choice(FV)
        if k == 'f' and abs(v) > 3e38: v = 2.0
        if k == 'f' and abs(v) < 1e-30: v = 0.0
        return Flt(v, T(k)), T(k)
    def gen(d):
        if d == 0: return leaf()
        x = r.random()
        if x < 0.6:
            a, ta = gen(d - 1); b, tb = gen(d - 1)
            if is_int(ta) and is_int(tb): a, ta = Cast(T('d'), a), T('d')
            return Bin(r.choice('+-*/'), a, b), uac(tg, ta, tb)
        if x < 0.75:
            a, ta = gen(d - 1)
            return Un('-', a) if is_float(ta) else Cast(T('f'), a), ta if is_float(ta) else T('f')
        if x < 0.9:
            k = r.choice(['f', 'd'])
            return Cast(T(k), gen(d - 1)[0]), T(k)
        c, _ = gen(d - 1); a, ta = gen(d - 1); b, tb = gen(d - 1)
        c2, _ = gen(d - 1)
        return Cond(Bin('<', c, c2), a, b), uac(tg, ta, tb)
    for i in range(n):
        e, t = gen(r.randint(1, 3))
        txt = cp.e(e)
        x = r.random()
        c = r.choice('fd')
        if x < 0.35: p.main.append(Pr(Cast(T(c), e), c, sp=f'{{ static {CNAME[c]} t_ = {txt}; pr{c}_(t_); }}'))
        elif x < 0.5: p.main.append(Pr(Cast(T('i'), e), sp=f'{{ static int t_ = (int)({txt}); pr_((u64_)t_); }}'))
        elif x < 0.6:
            op = r.choice(REL); e2, _ = gen(1)
            p.main.append(Pr(Bin(op, e, e2), sp=f'{{ static int t_ = ({txt}) {op} ({cp.e(e2)}); pr_((u64_)t_); }}'))
        elif x < 0.7: p.main.append(If(e, Pr(Num(1)), Pr(Num(0))))
        elif is_float(t): p.main.append(Pr(e, t['k']))
        else: p.main.append(Pr(e))
        if is_float(t) and r.random() < 0.3:
            p.main.append(Pr(Cast(T('d'), e), 'd'))
    return p

def addr_prog(r, tg, n):
    p = Prog(tg); p.meta['key'] = 'addr'
    cp = CP(p)
    inner = p.struct([('a', T('c')), ('b', A(T('s'), 3)), ('d', T('i'))])
    outer = p.struct([('x', T('c')), ('in', A(inner, 2)), ('l', T('ll')), ('z', A(T('c'), 5))])
    p.glob('arr', A(INT, 8), IL([IE(Num(i * 11 + 1)) for i in range(8)]))
    p.glob('mat', A(A(T('s'), 3), 4), IL([IL([IE(Num(10 * i + j)) for j in range(3)]) for i in range(4)]))
    p.glob('so', outer, IL([IE(Num(1)), IL([IL([IE(Num(2)), IL([IE(Num(3)), IE(Num(4)), IE(Num(5))]), IE(Num(6))]),
                                          IL([IE(Num(7)), IL([IE(Num(8)), IE(Num(9)), IE(Num(10))]), IE(Num(11))])]),
                            IE(Num(1 << 40)), IE(Str(b'wxyz'))]))
    p.glob('str', A(T('c'), -1), IE(Str(b'hello, world')))
    p.func('fa', INT, [('x', INT)], Block(Ret(Bin('+', V('x'), Num(1)))))
    p.func('fb', INT, [('x', INT)], Block(Ret(Bin('*', V('x'), Num(3)))))
    for i in range(n):
        c = r.randrange(9)
        if c == 0:
            k = r.randint(0, 7); j = r.randint(-k, 7 - k)
            e = Bin('+', Addr(Idx(V('arr'), Num(k))), Num(j)) if j >= 0 else Bin('-', Addr(Idx(V('arr'), Num(k))), Num(-j))
            t = P(INT)
        elif c == 1:
            k = r.randint(0, 7); e = r.choice([Bin('+', V('arr'), Num(k)), Bin('+', Num(k), V('arr')), Addr(Idx(V('arr'), Num(k)))]); t = P(INT)
        elif c == 2:
            a, b = r.randint(0, 3), r.randint(0, 2)
            e = r.choice([Addr(Idx(Idx(V('mat'), Num(a)), Num(b))), Bin('+', Idx(V('mat'), Num(a)), Num(b))]); t = P(T('s'))
        elif c == 3:
            a, b = r.randint(0, 1), r.randint(0, 2)
            m = Idx(Dot(V('so'), 'in'), Num(a))
            e, t = r.choice([(Addr(Dot(m, 'd')), P(INT)), (Addr(Idx(Dot(m, 'b'), Num(b))), P(T('s'))), (Bin('+', Dot(m, 'b'), Num(b)), P(T('s')))])
        elif c == 4:
            e = r.choice([Bin('+', Dot(V('so'), 'z'), Num(r.randint(0, 4))), Addr(Idx(Dot(V('so'), 'z'), Num(2)))]); t = P(T('c'))
        elif c == 5:
            e = Addr(Dot(V('so'), 'l')); t = P(T('ll'))
        elif c == 6:
            e = r.choice([Bin('+', V('str'), Num(r.randint(0, 11))), Bin('+', Str(b'static text'), Num(r.randint(0, 10))), Cast(P(T('c')), V('str'))]); t = P(T('c'))
        elif c == 7:
            a = r.randint(0, 1)
            e = Cast(P(T('c')), Addr(Dot(Idx(Dot(V('so'), 'in'), Num(a)), 'a'))); t = P(T('c'))
        else:
            f = r.choice(['fa', 'fb'])
            e = r.choice([V(f), Addr(V(f))])
            v = r.randint(-5, 5)
            p.main.append(Pr(Call(f, [Num(v)]), sp=f'{{ static int (*t_)(int) = {cp.e(e)}; pr_((u64_)t_({v})); }}'))
            p.main.append(Pr(Call(f, [Num(v)]), sp=f'{{ static struct {{ char q; int (*t_)(int); }} s_ = {{ 1, {cp.e(e)} }}; pr_((u64_)s_.t_({v})); }}'))
            continue
        txt = cp.e(e)
        x = r.random()
        if x < 0.5: sp = f'{{ static {cp.decl(t, "t_")} = {txt}; pr_((u64_)*t_); }}'
        elif x < 0.8: sp = f'{{ static struct {{ char q; {cp.decl(t, "t_")}; }} s_[2] = {{ {{0}}, {{ 1, {txt} }} }}; pr_((u64_)*s_[1].t_); }}'
        else: sp = f'{{ static {cp.decl(A(t, 3), "t_")} = {{ [1] = {txt} }}; pr_((u64_)(t_[0] == 0)); pr_((u64_)*t_[1]); }}'
        if x >= 0.8: p.main.append(Block(Pr(Num(1)), Pr(Deref(e)))); p.main[-1]['sp'] = sp
        else: p.main.append(Pr(Deref(e), sp=sp))
    return p

def enum_prog(r, tg):
    """enumerators count on from the previous one"""
    p = Prog(tg); p.meta['key'] = 'enum'
    cp = CP(p)
    for i in range(8):
        items = []; val = -1; vals = []
        for j in range(r.randint(2, 7)):
            n = f'Q{i}_{j}'
            if r.random() < 0.4:
                if vals and r.random() < 0.5:
                    a, av = r.choice(vals); d = r.randint(-3, 9)
                    items.append(f'{n} = {a} + {d}' if d >= 0 else f'{n} = {a} - {-d}'); val = av + d
                else:
                    val = r.choice([0, 5, -7, 1000, -(1 << 31) + 99, (1 << 30), 65, 255]); items.append(f'{n} = {num_c(val, "i")}')
            else:
                val += 1; items.append(n)
            vals.append((n, val))
        p.extra += f'enum G{i} {{ {", ".join(items)} }};\n'
        for n, v in vals:
            p.main.append(Pr(Num(v), sp=f'pr_((u64_){n});'))
            p.main.append(Pr(Num(v), sp=f'{{ static enum G{i} t_ = {n}; pr_((u64_)t_); }}'))
    return p

def programs(r, tg, q):
    k = 1 if q else 12
    return [int_prog(r, tg, 25) for _ in range(35 * k)] + [ops_prog(r, tg, 30) for _ in range(30 * k)] + \
        [flo_prog(r, tg, 30) for _ in range(16 * k)] + [addr_prog(r, tg, 25) for _ in range(6 * k)] + [enum_prog(r, tg) for _ in range(3)]

def main(chk):
    b = H.build()
    for tg, names in (('x64', ['x64', 'x64-ssa']), ('wasm', ['wasm'])):
        ps = programs(chk.rng, tg, chk.quick())
        for i in range(0, len(ps), 200):
            creplay.replay(chk, ps[i:i + 200], creplay.targets(b, names), 'const')
            if chk.viol: break
        chk.log(f'{tg}: {len(ps)} programs')
