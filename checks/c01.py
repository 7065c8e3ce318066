"""C01: integer expressions."""
import harness as H
from cast import *
from gens import *
import creplay

def forms(p, r, n, t, val, tg):
    """storage forms for an operand of type t holding val: declares what is needed, returns list of (form, expr)"""
    p.glob('g' + n, t)
    p.glob('ga' + n, A(t, 3))
    if 'hs' not in p.meta:
        p.meta['hs'] = {}
    st = p.struct([('p', T('c')), ('m', t)])
    p.glob('gs' + n, st)
    p.main.append(Decl('l' + n, t, IE(Num(0))))
    p.main.append(Decl('m' + n, t, IE(Num(0))))
    p.main.append(Decl('p' + n, P(t), IE(Addr(V('m' + n)))))
    return [('local', V('l' + n)), ('glob', V('g' + n)), ('arr', Idx(V('ga' + n), Num(1))), ('mem', Dot(V('gs' + n), 'm')),
            ('ptr', Deref(V('p' + n)))]

def pair_prog(r, tg, k1, k2, nvals, ops):
    p = Prog(tg)
    p.meta['key'] = f'{k1},{k2}'
    t1, t2 = T(k1), T(k2)
    fa = forms(p, r, 'a', t1, 0, tg)
    fb = forms(p, r, 'b', t2, 0, tg)
    # functions computing through parameters
    for i, op in enumerate(ops):
        rt = INT if op in REL else promote(t1) if op in ('<<', '>>') else uac(tg, t1, t2)
        p.func(f'f{i}', rt, [('a', t1), ('b', t2)], Block(Ret(Bin(op, V('a'), V('b')))))
    p.main.append(Decl('t', T('ll'), IE(Num(0))))
    for _ in range(nvals):
        v1 = rand_int(r, tg, k1)
        v2 = rand_int(r, tg, k2)
        if r.random() < 0.15 and irange(tg, k1)[0] <= v2 <= irange(tg, k1)[1]: v1 = v2
        for f, e in fa: p.main.append(E(Asg(e, Num(v1, t1))))
        for f, e in fb: p.main.append(E(Asg(e, Num(v2, t2))))
        for i, op in enumerate(ops):
            if op in ('<<', '>>') :
                v2s = v2 if 0 <= v2 < 64 else r.randint(0, 8 * size(tg, promote(t1)['k']) - 1)
                if not (irange(tg, k2)[0] <= v2s <= irange(tg, k2)[1]): v2s = irange(tg, k2)[1]
                if v2s != v2:
                    p.main.append(E(Asg(fb[0][1], Num(v2s, t2))))
                    p.main.append(Pr(Bin(op, r.choice(fa)[1], fb[0][1])))
                    p.main.append(E(Asg(fb[0][1], Num(v2, t2))))
                lit = Num(v2s, t2)
            else:
                lit = Num(v2, t2)
            a = r.choice(fa)[1]; b = r.choice(fb)[1]
            p.main.append(Pr(Bin(op, fa[0][1], fb[0][1])))
            x = r.random()
            if x < 0.25: p.main.append(Pr(Bin(op, a, lit)))
            elif x < 0.45: p.main.append(Pr(Bin(op, Num(v1, t1), b)))
            elif x < 0.6: p.main.append(Pr(Bin(op, a, b)))
            elif x < 0.75: p.main.append(Pr(Call(f'f{i}', [a, b])))
            elif op in REL:
                p.main.append(If(Bin(op, a, b), Pr(Num(1)), Pr(Num(0))) if x < 0.9 else
                              If(Un('!', Bin(op, a, lit)), Pr(Num(3)), Pr(Num(2))))
            else:
                tgt = r.choice(fa)[1]
                rhs = r.choice([b, lit])
                p.main.append(E(OpAsg(op, tgt, rhs)))
                p.main.append(Pr(tgt))
                p.main.append(E(Asg(tgt, Num(v1, t1))))
        # assignment conversion, inc/dec, unary, casts
        a = r.choice(fa)[1]; b = r.choice(fb)[1]
        p.main.append(Pr(Asg(a, b)))
        p.main.append(Pr(a))
        p.main.append(E(Asg(a, Num(v1, t1))))
        for op in r.sample(['-', '~', '!', '+'], 2):
            p.main.append(Pr(Un(op, r.choice(fa)[1])))
        o = r.choice('+-'); pre = r.random() < 0.5
        tgt = r.choice(fa)[1]
        p.main.append(Pr(Inc(o, pre, tgt))); p.main.append(Pr(tgt))
        p.main.append(Pr(Cast(t2, r.choice(fa)[1])))
        p.main.append(Pr(Cond(r.choice(fa)[1], fa[0][1], fb[0][1])))
    return p

def const_prog(r, tg, n):
    """strength-reducible and immediate forms: x op C with many constants"""
    p = Prog(tg)
    p.meta['key'] = 'const'
    ks = ['i', 'u', 'l', 'ul', 'll', 'ull', 'c', 'uc', 's', 'us']
    for k in ks:
        p.main.append(Decl('x' + k, T(k), IE(Num(0))))
        p.glob('g' + k, T(k))
    for _ in range(n):
        k = r.choice(ks)
        v = rand_int(r, tg, k)
        x = r.choice([V('x' + k), V('g' + k)])
        p.main.append(E(Asg(x, Num(v, T(k)))))
        op = r.choice(['*', '/', '%', '*', '/', '%', '+', '-', '&', '|', '^', '<<', '>>', '==', '<', '>='])
        kc = r.choice(['i', 'i', k, 'u', 'l', 'ul'])
        if op in ('<<', '>>'): c = r.randint(0, 8 * size(tg, promote(T(k))['k']) - 1); kc = 'i'
        elif op in ('*', '/', '%'):
            c = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 25, 31, 32, 60, 64, 100, 127, 128, 256, 1000, 1 << 15, 1 << 16, 65537, 1 << 30, -1, -2, -4, -8, -3, -10, (1 << 31) - 1, -(1 << 31)])
        else: c = rand_int(r, tg, kc)
        lo, hi = irange(tg, kc)
        if not lo <= c <= hi: c = 1
        e = Bin(op, x, Num(c, T(kc))) if r.random() < 0.75 else Bin(op, Num(c, T(kc)), x)
        z = r.random()
        if z < 0.6 or op in REL: p.main.append(Pr(e))
        elif z < 0.8:
            p.main.append(E(OpAsg(op, x, Num(c, T(kc))))); p.main.append(Pr(x))
        else: p.main.append(Pr(Bin(op, x, Cast(T(kc), Num(c, T(kc))))))
    return p

def expr_prog(r, tg, n, depth):
    p = Prog(tg)
    p.meta['key'] = 'expr'
    leaves = []
    for i in range(10):
        k = r.choice(INTS)
        v = rand_int(r, tg, k)
        f = r.choice(['l', 'g', 'a', 's', 'vol'])
        n_ = f'v{i}'
        if f == 'l': p.main.append(Decl(n_, T(k), IE(Num(v, T(k))))); leaves.append((V(n_), T(k)))
        elif f == 'g': p.glob(n_, T(k), IE(Num(v, T(k)))); leaves.append((V(n_), T(k)))
        elif f == 'vol': p.main.append(Decl(n_, T(k), IE(Num(v, T(k))), q='volatile')); leaves.append((V(n_), T(k)))
        elif f == 'a':
            p.main.append(Decl(n_, A(T(k), 2), IL([IE(Num(0)), IE(Num(v, T(k)))]))); leaves.append((Idx(V(n_), Num(1)), T(k)))
        else:
            st = p.struct([('q', T('s')), ('w', T(k)), ('z', T('c'))])
            p.glob(n_, st, IL([IE(Num(1)), IE(Num(v, T(k)))])); leaves.append((Dot(V(n_), 'w'), T(k)))
    g = IntExpr(r, tg, leaves)
    for _ in range(n):
        e, t = g.gen(r.randint(2, depth))
        x = r.random()
        if x < 0.75: p.main.append(Pr(e))
        elif x < 0.85: p.main.append(If(e, Pr(Num(1)), Pr(Num(0))))
        else:
            l, lt = r.choice([z for z in leaves])
            if lt['k'] != 'b' and r.random() < 0.5:
                p.main.append(E(OpAsg(r.choice(['+', '-', '|', '&', '^', '*']), l, e)))
            else: p.main.append(E(Asg(l, e)))
            p.main.append(Pr(l))
    return p

def programs(r, tg, quick):
    ps = []
    for k1 in INTS:
        for k2 in INTS:
            ps.append(pair_prog(r, tg, k1, k2, 1 if quick else 6, ALLOPS))
    ps += [const_prog(r, tg, 60) for _ in range(12 if quick else 150)]
    ps += [expr_prog(r, tg, 30, 4) for _ in range(20 if quick else 400)]
    return ps

def main(chk):
    q = chk.quick()
    t = H.tlc('MCWords')
    chk.add('states', t.distinct); chk.add('transitions', t.generated)
    chk.add('word_operator_pairs_checked', t.distinct)
    chk.log('word arithmetic validated exhaustively at 8 bits')
    b = H.build()
    chk.log('built')
    ps = programs(chk.rng, 'x64', q)
    for i in range(0, len(ps), 200):
        creplay.replay(chk, ps[i:i + 200], creplay.targets(b, ['x64', 'x64-ssa']), 'int')
        chk.log(f'{min(i+200, len(ps))}/{len(ps)} programs')
        if chk.viol: break
