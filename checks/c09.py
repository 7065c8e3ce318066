"""C09: floating point."""
import struct
import harness as H
from cast import *
from gens import *
import creplay

SPEC = {'f': [0, 0x80000000, 1, 0x80000001, 0x7fffff, 0x800000, 0x3f800000, 0xbf800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000,
              0x7fc00000, 0x3f000000, 0x40490fdb, 0x4b800000, 0x4b800001, 0x4b7fffff, 0x5f000000, 0x5effffff, 0x4f000000, 0x4effffff, 0xcf000000, 0x4f800000, 0x4f7fffff, 0x3dcccccd],
        'd': [0, 1 << 63, 1, (1 << 63) + 1, (1 << 52) - 1, 1 << 52, 0x3ff0000000000000, 0xbff0000000000000, 0x7fefffffffffffff, 0x7ff0000000000000,
              0xfff0000000000000, 0x7ff8000000000000, 0x3fe0000000000000, 0x400921fb54442d18, 0x4340000000000000, 0x4340000000000001, 0x43e0000000000000,
              0x43dfffffffffffff, 0x43f0000000000000, 0x43efffffffffffff, 0x41dfffffffc00000, 0x41e0000000000000, 0x41efffffffe00000, 0xc1e0000000000000, 0x3fb999999999999a,
              0x36a0000000000000, 0x47efffffe0000000, 0x47f0000000000000, 0x3810000000000000, 0x380fffffffffffff]}
def fbits(v, k): return struct.unpack('<I', struct.pack('<f', v))[0] if k == 'f' else struct.unpack('<Q', struct.pack('<d', v))[0]

def rand_flo(r, k):
    x = r.random()
    if x < 0.35: return r.choice(SPEC[k])
    if x < 0.6:
        v = r.choice([0.5, 1.5, 2.5, -0.25, 3.0, 10.0, -7.75, 100.125, 0.1, 0.2, 0.3, 1e5, -1e9, 255.0, 256.5, 65535.5, 65536.0, 127.9, -128.9, 2147483647.0, -2147483648.0, 4294967295.0])
        return fbits(v, k)
    if x < 0.75: return fbits(float(r.randint(-1 << 20, 1 << 20)) / r.choice([1, 2, 4, 3, 7, 10]), k)
    if x < 0.88:          # moderate exponent, random mantissa
        if k == 'f': return r.getrandbits(1) << 31 | (127 + r.randint(-30, 40)) << 23 | r.getrandbits(23)
        return r.getrandbits(1) << 63 | (1023 + r.randint(-60, 70)) << 52 | r.getrandbits(52)
    return r.getrandbits(32 if k == 'f' else 64)

def FB(b, k, lit=False):
    e = FltBits(b, T(k))
    if not lit: e['bits'] = True
    return e

def pair_prog(r, tg, k1, k2, nv, ops):
    p = Prog(tg); p.meta['key'] = f'{k1},{k2}'
    t1, t2 = T(k1), T(k2)
    st = p.struct([('p', T('c')), ('m', t1), ('q', T('c')), ('n', t2)])
    p.glob('gs', st); p.glob('g1', t1); p.glob('g2', t2); p.glob('a1', A(t1, 3)); p.glob('a2', A(t2, 3))
    p.main += [Decl('l1', t1, IE(Num(0))), Decl('l2', t2, IE(Num(0))), Decl('p1', P(t1), IE(Addr(V('g1')))), Decl('p2', P(t2), IE(Addr(V('g2'))))]
    fa = [V('l1'), V('g1'), Dot(V('gs'), 'm'), Idx(V('a1'), Num(2)), Deref(V('p1'))]
    fb = [V('l2'), V('g2'), Dot(V('gs'), 'n'), Idx(V('a2'), Num(1)), Deref(V('p2'))]
    rt = uac(tg, t1, t2)
    for i, op in enumerate(ops):
        p.func(f'f{i}', INT if op in REL else rt, [('x', t1), ('y', t2)], Block(Ret(Bin(op, V('x'), V('y')))))
    def val(k):
        return (FB(rand_flo(r, k), k) if k in 'fd' else Num(rand_int(r, tg, k), T(k)))
    def lit(e):            # as a literal in the source where possible
        e = dict(e); e.pop('bits', None); return e
    for _ in range(nv):
        v1, v2 = val(k1), val(k2)
        if k1 == k2 and r.random() < 0.2: v2 = v1
        for e in fa: p.main.append(E(Asg(e, v1)))
        for e in fb: p.main.append(E(Asg(e, v2)))
        for i, op in enumerate(ops):
            a, b = r.choice(fa), r.choice(fb)
            t = INT if op in REL else rt
            p.main.append(PrT(Bin(op, a, b), t))
            x = r.random()
            if x < 0.2: p.main.append(PrT(Bin(op, a, lit(v2)), t))
            elif x < 0.4: p.main.append(PrT(Bin(op, lit(v1), b), t))
            elif x < 0.6: p.main.append(PrT(Call(f'f{i}', [a, b]), t))
            elif op in REL:
                p.main.append(If(Bin(op, a, b), Pr(Num(1)), Pr(Num(0))))
                p.main.append(If(Un('!', Bin(op, a, b)), Pr(Num(3)), Pr(Num(2))))
                p.main.append(Pr(Cond(Land(Bin(op, a, b), Num(1)), Num(5), Num(6))))
            else:
                p.main.append(E(OpAsg(op, a, b))); p.main.append(PrT(a, t1)); p.main.append(E(Asg(a, v1)))
        a, b = r.choice(fa), r.choice(fb)
        p.main += [PrT(Asg(a, b), t1), PrT(a, t1), E(Asg(a, v1))]
        p.main += [PrT(Cast(t2, a), t2), PrT(Cast(t1, b), t1)]
        if is_float(t1):
            p.main += [PrT(Un('-', a), t1), Pr(Un('!', a)), If(a, Pr(Num(1)), Pr(Num(0))), Pr(Cond(a, Num(1), Num(2))), Pr(Land(a, b)), Pr(Lor(a, b)),
                       While(a, Block(Pr(Num(9)), BRK))]
            op = r.choice('+-'); p.main += [PrT(Inc(op, r.random() < 0.5, a), t1), PrT(a, t1), E(Asg(a, v1))]
        p.main += [PrT(Cond(r.choice(fa), a, b), rt)]
        k = r.choice(INTS)
        p.main += [Pr(Cast(T(k), a)), PrT(Cast(r.choice([T('d')]), Cast(T('f'), b)), T('d'))]
    return p

def expr_prog(r, tg, n):
    p = Prog(tg); p.meta['key'] = 'fexpr'
    leaves = []
    for i in range(8):
        k = r.choice(['f', 'd', 'f', 'd', 'i', 'u', 'll', 'ull', 's', 'uc'])
        v = FB(rand_flo(r, k), k) if k in 'fd' else Num(rand_int(r, tg, k), T(k))
        if r.random() < 0.5 or k in 'fd': p.main.append(Decl(f'v{i}', T(k), IE(v)))
        else: p.glob(f'v{i}', T(k), IE(v))
        leaves.append((V(f'v{i}'), T(k)))
    p.func('idf', T('f'), [('x', T('f'))], Block(Ret(V('x'))))
    p.func('idd', T('d'), [('x', T('d'))], Block(Ret(V('x'))))
    p.func('mixf', T('d'), [('a', T('i')), ('x', T('f')), ('b', T('ll')), ('y', T('d'))], Block(Ret(Bin('-', Bin('*', V('x'), V('y')), Bin('+', V('a'), V('b'))))))
    def leaf():
        if r.random() < 0.2:
            k = r.choice('fd'); return FB(fbits(r.choice([0.5, 2.0, 1.0, -1.0, 0.0, 10.0, 0.1, 3.75]), k), k, True), T(k)
        return r.choice(leaves)
    def gen(d):
        if d == 0: return leaf()
        x = r.random()
        a, ta = gen(d - 1)
        if x < 0.5:
            b, tb = gen(d - 1); op = r.choice('+-*/')
            if is_int(ta) and is_int(tb): a, ta = Cast(T('d'), a), T('d')
            return Bin(op, a, b), uac(tg, ta, tb)
        if x < 0.58: return Un('-', Cast(T('f'), a)), T('f')
        if x < 0.72:
            k = r.choice(['f', 'd', 'f', 'd', 'i', 'll', 'u', 'ull', 'uc', 's']); return Cast(T(k), a), T(k)
        if x < 0.8: return Call('idf', [a]), T('f')
        if x < 0.86: return Call('idd', [a]), T('d')
        if x < 0.9:
            b, tb = gen(d - 1)
            return Call('mixf', [Num(3), a, Num(-2), b]), T('d')
        b, tb = gen(d - 1); c, _ = leaf()
        return Cond(Bin(r.choice(REL), c, leaf()[0]), a, b), uac(tg, ta, tb)
    for _ in range(n):
        e, t = gen(r.randint(2, 4))
        p.main.append(PrT(e, t))
        if r.random() < 0.3:
            e2, t2 = gen(2)
            p.main.append(If(Bin(r.choice(REL), e, e2), Pr(Num(1)), Pr(Num(0))))
        if r.random() < 0.3:
            l, lt = r.choice(leaves)
            p.main.append(E(Asg(l, e))); p.main.append(PrT(l, lt))
    return p

def programs(r, tg, q):
    ps = []
    n = 1 if q else 8
    for k1 in 'fd':
        for k2 in 'fd': ps += [pair_prog(r, tg, k1, k2, 2 * n, list('+-*/') + REL) for _ in range(4)]
        for k2 in INTS:
            ps.append(pair_prog(r, tg, k1, k2, 2 * n, list('+-*/') + REL))
            ps.append(pair_prog(r, tg, k2, k1, 2 * n, list('+-*/') + REL))
    ps += [expr_prog(r, tg, 20) for _ in range(24 * n)]
    return ps

def main(chk):
    t = H.tlc('MCFloats')
    chk.add('states', t.distinct); chk.add('transitions', t.generated)
    chk.log('float arithmetic validated exhaustively on a small format')
    b = H.build()
    for tg, names in (('x64', ['x64', 'x64-ssa']), ('wasm', ['wasm'])):
        ps = programs(chk.rng, tg, chk.quick())
        if tg == 'wasm' and chk.quick(): ps = chk.rng.sample(ps, 50)
        for i in range(0, len(ps), 200):
            creplay.replay(chk, ps[i:i + 200], creplay.targets(b, names), 'float')
            if chk.viol: break
        chk.log(f'{tg}: {len(ps)} programs')
