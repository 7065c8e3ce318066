"""C05: struct, union and bit-field layout."""
import harness as H
from cast import *
from gens import *
from aggs import Aggs
import creplay

def addr(e): return Cast(P(T('c')), Addr(e))

def layout_prog(r, tg, n):
    """sizeof, offsets computed by address differences, alignment and static data of plain structs"""
    p = Prog(tg); p.meta['key'] = 'layout'
    a = Aggs(r, p)
    p.glob('ga', A(INT, 4), IL([IE(Num(i + 5)) for i in range(4)]))
    a.ptargets.append(('ga', 4))
    for j in range(n):
        t = a.mkstruct(r.choice([0, 1, 2, 2]), anon=0.2, n=r.choice([1, 2, 3, 4, 5, 6, 8]))
        g = f'g{j}'
        p.glob(g, A(t, 3), IL([a.init(t) for _ in range(2)]))
        p.main += [Pr(SzT(t)), Pr(SzE(Idx(V(g), Num(0)))), Pr(SzE(V(g))), Pr(SzT(A(t, 5)))]
        p.main.append(Block(*[s for i in range(3) for s in a.show(Idx(V(g), Num(i)), t)]))
        base = Cast(P(T('c')), Addr(Idx(V(g), Num(1))))
        ms = [(Dot(Idx(V(g), Num(1)), m['n']), m) for m in a.members(t) if m['n']]
        for m in a.members(t):
            if m['n'] == '': ms += [(Dot(Idx(V(g), Num(1)), x['n']), x) for x in a.members(m['t'])]
        for lv, m in ms:
            p.main += [Pr(Bin('-', addr(lv), base)), Pr(SzE(lv))]
            if m['n'] in [x['n'] for x in a.members(t)]:
                # offset computed at run time through a pointer, and the classic constant form
                q = Arrow(V(f'q{j}'), m['n'])
                p.main.append(Block(Decl(f'q{j}', P(t), IE(Bin('+', V(g), Num(1)))), Pr(Bin('-', addr(q), Cast(P(T('c')), V(f'q{j}')))),
                                    *([Pr(Bin('==', Addr(q), Addr(lv)))])))
        p.main.append(Pr(Bin('-', addr(Idx(V(g), Num(2))), addr(Idx(V(g), Num(0))))))
        # static and automatic objects agree byte by byte with member stores
        lv = list(a.leaves(V('x'), t))
        p.main.append(Block(Decl('x', t, IE(Idx(V(g), Num(0)))), *[E(Asg(e, a.value(k))) for e, k, w in lv], *a.show(V('x'), t)))
        # union punning: same bytes through every member
        if a.is_union(t):
            uc = [m for m in a.members(t)]
            for m in uc:
                if m['t']['k'] in INTS and m['t']['k'] != 'b':
                    p.main.append(Block(Decl('u', t, IL([])), E(Asg(Dot(V('u'), m['n']), a.value(m['t']))),
                                        *[Pr(Dot(V('u'), x['n'])) for x in uc if x['t']['k'] in INTS and x['t']['k'] != 'b' and size(tg, x['t']['k']) <= size(tg, m['t']['k'])]))
    return p

def bytes_prog(r, tg, n):
    """a store to one member changes no byte outside it: every byte of the enclosing array is observed"""
    p = Prog(tg); p.meta['key'] = 'bytes'
    a = Aggs(r, p)
    for j in range(n):
        t = a.mkstruct(r.choice([0, 1]), ptr=False, n=r.choice([2, 3, 4, 5]))
        g = f'g{j}'
        p.glob(g, A(t, 2))
        p.main.append(Decl(f'c{j}', P(T('uc')), IE(Cast(P(T('uc')), V(g)))))
        fill = For(Decl('i', INT, IE(Num(0))), Bin('<', V('i'), SzE(V(g))), Inc('+', False, V('i')), E(Asg(Idx(V(f'c{j}'), V('i')), Num(0xA5))))
        dump = For(Decl('i', INT, IE(Num(0))), Bin('<', V('i'), SzE(V(g))), Inc('+', False, V('i')), Pr(Idx(V(f'c{j}'), V('i'))))
        lvs = list(a.leaves(Idx(V(g), Num(0)), t)) + list(a.leaves(Idx(V(g), Num(1)), t))
        for e, k, w in r.sample(lvs, min(4, len(lvs))):
            p.main.append(Block(fill, E(Asg(e, a.value(k))), dump))
    return p

def bf_struct(r, a, tg):
    ms = []
    n = r.randint(1, 8)
    for i in range(n):
        x = r.random()
        if x < 0.12: ms.append((f'm{i}', T(r.choice(['c', 's', 'i', 'll', 'd', 'uc']))))
        else:
            k = r.choice(['i', 'u', 'u', 'i', 'us', 'uc', 'sc', 's', 'l', 'ul', 'll', 'ull', 'c'])
            if k == 'c': k = 'sc'
            mx = 8 * size(tg, k)
            w = r.choice([1, 2, 3, 5, 7, mx - 1, mx, r.randint(1, mx), r.randint(1, mx)])
            ms.append((f'm{i}', T(k), max(1, min(mx, w))))
        if r.random() < 0.2: ms.append(('', T(r.choice(['i', 'u', 'us', 'uc', 'll', 'ul'])), r.choice([0, 0, 1, 3, 7])))
    return a.p.struct(ms)

def bf_prog(r, tg, n):
    """bit-fields: value range, sign, neighbours intact, every access form"""
    p = Prog(tg); p.meta['key'] = 'bitfield'
    a = Aggs(r, p)
    for j in range(n):
        t = bf_struct(r, a, tg)
        g = f'g{j}'
        ms = [m for m in a.members(t) if m['n']]
        p.glob(g, t, a.init(t))
        p.glob(f'h{j}', A(t, 2))
        p.glob(f'p{j}', P(t), IE(Addr(Idx(V(f'h{j}'), Num(1)))))
        p.main.append(Decl(f'l{j}', t, a.init(t)))
        show = lambda lv: Block(*a.show(lv, t))
        p.main += [show(V(g)), show(V(f'l{j}')), show(Idx(V(f'h{j}'), Num(1)))]
        lvs = [lambda m: Dot(V(g), m), lambda m: Dot(V(f'l{j}'), m), lambda m: Arrow(V(f'p{j}'), m), lambda m: Dot(Idx(V(f'h{j}'), Num(0)), m)]
        full = [V(g), V(f'l{j}'), Deref(V(f'p{j}')), Idx(V(f'h{j}'), Num(0))]
        for _ in range(10):
            i = r.randrange(4)
            m = r.choice(ms)
            lv = lvs[i](m['n'])
            x = r.random()
            v = a.bfval(m) if m['w'] >= 0 else a.value(m['t'])
            if m['t']['k'] == 'd':
                p.main.append(E(Asg(lv, v)))
            elif x < 0.25: p.main.append(E(Asg(lv, v)))
            elif x < 0.35: p.main.append(E(Asg(lv, Num(rand_int(r, tg, 'll'), T('ll')))))
            elif x < 0.50: p.main.append(Pr(Asg(lv, v if r.random() < 0.5 else Num(rand_int(r, tg, r.choice(['i', 'u', 'll'])), T('ll')))))
            elif x < 0.62: p.main.append(Pr(Inc(r.choice('+-'), r.random() < 0.5, lv)))
            elif x < 0.78: p.main.append(Pr(OpAsg(r.choice(['+', '-', '*', '&', '|', '^', '>>', '<<']), lv, Num(r.choice([0, 1, 2, 3, 5, 7])))))
            elif x < 0.86:
                m2 = r.choice(ms)
                p.main.append(Pr(Bin(r.choice(['+', '-', '<', '==', '&', '>']), lv, lvs[r.randrange(4)](m2['n']))) if m2['t']['k'] != 'd' else E(Asg(lv, Num(1))))
            elif x < 0.93: p.main.append(E(Asg(lv, lvs[r.randrange(4)](r.choice([y for y in ms if y['t']['k'] != 'd'])['n']))))
            else: p.main.append(E(Asg(full[i], r.choice(full))))
            p.main.append(show(full[i]))
        # passed and returned by value
        p.func(f'f{j}', t, [('s', t)], Block(E(Asg(Dot(V('s'), ms[0]['n']), a.bfval(ms[0]) if ms[0]['w'] >= 0 else a.value(ms[0]['t']))), Ret(V('s'))))
        p.main.append(Block(Decl('t', t, IE(Call(f'f{j}', [V(g)]))), *a.show(V('t'), t), *a.show(V(g), t)))
    return p

def bfu_prog(r, tg, n):
    """unions with bit-field members: the member last stored is the one read"""
    p = Prog(tg); p.meta['key'] = 'bitfield union'
    a = Aggs(r, p)
    for j in range(n):
        ms = []
        for i in range(r.randint(2, 5)):
            k = r.choice(['i', 'u', 'us', 'uc', 'sc', 's', 'll', 'ull'])
            ms.append((f'm{i}', T(k), r.randint(1, 8 * size(tg, k))) if r.random() < 0.7 else (f'm{i}', T(k)))
        t = p.struct(ms, True)
        ms = a.members(t)
        val = lambda m: a.bfval(m) if m['w'] >= 0 else a.value(m['t'])
        o = p.struct([('a', T('c')), ('u', t), ('z', INT)])
        for k in range(2):
            m0, m1 = r.choice(ms), r.choice(ms)
            p.glob(f'g{j}_{k}', o, IL([IE(Num(k)), Item([], IL([Item([DM(m0['n'])], IE(val(m0)))])), IE(Num(77))]))
            g = V(f'g{j}_{k}')
            p.main += [Pr(Dot(g, 'a')), Pr(Dot(Dot(g, 'u'), m0['n'])), Pr(Dot(g, 'z'))]
            l = V('l')
            st = [Decl('l', o, IL([IE(Num(k)), Item([], IL([Item([DM(m1['n'])], IE(val(m1)))])), IE(Num(78))])), Pr(Dot(Dot(l, 'u'), m1['n'])), Pr(Dot(l, 'z'))]
            for _ in range(4):
                m = r.choice(ms)
                for x in (l, g): st += [E(Asg(Dot(Dot(x, 'u'), m['n']), val(m))), Pr(Dot(Dot(x, 'u'), m['n'])), Pr(Dot(x, 'a')), Pr(Dot(x, 'z'))]
            p.main.append(Block(*st))
        # first member without designator
        m = ms[0]
        p.glob(f'h{j}', t, IL([IE(val(m))]))
        p.main += [Pr(Dot(V(f'h{j}'), m['n']))]
    return p

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 12
    for rnd in range(m):
        ps = [layout_prog(r, 'x64', 3) for _ in range(50)] + [bytes_prog(r, 'x64', 3) for _ in range(25)]
        creplay.replay(chk, ps, creplay.targets(b, ['x64', 'x64-ssa']), 'layout')
        chk.log(f'layout {rnd + 1}/{m}')
        ps = [bf_prog(r, 'x64', 2) for _ in range(70)] + [bfu_prog(r, 'x64', 2) for _ in range(25)]
        creplay.replay(chk, ps, creplay.targets(b, ['x64', 'x64-ssa']), 'bitfield')
        chk.log(f'bit-fields {rnd + 1}/{m}')
        ps = [f(r, 'wasm', n) for f, n, c in ((layout_prog, 3, 15), (bytes_prog, 3, 8), (bf_prog, 2, 20), (bfu_prog, 2, 6)) for _ in range(c)]
        creplay.replay(chk, ps, creplay.targets(b, ['wasm']), 'layout')
        chk.log(f'wasm {rnd + 1}/{m}')
        if chk.viol: break
