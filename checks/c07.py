"""C07: stores change exactly the designated object."""
import harness as H
from cast import *
from gens import *
from aggs import Aggs
import creplay

class Mem:
    """A pool of objects (name -> type) and random accesses to them through every kind of path."""
    def __init__(self, r, p, a, types):
        self.r, self.p, self.a, self.tg = r, p, a, p.tg
        self.types = types
        self.objs = []            # (lvalue, type)
        self.ptrs = {}            # pointee key -> [names]
        self.pps = []             # (name, pointee pointer key)
        self.n = 0
    def nm(self, x):
        self.n += 1
        return f'{x}{self.n}'
    def leaves(self, k=None, ty=None):
        out = []
        for lv, t in self.objs:
            for e, tt, w in self.a.leaves(lv, t):
                if w < 0 and tt['k'] != 'p' and (k is None or tt['k'] == k): out.append((e, tt))
        return out
    def arrays(self, pred):
        """(lvalue, elemtype, n) of every array subobject whose element satisfies pred"""
        out = []
        def rec(lv, t):
            if t['k'] == 'a':
                if pred(t['of']): out.append((lv, t['of'], t['n']))
                for i in range(t['n']): rec(Idx(lv, Num(i)), t['of'])
            elif t['k'] == 'st' and not self.a.is_union(t):
                for m in self.a.members(t):
                    if m['n'] and m['w'] < 0: rec(Dot(lv, m['n']), m['t'])
        for lv, t in self.objs: rec(lv, t)
        return out
    def structs(self):
        out = []
        def rec(lv, t):
            if t['k'] == 'a':
                for i in range(t['n']): rec(Idx(lv, Num(i)), t['of'])
            elif t['k'] == 'st':
                out.append((lv, t))
                if not self.a.is_union(t):
                    for m in self.a.members(t):
                        if m['n'] and m['w'] < 0: rec(Dot(lv, m['n']), m['t'])
        for lv, t in self.objs: rec(lv, t)
        return out
    def show(self, lv, t): return Block(*self.a.show(lv, t)) if t['k'] in ('a', 'st') else PrT(lv, t)
    def showall(self): return Block(*[s for lv, t in self.objs for s in self.a.show(lv, t)])
    def ix(self, i):
        """an int expression of value i, constant or not"""
        r = self.r
        x = r.random()
        if x < 0.4: return Num(i)
        if x < 0.7: return V(f'k{i}') if 0 <= i < 4 else Num(i)
        if x < 0.85: return Bin('-', V('k3'), Num(3 - i))
        return Cast(T(r.choice(['c', 'll', 'uc', 's', 'u'])), Num(i)) if i >= 0 else Num(i)
    def val(self, t):
        r = self.r
        if r.random() < 0.2:
            ls = self.leaves(t['k'])
            if ls: return r.choice(ls)[0]
        return self.a.value(t)
    def elem(self, lv, n, i):
        """an lvalue designating element i of array lv of n elements, by some path"""
        r = self.r
        x = r.random()
        if x < 0.3: return Idx(lv, self.ix(i))
        if x < 0.45: return Deref(Bin('+', lv, self.ix(i)))
        if x < 0.55: return Deref(Bin('+', self.ix(i), lv))
        if x < 0.7:
            j = r.randrange(n + 1)
            return Idx(Addr(Idx(lv, Num(j))) if j < n else Bin('+', lv, Num(n)), self.ix(i - j) if i >= j else Un('-', self.ix(j - i)))
        if x < 0.8: return Deref(Bin('-', Bin('+', lv, Num(n)), self.ix(n - i) if n - i < 4 else Num(n - i)))
        return Deref(Addr(Idx(lv, self.ix(i))))
    def step(self):
        r = self.r
        x = r.random()
        if x < 0.10:                                  # plain
            e, t = r.choice(self.leaves())
            return [E(Asg(e, self.val(t)))]
        if x < 0.30:                                  # array element by some path
            ar = self.arrays(lambda t: t['k'] in INTS or t['k'] in ('f', 'd'))
            if not ar: return []
            lv, t, n = r.choice(ar)
            e = self.elem(lv, n, r.randrange(n))
            if t['k'] in ('f', 'd') or t['k'] == 'b' or r.random() < 0.6: return [E(Asg(e, self.val(t)))]
            return [r.choice([E(Asg(e, self.val(t))), Pr(OpAsg(r.choice('&|^'), e, self.val(t))), Pr(Inc(r.choice('+-'), r.random() < 0.5, e)) if t['k'] not in ('i', 'l', 'll') else E(OpAsg('^', e, Num(5)))])]
        if x < 0.45:                                  # pointer into an array, walked
            ar = [z for z in self.arrays(lambda t: t['k'] in INTS or t['k'] in ('f', 'd')) if z[2] >= 2]
            if not ar: return []
            lv, t, n = r.choice(ar)
            q = self.nm('q')
            ss = [Decl(q, P(t), IE(lv if r.random() < 0.5 else Addr(Idx(lv, Num(0)))))]
            pos = 0
            for _ in range(r.randint(1, 4)):
                y = r.random()
                if y < 0.3 and pos < n: ss.append(E(Asg(Deref(Inc('+', False, V(q))), self.val(t)))); pos += 1
                elif y < 0.45 and pos + 1 < n: ss.append(E(Asg(Deref(Inc('+', True, V(q))), self.val(t)))); pos += 1
                elif y < 0.6 and pos > 0: ss.append(E(Asg(Deref(Inc('-', True, V(q))), self.val(t)))); pos -= 1
                elif y < 0.75:
                    d = r.randint(-pos, n - pos)
                    ss.append(E(OpAsg('+', V(q), self.ix(d))) if d >= 0 else E(OpAsg('-', V(q), Num(-d)))); pos += d
                elif pos < n: ss.append(E(Asg(Idx(V(q), Num(r.randint(-pos, n - pos - 1))), self.val(t))))
                ss.append(Pr(Bin('-', V(q), lv)))
            ss.append(Pr(Bin(r.choice(['<', '<=', '>', '==']), V(q), Addr(Idx(lv, Num(r.randrange(n)))))))
            return [Block(*ss)]
        if x < 0.58:                                  # pointer to a scalar, pointer to pointer
            e, t = r.choice(self.leaves())
            q, qq = self.nm('q'), self.nm('q')
            ss = [Decl(q, P(t), IE(Addr(e)))]
            ss.append(E(Asg(Deref(V(q)), self.val(t))))
            same = self.leaves(t['k'])
            if r.random() < 0.3:                      # through the value of an assignment
                e2 = r.choice(same)[0]
                w = Deref(Asg(V(q), Addr(e2)))
                ss += [E(Asg(w, self.val(t))) if r.random() < 0.6 else Pr(Asg(w, self.val(t))) if t['k'] not in ('f', 'd') else E(Inc('+', r.random() < 0.5, w)), PrT(e2, t)]
                if t['k'] in INTS and t['k'] not in ('b', 'i', 'l', 'll'): ss += [E(Inc(r.choice('+-'), r.random() < 0.5, Deref(Asg(V(q), Addr(e2))))), PrT(e2, t)]
            if r.random() < 0.6:
                ss += [Decl(qq, P(P(t)), IE(Addr(V(q)))), E(Asg(Deref(Deref(V(qq))), self.val(t)))]
                e2 = r.choice(same)[0]
                ss += [E(Asg(Deref(V(qq)), Addr(e2))), E(Asg(Deref(V(q)), self.val(t))), PrT(Deref(Deref(V(qq))), t)]
            return [Block(*ss)]
        if x < 0.72:                                  # struct assignment
            ss = self.structs()
            if not ss: return []
            lv, t = r.choice(ss)
            same = [z for z, tt in ss if tt['id'] == t['id']]
            src = r.choice(same)
            y = r.random()
            if y < 0.4: return [E(Asg(lv, src))]
            q = self.nm('q')
            if y < 0.6: return [Block(Decl(q, P(t), IE(Addr(lv))), E(Asg(Deref(V(q)), src)))]
            if y < 0.75: return [Block(Decl(q, P(t), IE(Addr(lv))), Decl(q + 'b', P(t), IE(Addr(src))), E(Asg(Deref(V(q)), Deref(V(q + 'b')))))]
            if y < 0.85: return [Block(Decl(q, t, IE(src)), E(Asg(lv, V(q))), *self.a.show(V(q), t))]
            return [E(Asg(lv, CL(t, self.a.init(t))))]
        if x < 0.80:                                  # member through a pointer to the struct
            ss = [z for z in self.structs() if not self.a.is_union(z[1])]
            if not ss: return []
            lv, t = r.choice(ss)
            ms = [m for m in self.a.members(t) if m['n'] and m['t']['k'] not in ('p',)]
            if not ms: return []
            m = r.choice(ms)
            q = self.nm('q')
            e = Arrow(V(q), m['n']) if r.random() < 0.7 else Dot(Deref(V(q)), m['n'])
            ls = [z for z in self.a.leaves(e, m['t']) if z[1]['k'] != 'p']
            if not ls: return []
            le, lt, lw = r.choice(ls)
            if r.random() < 0.25:
                e = Arrow(Asg(V(q), Addr(lv)), m['n'])
                we, wt, ww = r.choice([z for z in self.a.leaves(e, m['t']) if z[1]['k'] != 'p'])
                return [Block(Decl(q, P(t), IE(Num(0))), E(Asg(we, self.val(wt) if m['w'] < 0 else self.a.bfval(m))), *self.a.show(Arrow(V(q), m['n']), m['t']))] if m['w'] < 0 and m['t']['k'] in ('a', 'st') else [Block(Decl(q, P(t), IE(Num(0))), E(Asg(we, self.val(wt) if m['w'] < 0 else self.a.bfval(m))), PrT(Arrow(V(q), m['n']), m['t']))]
            return [Block(Decl(q, P(t), IE(Addr(lv))), E(Asg(le, self.val(lt) if m['w'] < 0 else self.a.bfval(m))), PrT(le, lt))]
        if x < 0.88:                                  # bytes of an object
            ls = [z for z in self.leaves() if z[1]['k'] in ('s', 'us', 'i', 'u', 'l', 'ul', 'll', 'ull', 'd')]
            if not ls: return []
            e, t = r.choice(ls)
            q = self.nm('q')
            return [Block(Decl(q, P(T('uc')), IE(Cast(P(T('uc')), Addr(e)))), E(Asg(Idx(V(q), self.ix(r.randrange(size(self.tg, t['k'])))), Num(r.choice([0, 255, 128, 7, 64])))) if t['k'] != 'd' else Pr(Idx(V(q), self.ix(r.randrange(8)))))]
        if x < 0.94:                                  # rows of a two-dimensional array
            ar = [z for z in self.arrays(lambda t: t['k'] == 'a' and t['of']['k'] in INTS)]
            if not ar: return []
            lv, t, n = r.choice(ar)
            q = self.nm('q')
            i, j = r.randrange(n), r.randrange(t['n'])
            e = r.choice([Idx(Idx(V(q), self.ix(i)), self.ix(j)), Idx(Deref(Bin('+', V(q), self.ix(i))), self.ix(j)), Deref(Bin('+', Idx(V(q), self.ix(i)), self.ix(j)))])
            return [Block(Decl(q, P(t), IE(lv)), E(Asg(e, self.val(t['of']))), Pr(Bin('-', Addr(Idx(V(q), self.ix(i))), V(q))), Pr(SzE(Deref(V(q)))))]
        if r.random() < 0.6: return self.vla()
        # a variable-length array between other objects
        z = self.nm('z')
        n = r.randint(1, 5)
        k = T(r.choice(['c', 's', 'i', 'll', 'd']))
        pre, post = self.nm('y'), self.nm('y')
        return [Block(Decl(pre, INT, IE(Num(11))), Decl(z + 'n', INT, IE(Num(n))), Vla(z, k, V(z + 'n')), Decl(post, INT, IE(Num(22))),
                      *[E(Asg(Idx(V(z), self.ix(i)), self.val(k))) for i in range(n)], *[PrT(Idx(V(z), self.ix(i)), k) for i in range(n)],
                      Pr(V(pre)), Pr(V(post)), Pr(SzE(V(z))))]

    def vla(self):
        """arrays of run-time dimensions: element addresses, pointers to rows, sizes, parameters"""
        r = self.r
        nd = r.choice([1, 2, 2, 2, 3])
        k = T(r.choice(['c', 's', 'us', 'i', 'll', 'd', 'f']))
        dims = [r.randint(1, 4) for _ in range(nd)]
        z = self.nm('z')
        const = r.random() < 0.3
        ss, vx = [], []
        for i, n in enumerate(dims):
            d = f'{z}d{i}'
            ss.append(Decl(d, T(r.choice(['i', 'i', 'us', 'll', 'c'])), IE(Bin('+', V('k1'), Num(n - 1)) if const or r.random() < 0.4 else Num(n)), q='const' if const else ''))
            vx.append((r.choice([d, d, d, f'({d})', f'{d} + 0', f'k0 + {d}']), n) if r.random() < 0.8 else (str(n), n))
        if not any(x.find('d') >= 0 for x, n in vx): vx[0] = (f'{z}d0', dims[0])
        def ty(i):
            t = k
            for x, n in reversed(vx[i:]): t = VA(t, n, x)
            return t
        pre, post = self.nm('y'), self.nm('y')
        ss += [Decl(pre, T('ll'), IE(Num(11))), Decl(z, ty(0)), Decl(post, INT, IE(Num(22)))]
        if not const and r.random() < 0.5:            # the size was fixed by the declaration
            ss += [E(Asg(V(f'{z}d{r.randrange(nd)}'), Num(r.randint(0, 9))))]
            changed = True
        else: changed = False
        import itertools
        idx = list(itertools.product(*[range(n) for n in dims]))
        def at(e, ix):
            for i in ix:
                y = r.random()
                e = Idx(e, self.ix(i)) if y < 0.6 else Deref(Bin('+', e, self.ix(i))) if y < 0.8 else Deref(Addr(Idx(e, Num(i))))
            return e
        for n, ix in enumerate(idx): ss.append(E(Asg(at(V(z), ix), Num(n + 1))))
        for i in range(nd): ss.append(Pr(SzE(at(V(z), [0] * i))))
        def showz(): return [PrT(at(V(z), ix), k) for ix in r.sample(idx, min(len(idx), 6))]
        if nd >= 2 and not changed:                   # a pointer walked over the rows
            q = self.nm('q')
            n, pos = dims[0], 0
            ss.append(Decl(q, P(ty(1)), IE(V(z) if r.random() < 0.5 else Addr(Idx(V(z), Num(0))))))
            rest = lambda: [r.randrange(x) for x in dims[1:]]
            for _ in range(r.randint(2, 5)):
                y = r.random()
                if y < 0.2 and pos < n: ss.append(E(Inc('+', r.random() < 0.5, V(q)))); pos += 1
                elif y < 0.35 and pos > 0: ss.append(E(Asg(at(Deref(Inc('-', True, V(q))), rest()), self.val(k)))); pos -= 1
                elif y < 0.5 and pos < n: ss.append(E(Asg(at(Deref(Inc('+', False, V(q))), rest()), self.val(k)))); pos += 1
                elif y < 0.7:
                    d = r.randint(-pos, n - pos)
                    ss.append(E(OpAsg('+', V(q), self.ix(d))) if d >= 0 else E(OpAsg('-', V(q), Num(-d)))); pos += d
                else:
                    i = r.randrange(n)
                    ss.append(E(Asg(at(Idx(V(q), Num(i - pos)), rest()), self.val(k))))
                ss += [Pr(Bin('-', V(q), V(z))), Pr(Bin('-', V(z), V(q)))]
            if pos < n: ss.append(Pr(SzE(Deref(V(q)))))
            ss.append(Pr(Bin(r.choice(['<', '<=', '>', '==', '!=']), V(q), Addr(Idx(V(z), Num(r.randrange(n)))))))
        if r.random() < 0.3 and not changed:          # a pointer to the whole array
            q = self.nm('q')
            ix = r.choice(idx)
            ss += [Decl(q, P(ty(0)), IE(Addr(V(z)))), E(Asg(at(Deref(V(q)), ix), self.val(k))), Pr(SzE(Deref(V(q))))]
        ss += showz()
        if r.random() < 0.6:                          # a parameter: the outermost dimension does not matter
            f = f'vf{len(self.p.fnames)}'
            px = [(x.replace(z + 'd', 'd').replace('k0', '0'), n) for x, n in vx]
            t = k
            for x, n in reversed(px[1:]): t = VA(t, n, x)
            at_ = dict(P(t), ax=r.choice(['', px[0][0], px[0][0], f'{px[0][0]} + 1', str(dims[0])])) if r.random() < 0.8 else P(t)
            a = V('a')
            ix = r.choice(idx)
            body = [Pr(SzE(a)), Pr(SzE(Deref(a))), E(Asg(at(a, ix), Num(r.randint(0, 99))))]
            body += [PrT(at(a, x), k) for x in r.sample(idx, min(len(idx), 3))]
            i = r.randint(0, dims[0] - 1)
            x = [i] + [r.randrange(n) for n in dims[1:]]
            body += [r.choice([E(OpAsg('+', a, Num(i))), Block(*[E(Inc('+', r.random() < 0.5, a)) for _ in range(i)]), E(Asg(a, Addr(Idx(a, Num(i))))), E(Asg(a, Bin('+', a, self.ix(i))))])]
            body += [E(Asg(at(Deref(a), x[1:]), Num(r.randint(0, 99)))), Ret(Cast(INT, at(Idx(a, Num(ix[0] - i)), ix[1:])))]
            self.p.func(f, INT, [(f'd{j}', INT) for j in range(nd)] + [('a', at_)], Block(*body))
            ss += [Pr(Call(f, [Num(n) for n in dims] + [V(z)]))] + showz()
        ss += [Pr(V(pre)), Pr(V(post)), Pr(SzE(V(z)))]
        if r.random() < 0.3:                          # a fresh object, of another size, in each activation of its scope
            n, w = self.nm('n'), self.nm('w')
            i = V('i')
            ss.append(For(Decl('i', INT, IE(Num(1))), Bin('<', i, Num(r.randint(2, 5))), Inc('+', False, i),
                          Block(Decl(n, INT, IE(Bin('*', i, Num(r.randint(1, 2))))), Vla(w, k, V(n)), E(Asg(Idx(V(w), Num(0)), i)), E(Asg(Idx(V(w), Bin('-', V(n), Num(1))), Bin('+', i, Num(7)))),
                                If(Bin('==', i, Num(2)), CONT), PrT(Idx(V(w), Num(0)), k), Pr(SzE(V(w))))))
        return [Block(*ss)]

def prog(r, tg, steps):
    p = Prog(tg); p.meta['key'] = 'stores'
    a = Aggs(r, p)
    types = [a.mktype(2, ptr=False) for _ in range(4)] + [A(T(r.choice(INTS)), r.randint(2, 4)), A(A(T(r.choice(['c', 's', 'i', 'll', 'us'])), r.randint(2, 3)), r.randint(2, 3)), a.mkstruct(1, ptr=False, union=False), a.scalar(False)]
    for i in range(4): p.glob(f'k{i}', INT, IE(Num(i)))
    # local objects live in main: their declarations open it
    def pool(m, pre, n, decl):
        for i in range(n):
            t = r.choice(types)
            v = f'{pre}{i}'
            decl(v, t, a.init(t))
            m.objs.append((V(v), t))
    # a function with objects of its own, called several times and recursively
    mf = Mem(r, p, a, types)
    fb = []
    pool(mf, 'fl', 3, lambda v, t, i: fb.append(Decl(v, t, i, q=r.choice(['', '', 'volatile']) if t['k'] in INTS else '')))
    sl = r.choice(types)
    fb.append(p.static_local('fs', sl, a.init(sl)))
    mf.objs.append((V('fs'), sl))
    cnt = p.static_local('cnt', INT, IE(Num(0)))
    fb.append(cnt)
    pt = r.choice([t for t in types if t['k'] == 'st'])
    mf.objs.append((V('pa'), pt))
    ki = T(r.choice(['i', 'c', 'll', 'us', 'd']))
    mf.objs.append((V('pb'), ki))
    for _ in range(steps // 2): fb += mf.step()
    fb.append(Pr(Inc('+', True, V('cnt'))))
    if r.random() < 0.6:
        fb.append(If(Bin('>', V('d'), Num(0)), Pr(Call('work', [V('pa'), mf.val(ki), Bin('-', V('d'), Num(1))]))))
    fb += [mf.showall(), Ret(Bin('+', V('cnt'), V('d')))]
    m = Mem(r, p, a, types)
    pool(m, 'g', 3, lambda v, t, i: p.glob(v, t, i))
    pool(m, 'u', 1, lambda v, t, i: p.glob(v, t))
    p.func('work', INT, [('pa', pt), ('pb', ki), ('d', INT)], Block(*fb))
    pool(m, 'l', 4, lambda v, t, i: p.main.append(Decl(v, t, i)))
    sg = p.static_local('sm', types[4], a.init(types[4]))
    p.main.append(sg); m.objs.append((V('sm'), types[4]))
    # writers through parameters
    p.func('wr', T('v'), [('q', P(ki)), ('v', ki)], Block(E(Asg(Deref(V('q')), V('v')))))
    p.func('swp', T('v'), [('x', P(ki)), ('y', P(ki))], Block(Decl('t', ki, IE(Deref(V('x')))), E(Asg(Deref(V('x')), Deref(V('y')))), E(Asg(Deref(V('y')), V('t')))))
    for j in range(steps):
        s = m.step()
        if r.random() < 0.12:
            ls = m.leaves(ki['k'])
            if ls:
                s = [E(Call('wr', [Addr(r.choice(ls)[0]), m.val(ki)])), E(Call('swp', [Addr(r.choice(ls)[0]), Addr(r.choice(ls)[0])]))]
        if r.random() < 0.06:
            ss = [z for z, t in m.structs() if t['id'] == pt['id']]
            if ss: s = s + [Pr(Call('work', [r.choice(ss), m.val(ki), Num(r.randint(0, 2))]))]
        p.main += s
        if j % 4 == 3: p.main.append(m.showall())
        else: p.main.append(Block(*[x for lv, t in r.sample(m.objs, 2) for x in a.show(lv, t)]))
    p.main.append(m.showall())
    return p

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 12
    for rnd in range(m):
        ps = [prog(r, 'x64', 24) for _ in range(100)]
        creplay.replay(chk, ps, creplay.targets(b, ['x64', 'x64-ssa']), 'stores')
        chk.log(f'x64 {rnd + 1}/{m}')
        ps = [prog(r, 'wasm', 24) for _ in range(25)]
        creplay.replay(chk, ps, creplay.targets(b, ['wasm']), 'stores')
        chk.log(f'wasm {rnd + 1}/{m}')
        if chk.viol: break
