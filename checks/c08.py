"""C08: optimisation and register allocation do not change behaviour."""
import harness as H
from cast import *
from gens import *
import creplay, c03

UK = ['u', 'ul', 'ull']

class Reg:
    """Bodies over many typed scalars that are all live at once; every operation is defined whatever the values."""
    def __init__(self, r, p, vars, funcs, calls=0.06, flo=True):
        self.r, self.p, self.vars, self.funcs, self.calls, self.flo = r, p, list(vars), funcs, calls, flo
        self.n = 0
        self.frozen = set()
    def nm(self, s):
        self.n += 1
        return f'{s}{self.n}'
    def ints(self): return [(v, t) for v, t in self.vars if is_int(t)]
    def flos(self): return [(v, t) for v, t in self.vars if is_float(t)]
    def ptrs(self): return [(v, t) for v, t in self.vars if t['k'] == 'p']
    def leaf(self):
        r = self.r
        if r.random() < 0.2:
            k = r.choice(['i', 'i', 'i', 'u', 'll', 'ull', 's', 'uc'])
            v = rand_int(r, self.p.tg, k) if r.random() < 0.4 else r.randint(-9, 99) if irange(self.p.tg, k)[0] < 0 else r.randint(0, 99)
            return Num(v, T(k)), T(k)
        ip = [x for x in self.ptrs() if is_int(x[1]['to'])]
        if ip and r.random() < 0.08:
            v, t = r.choice(ip)
            return Deref(V(v)), t['to']
        v, t = r.choice(self.ints())
        return V(v), t
    def ie(self, d):
        """integer expression, never undefined"""
        r, tg = self.r, self.p.tg
        if d <= 0: return self.leaf()
        x = r.random()
        a, ta = self.ie(d - 1)
        if x < 0.45:
            op = r.choice(['+', '-', '*', '&', '|', '^', '+', '-'])
            b, tb = self.ie(d - 1 if r.random() < 0.4 else 0)
            if r.random() < 0.3: a, b, ta, tb = b, a, tb, ta
            t = uac(tg, ta, tb)
            if op in '+-*' and t['k'] not in UK:
                k = 'ull' if size(tg, t['k']) == 8 else 'u'
                a, t = Cast(T(k), a), T(k)
                t = uac(tg, t, tb)
            return Bin(op, a, b), t
        if x < 0.60:
            op = r.choice(['<<', '>>'])
            k = r.choice(UK)
            b, tb = self.ie(r.choice([0, 0, 1]))
            b = Bin('&', b, Num(8 * size(tg, k) - 1)) if r.random() < 0.6 else Num(r.randint(0, 8 * size(tg, k) - 1))
            if op == '>>' and r.random() < 0.5:
                k2 = promote(ta)['k']
                return Bin(op, a, Bin('&', b, Num(7))), T(k2)
            return Bin(op, Cast(T(k), a), b), T(k)
        if x < 0.72:
            op = r.choice(['/', '%'])
            b, tb = self.ie(r.choice([0, 0, 1]))
            if r.random() < 0.4:
                k = r.choice(UK)
                return Bin(op, Cast(T(k), a), Bin('|', Cast(T(k), b), Num(1))), T(k)
            # signed: divisor in 1..127
            t = promote(ta)
            return Bin(op, a, Bin('|', Bin('&', b, Num(126)), Num(1))), uac(tg, t, uac(tg, tb, INT))
        if x < 0.80:
            return self.cond(d - 1), INT
        if x < 0.87:
            k = r.choice(INTS)
            return Cast(T(k), a), T(k)
        if x < 0.92:
            b, tb = self.ie(d - 1)
            return Cond(self.cond(0), a, b), uac(tg, ta, tb)
        if x < 0.95: return Un(r.choice(['~', '!']), a), promote(ta) if False else self.unt(a, ta)
        if self.funcs and r.random() < self.calls * 8:
            return self.call()
        return a, ta
    def unt(self, a, ta): return promote(ta)
    def fe(self, d):
        r = self.r
        if d <= 0 or not self.flos():
            if self.flos() and r.random() < 0.7:
                v, t = r.choice(self.flos()); return V(v), t
            if r.random() < 0.5:
                k = r.choice('fd'); return Flt(r.choice([0.5, 1.0, -2.0, 3.25, 0.0, 100.0]), T(k)), T(k)
            k = r.choice('fd'); return Cast(T(k), self.leaf()[0]), T(k)
        a, ta = self.fe(d - 1); b, tb = self.fe(d - 1 if r.random() < 0.5 else 0)
        if r.random() < 0.1: return Cond(self.cond(0), a, b), uac(self.p.tg, ta, tb)
        if r.random() < 0.08: return Un('-', a), ta
        return Bin(r.choice(['+', '-', '*', '+']), a, b), uac(self.p.tg, ta, tb)
    def cond(self, d):
        r = self.r
        x = r.random()
        if self.flo and self.flos() and x < 0.2: return Bin(r.choice(REL), self.fe(min(d, 1))[0], self.fe(0)[0])
        if d > 0 and x < 0.35: return Land(self.cond(d - 1), self.cond(d - 1))
        if d > 0 and x < 0.5: return Lor(self.cond(d - 1), self.cond(d - 1))
        if d > 0 and x < 0.55: return Un('!', self.cond(d - 1))
        if x < 0.65: return Bin('&', self.ie(d)[0], Num(r.choice([1, 2, 3, 4, 7])))
        return Bin(r.choice(REL), self.ie(d)[0], self.ie(0)[0])
    def call(self):
        r = self.r
        f, (rt, ps) = r.choice(list(self.funcs.items()))
        args = []
        for t in ps:
            args.append(self.fe(1)[0] if is_float(t) else self.ie(r.choice([0, 0, 1, 2]))[0])
        return Call(f, args), rt
    def expr(self, t, d):
        if is_float(t): return self.fe(min(d, 3))[0]
        return self.ie(d)[0]
    def writable(self): return [(v, t) for v, t in self.vars if v not in self.frozen and t['k'] != 'p']
    def assign(self):
        r = self.r
        v, t = r.choice(self.writable())
        x = r.random()
        if x < 0.45: return [E(Asg(V(v), self.expr(t, r.choice([0, 1, 1, 2, 2, 3, 4]))))]
        if x < 0.55 and is_int(t) and t['k'] in UK + ['us', 'uc']: return [E(Inc(r.choice('+-'), r.random() < 0.5, V(v)))]
        if x < 0.70 and is_int(t):
            op = r.choice(['^', '|', '&'])
            return [E(OpAsg(op, V(v), self.ie(r.choice([0, 1, 2]))[0]))]
        if x < 0.76 and t['k'] in UK:
            return [E(OpAsg(r.choice(['+', '-', '*']), V(v), Cast(t, self.ie(2)[0])))]
        if x < 0.90:      # rotation of values of one type
            same = [w for w, u in self.writable() if u['k'] == t['k']]
            r.shuffle(same)
            same = same[:r.randint(2, 6)]
            if len(same) >= 2:
                tmp = self.nm('t')
                s = [Decl(tmp, t, IE(V(same[0])))] + [E(Asg(V(same[i]), V(same[i + 1]))) for i in range(len(same) - 1)] + [E(Asg(V(same[-1]), V(tmp)))]
                return [Block(*s)]
        if x < 0.94:      # chained
            w, u = r.choice(self.writable())
            if w != v and not (is_int(t) and is_float(u)): return [E(Asg(V(v), Asg(V(w), self.expr(u, 1))))]
        if self.ptrs() and x < 0.97:
            q, qt = r.choice(self.ptrs())
            return [E(Asg(Deref(V(q)), self.expr(qt['to'], 1)))]
        if self.funcs: 
            c, ct = self.call()
            if not (is_int(t) and is_float(ct)): return [E(Asg(V(v), c))]
        return [E(Asg(V(v), self.expr(t, 2)))]
    def show(self, n=1):
        v = self.r.sample(self.vars, min(n, len(self.vars)))
        return [PrT(V(w) if t['k'] != 'p' else Deref(V(w)), t if t['k'] != 'p' else t['to']) for w, t in v]
    def stmts(self, d, n, loop=False):
        out = []
        for _ in range(n): out += self.stmt(d, loop)
        return out
    def stmt(self, d, loop=False):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.5: return self.assign()
        if x < 0.54: return self.show()
        if x < 0.72:
            return [If(self.cond(1), Block(*self.stmts(d - 1, r.randint(1, 3), loop)), Block(*self.stmts(d - 1, r.randint(1, 3), loop)) if r.random() < 0.5 else None)]
        if x < 0.76 and loop: return [If(self.cond(1), r.choice([BRK, CONT]))]
        if x < 0.78: return [If(Bin('==', Bin('&', self.ie(1)[0], Num(15)), Num(3)), Ret(Num(0)))]
        if x < 0.84:
            vs = r.sample(range(0, 8), r.randint(2, 5))
            items = []
            for v in vs:
                st = self.stmts(d - 1, 1, False)
                items.append(CaseS(v, st[0])); items += st[1:]
                if r.random() < 0.6: items.append(BRK)
            if r.random() < 0.6: items.append(DefaultS(self.assign()[0]))
            return [Switch(Bin('&', self.ie(1)[0], Num(7)), Block(*items))]
        return self.loop(d)
    def loop(self, d, bare=None):
        """bare: (counter) an existing unsigned variable that only this loop decrements"""
        r = self.r
        c = bare or self.nm('n')
        body = self.stmts(d - 1, r.randint(1, 5), True)
        dec = Bin('!=', Inc('-', r.random() < 0.5 if False else True, V(c)), Num(0))
        k = r.choice(['do', 'while', 'for'])
        lim = r.randint(1, 2 + max(0, 3 - d) if d < 2 else 3)
        if k == 'do': l = [Do(Block(*body), dec)]
        elif k == 'while': l = [While(dec, Block(*body))]
        else: l = [For(None, Bin('>', V(c), Num(0)), Inc('-', True, V(c)), Block(*body))]
        if bare: return l
        return [Block(Decl(c, T('u'), IE(Num(lim))), *l)]

KS = ['i', 'u', 'ull', 'll', 'i', 'u', 'ul', 'us', 's', 'uc', 'c', 'i']

def val(r, tg, t):
    if is_float(t): return Flt(r.choice([0.0, 1.0, -1.5, 2.25, 100.0, 0.5]), t)
    return Num(rand_int(r, tg, t['k']), t)

def pressure(r, tg, nf=2, big=False):
    p = Prog(tg); p.meta['key'] = 'pressure'
    small = {}
    p.glob('gi', INT, IE(Num(5))); p.glob('gu', T('us'), IE(Num(77)))
    for i in range(2):
        rt = T(r.choice(['i', 'u', 'll', 'uc', 's']))
        ps = [T(r.choice(KS)) for _ in range(r.randint(1, 4))]
        g = Reg(r, p, [(f'a{j}', t) for j, t in enumerate(ps)], {}, flo=False)
        q = r.choice(['', 'static ', 'static inline ', 'static inline '])
        body = g.stmts(1, r.randint(0, 3))
        p.func(f'h{i}', rt, [(f'a{j}', t) for j, t in enumerate(ps)], Block(*body, Ret(g.ie(2)[0])), q=q.strip())
        small[f'h{i}'] = (rt, ps)
    for i in range(nf):
        nfl = r.choice([0, 0, 3, 8, 20 if big else 12])
        nin = r.randint(4, 30 if big else 18)
        ks = [T(r.choice(KS)) for _ in range(nin)] + [T(r.choice('fd')) for _ in range(nfl)]
        r.shuffle(ks)
        npar = r.randint(1, min(10, len(ks)))
        vs = [(f'v{j}', t) for j, t in enumerate(ks)]
        g = Reg(r, p, vs, small)
        body = []
        pre = Reg(r, p, vs[:npar], small)
        if not pre.ints(): pre.vars.append(('gi', INT))
        for v, t in vs[npar:]:
            body.append(Decl(v, t, IE(pre.expr(t, 2))))
            pre.vars.append((v, t))
        for nm, gt in (('gi', INT), ('gu', T('us'))):
            if r.random() < 0.4:
                body.append(Decl('p' + nm, P(gt), IE(Addr(V(nm))))); g.vars.append(('p' + nm, P(gt)))
        if r.random() < 0.3:
            v, t = r.choice(vs)
            body.append(Decl('pv', P(t), IE(Addr(V(v))))); g.vars.append(('pv', P(t)))
        body += g.stmts(r.choice([1, 2, 3]), r.randint(4, 10))
        # everything is live to the end
        if r.random() < 0.5:
            e = None
            for v, t in g.ints():
                x = Cast(T('ull'), V(v))
                e = x if e is None else Bin(r.choice(['^', '+', '*']), x, e) if r.random() < 0.6 else Bin('+', Bin('*', e, Num(3)), x)
            body.append(Pr(e))
        body += g.show(99)
        body.append(Ret(Num(1)))
        ps = vs[:npar]
        p.func(f'f{i}', INT, ps, Block(*body))
        for _ in range(2): p.main.append(Pr(Call(f'f{i}', [val(r, tg, t) for v, t in ps])))
        p.main.append(Pr(V('gi')))
    return p

def headloop(r, tg, nf=3):
    """the loop is the very first thing of the function; parameters are the loop variables and are permuted"""
    p = Prog(tg); p.meta['key'] = 'headloop'
    for i in range(nf):
        k = r.choice(['i', 'u', 'ull', 'uc', 's', 'd', 'f', 'll'])
        n = r.randint(2, 6)
        vs = [(f'v{j}', T(k)) for j in range(n)] + ([('w', T(r.choice(['u', 'us', 'ull'])))] if r.random() < 0.6 else [])
        if not any(is_int(t) for v, t in vs): vs.append(('w', T('u')))
        g = Reg(r, p, vs, {})
        body = []
        # parallel assignment through temporaries: a random permutation of the loop variables, possibly with new values
        m = r.randint(1, 3)
        for _ in range(m):
            perm = list(range(n)); r.shuffle(perm)
            if r.random() < 0.5: perm = [r.randrange(n) for _ in range(n)]
            s = [Decl(f't{j}', T(k), IE(V(f'v{perm[j]}'))) for j in range(n)]
            order = list(range(n)); r.shuffle(order)
            s += [E(Asg(V(f'v{j}'), V(f't{j}'))) for j in order]
            blk = Block(*s)
            body.append(blk if r.random() < 0.7 else If(g.cond(0), blk, Block(*g.assign()) if r.random() < 0.5 else None))
        if r.random() < 0.5: body += g.stmts(1, r.randint(1, 3), True)
        if r.random() < 0.4: body += g.show(2)
        dec = Bin('!=', Inc('-', True, V('n')), Num(0))
        kind = r.choice(['do', 'while', 'forever'])
        l = Do(Block(*body), dec) if kind == 'do' else While(dec, Block(*body)) if kind == 'while' else For(None, None, None, Block(If(Un('!', dec), BRK), *body))
        tail = g.show(99)
        ps = vs + [('n', T('u'))]
        if r.random() < 0.3: ps = [ps[-1]] + ps[:-1]
        two = [] if r.random() < 0.7 else [While(Bin('<', Inc('+', False, V('n')), Num(3)), Block(*g.assign()))]
        if two: two = [E(Asg(V('n'), Num(0)))] + two + g.show(99)
        p.func(f'f{i}', INT, ps, Block(l, *tail, *two, Ret(Num(7))))
        for cnt in r.sample([1, 2, 3, 4, 5, 7, 11], 3):
            p.main.append(Pr(Call(f'f{i}', [Num(cnt) if v == 'n' else val(r, tg, t) for v, t in ps])))
    return p

def constflow(r, tg, nf=3):
    """constants and copies flowing through branches and joins, dead code, conditions that fold"""
    p = Prog(tg); p.meta['key'] = 'constflow'
    for i in range(nf):
        ks = [T(r.choice(KS)) for _ in range(5)]
        vs = [(f'v{j}', t) for j, t in enumerate(ks)]
        g = Reg(r, p, [('a', INT), ('b', T('u'))] + vs, {}, flo=False)
        body = [Decl(v, t, IE(val(r, tg, t))) for v, t in vs]
        for _ in range(r.randint(5, 12)):
            x = r.random()
            v, t = r.choice(vs)
            w, u = r.choice(vs)
            if x < 0.2: body.append(E(Asg(V(v), val(r, tg, t))))
            elif x < 0.35: body.append(E(Asg(V(v), V(w))))
            elif x < 0.5: body.append(If(g.cond(0), E(Asg(V(v), val(r, tg, t))), E(Asg(V(v), val(r, tg, t) if r.random() < 0.6 else V(w)))))
            elif x < 0.6: body.append(If(Num(r.choice([0, 1])), Block(*g.stmts(1, 2)), Block(*g.stmts(1, 1))))
            elif x < 0.7: body.append(Block(Decl('z', T('u'), IE(Num(r.randint(0, 3)))), While(Bin('>', V('z'), Num(0)), Block(E(Inc('-', True, V('z'))), E(Asg(V(v), V(w))), *g.assign()))))
            elif x < 0.8: body.append(E(Asg(V(v), Bin(r.choice(['+', '-', '*', '&', '|', '^']), Cast(T('ull'), V(w)), val(r, tg, T(r.choice(['i', 'ull', 'c'])))))))
            else: body += g.stmt(2)
        body += g.show(99)
        p.func(f'f{i}', INT, [('a', INT), ('b', T('u'))], Block(*body, Ret(Num(3))))
        for _ in range(3): p.main.append(Pr(Call(f'f{i}', [Num(r.choice([0, 1, -1, 5, 100])), Num(r.choice([0, 1, 7, 300]), T('u'))])))
    return p

def deep(r, tg):
    """expression trees deeper than the register file, with divisions, shifts and calls inside"""
    p = Prog(tg); p.meta['key'] = 'deep'
    p.func('id', T('ull'), [('x', T('ull'))], Block(Ret(V('x'))))
    p.func('mix', T('u'), [('a', T('u')), ('b', T('uc')), ('c', T('ull')), ('d', T('us'))], Block(Ret(Bin('^', Bin('+', V('a'), V('b')), Bin('*', V('c'), V('d'))))))
    p.func('fd', T('d'), [('x', T('d')), ('y', T('f'))], Block(Ret(Bin('-', V('x'), V('y')))))
    vs = [(f'v{j}', T(r.choice(KS))) for j in range(8)]
    for v, t in vs: p.main.append(Decl(v, t, IE(val(r, tg, t))))
    fv = [(f'x{j}', T(r.choice('fd'))) for j in range(4)]
    for v, t in fv: p.main.append(Decl(v, t, IE(val(r, tg, t))))
    g = Reg(r, p, vs + fv, {'id': (T('ull'), [T('ull')]), 'mix': (T('u'), [T('u'), T('uc'), T('ull'), T('us')])}, calls=0.3)
    for _ in range(5):
        n = r.randint(8, 26)
        def bal(n):
            if n <= 1:
                e = g.ie(r.choice([0, 0, 1, 2]))[0]
                return Cast(T('ull'), e)
            k = r.choice([1, n - 1, n // 2, n // 2])
            op = r.choice(['+', '-', '*', '^', '&', '|', '/', '%', '>>', '<<'])
            a, b = bal(max(1, k)), bal(max(1, n - k))
            if op in '/%': b = Bin('|', b, Num(1))
            if op in ('<<', '>>'): b = Bin('&', b, Num(31))
            return Bin(op, a, b)
        p.main.append(Pr(bal(n)))
        def fbal(n):
            if n <= 1: return g.fe(0)[0]
            k = r.choice([1, n - 1, n // 2, n // 2])
            if r.random() < 0.07: return Call('fd', [fbal(k), fbal(n - k)])
            return Bin(r.choice('+-*'), fbal(max(1, k)), fbal(max(1, n - k)))
        p.main.append(Pr(Cast(T('d'), fbal(r.randint(6, 24))), 'd'))
        p.main += g.assign()
    return p

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 15
    names = ['x64-ssa', 'x64', 'x64-O']
    for rnd in range(m):
        ps = [pressure(r, 'x64', 2, i % 3 == 0) for i in range(40)] + [headloop(r, 'x64') for _ in range(40)] + [constflow(r, 'x64') for _ in range(25)] + [deep(r, 'x64') for _ in range(20)]
        ps += [c03.nest_prog(r, 'x64', 3, 4, 3) for _ in range(10)]
        creplay.replay(chk, ps, creplay.targets(b, names), 'opt')
        chk.log(f'{rnd + 1}/{m}')
        if chk.viol: break
