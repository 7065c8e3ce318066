"""Random structured statements (control flow) shared by C03, C08 and C22."""
from cast import *
from gens import *

class StmtGen:
    """Bodies over int locals a b c and unsigned globals; every loop is bounded by its own counter."""
    def __init__(self, r, tg, goto=True, vla=True, helper='tr', swin=True):
        self.r, self.tg, self.goto, self.vla, self.swin = r, tg, goto, vla, swin
        self.n = 0
        self.helper = helper
        self.vars = []
    def nm(self, p):
        self.n += 1
        return f'{p}{self.n}'
    def mark(self):
        self.n += 1
        return self.n
    def val(self):
        r = self.r
        x = r.random()
        if x < 0.55: return V(r.choice(self.vars))
        if x < 0.75: return Num(r.randint(-3, 9))
        return Bin(r.choice(['+', '-', '^', '&', '|']), V(r.choice(self.vars)), Num(r.randint(0, 7)))
    def cond(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.35: return Bin(r.choice(REL), self.val(), self.val())
        if x < 0.45: return Call(self.helper, [Num(self.mark()), self.val()])
        if x < 0.55: return Un('!', self.cond(d - 1))
        if x < 0.70: return Land(self.cond(d - 1), self.cond(d - 1))
        if x < 0.85: return Lor(self.cond(d - 1), self.cond(d - 1))
        if x < 0.90: return Comma(Call(self.helper, [Num(self.mark()), Num(0)]), self.cond(d - 1))
        if x < 0.95: return Cond(self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        return Bin('&', V(r.choice(self.vars)), Num(r.choice([1, 2, 3, 4])))
    def effect(self):
        r = self.r
        v = V(r.choice(self.vars))
        x = r.random()
        if x < 0.35: return E(Asg(v, Bin('&', Bin('+', Bin('*', Cast(T('u'), v), Num(r.choice([3, 5, 7]))), Num(r.randint(0, 9))), Num(15))))
        if x < 0.45: return E(Inc(r.choice('+-'), r.random() < 0.5, v))
        if x < 0.55: return E(OpAsg('^', v, Num(r.randint(0, 7))))
        if x < 0.65: return E(Asg(v, Cond(self.cond(1), self.val(), self.val())))
        if x < 0.72: return E(Land(self.cond(1), Call(self.helper, [Num(self.mark()), v])))
        if x < 0.79: return E(Lor(self.cond(1), Call(self.helper, [Num(self.mark()), v])))
        return Pr(Bin('+', Bin('*', V(r.choice(self.vars)), Num(100)), Num(self.mark())))
    def block(self, d, n, **k):
        r = self.r
        out = []
        saved = list(self.vars)
        if r.random() < 0.35:
            nv = r.choice(['a', 'b']) if r.random() < 0.4 else self.nm('w')
            # initializers never mention the variable itself
            out.append(Decl(nv, INT, IE(Num(r.randint(0, 9)))))
            if nv not in self.vars: self.vars.append(nv)
        if self.vla and not k.get('nolab_out') and r.random() < 0.08:
            z = self.nm('z')
            out += [Decl(z + 'n', INT, IE(Num(r.randint(1, 6)))), Vla(z, INT, V(z + 'n')),
                    E(Asg(Idx(V(z), Bin('-', V(z + 'n'), Num(1))), self.val())), Pr(Idx(V(z), Bin('-', V(z + 'n'), Num(1)))), Pr(SzE(V(z)))]
            k = dict(k, nolab=True)
        for _ in range(n): out.append(self.stmt(d, **k))
        if out and out[-1]['k'] == 'decl': out.append(EMPTY)
        self.vars = saved
        return Block(*out)
    def stmt(self, d, inloop=False, insw=False, nolab=False):
        r = self.r
        k = dict(inloop=inloop, insw=insw, nolab=nolab)
        x = r.random()
        if d <= 0 or x < 0.22: s = self.effect()
        elif x < 0.40:
            s = If(self.cond(), self.body(d - 1, **k), self.body(d - 1, **k) if r.random() < 0.55 else None)
        elif x < 0.47: s = self.block(d - 1, r.randint(1, 3), **k)
        elif x < 0.57: s = self.loop(d, 'while', nolab)
        elif x < 0.64: s = self.loop(d, 'do', nolab)
        elif x < 0.75: s = self.loop(d, 'for', nolab)
        elif x < 0.85: s = self.switch(d - 1, inloop, nolab)
        elif x < 0.90 and (inloop or insw): s = If(self.cond(1), BRK) if r.random() < 0.8 else BRK
        elif x < 0.94 and inloop: s = If(self.cond(1), CONT) if r.random() < 0.8 else CONT
        elif x < 0.955: s = If(self.cond(1), Ret(self.val()))
        elif self.goto and x < 0.99 and not nolab: s = self.gotos(d - 1, k)
        else: s = self.effect()
        return s
    def body(self, d, **k):
        return self.block(d, self.r.randint(1, 3), **k) if self.r.random() < 0.7 else self.stmt(d, **k)
    def loop(self, d, kind, nolab):
        r = self.r
        c = self.nm('n')
        lim = r.randint(0, 4)
        guard = Bin('<', Inc('+', False, V(c)), Num(lim))
        cond = Land(guard, self.cond(1)) if r.random() < 0.4 else Lor(Bin('&', Num(0), V(c)), guard) if r.random() < 0.1 else guard
        k = dict(inloop=True, insw=False, nolab=nolab)
        if kind == 'for':
            v = self.nm('i')
            # counter in the loop itself
            step = r.choice([Inc('+', True, V(v)), Inc('+', False, V(v)), OpAsg('+', V(v), Num(1)), Asg(V(v), Bin('+', V(v), Num(1)))])
            self.vars.append(v)
            c2 = Bin('<', V(v), Num(lim))
            if r.random() < 0.3: c2 = Land(c2, self.cond(1))
            b = self.body(d - 1, **k)
            self.vars.remove(v)
            if r.random() < 0.65:
                # the variable may be changed by the body: a separate bound
                return Block(Decl(c, INT, IE(Num(0))), For(Decl(v, INT, IE(Num(0))), Land(Bin('<', Inc('+', False, V(c)), Num(6)), c2), step, b))
            return Block(Decl(c, INT, IE(Num(0))), Decl(v, INT, IE(Num(0))),
                         For(None, None, step if r.random() < 0.6 else None,
                             Block(If(Bin('>', Inc('+', True, V(c)), Num(lim)), BRK), b)))
        b = self.body(d - 1, **k)
        if kind == 'while': return Block(Decl(c, INT, IE(Num(0))), While(cond, b))
        return Block(Decl(c, INT, IE(Num(0))), Do(b, cond))
    def cases(self, k):
        """distinct case values for controlling type k"""
        r = self.r
        pk = promote(T(k))['k']
        lo, hi = irange(self.tg, pk)
        klo, khi = irange(self.tg, k)
        vs = set()
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            base = r.choice([0, 1, -2, 3, 10, 100, -50, 1000, khi, klo, khi - 3, klo + 3, 1 << 31, (1 << 32) + 1, -(1 << 31), 1 << 40, (1 << 63) - 2, (1 << 32) - 1, 255, 127, -128])
            n = r.choice([1, 2, 3, 5, 8, 12, 20])
            if x < 0.6: vs |= {base + i for i in range(n)}
            elif x < 0.8: vs |= {base + i * r.choice([2, 3, 7]) for i in range(n)}
            else: vs |= {rand_int(r, self.tg, pk) for i in range(n)}
        vs = [v for v in vs if lo <= v <= hi][:24]
        r.shuffle(vs)
        return vs or [0]
    def switch(self, d, inloop, nolab):
        r = self.r
        k = dict(inloop=inloop, insw=True, nolab=nolab)
        vs = r.sample(range(-3, 12), r.randint(1, 7))
        items = []
        dpos = r.randint(0, len(vs) * 2)
        for i, v in enumerate(vs):
            if i == dpos: items.append(DefaultS(self.effect()))
            items.append(CaseS(v, self.stmt(d, **k)))
            for _ in range(r.randint(0, 2)): items.append(self.stmt(d - 1, **k))
            if r.random() < 0.5: items.append(BRK)
        return Switch(self.val(), Block(*items))
    def gotos(self, d, k):
        r = self.r
        l = self.nm('lab')
        c = self.nm('g')
        x = r.random()
        if x < 0.4:           # backward, bounded
            return Block(Decl(c, INT, IE(Num(0))), Lab(l, self.effect()), self.stmt(d, **k),
                         If(Bin('<', Inc('+', True, V(c)), Num(r.randint(1, 4))), Goto(l)), self.effect())
        if x < 0.7:           # forward
            return Block(If(self.cond(1), Goto(l)), self.stmt(d, **k), Lab(l, self.effect()))
        if x < 0.85:          # out of nested constructs
            return Block(Decl(c, INT, IE(Num(0))), While(Bin('<', Inc('+', False, V(c)), Num(3)), Block(self.stmt(d, inloop=True, nolab=k['nolab']), If(self.cond(1), Goto(l)), self.effect())),
                         self.effect(), Lab(l, self.effect()))
        # into a loop
        return Block(Decl(c, INT, IE(Num(0))), If(self.cond(1), Goto(l)), self.effect(),
                     While(Bin('<', Inc('+', False, V(c)), Num(3)), Block(self.effect(), Lab(l, self.effect()), self.effect())))
