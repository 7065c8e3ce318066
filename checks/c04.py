"""C04: calls pass arguments and results intact."""
import harness as H
from cast import *
from gens import *
from aggs import Aggs
import creplay

def env(r, tg, interop=False):
    p = Prog(tg)
    a = Aggs(r, p)
    p.glob('ga', A(INT, 6), IL([IE(Num(100 + i)) for i in range(6)]))
    a.ptargets.append(('ga', 6))
    p.glob('cnt', INT, IE(Num(0)))
    return p, a

def sig(r, a, structs, interop):
    """(result type, params, variadic)"""
    def ty():
        if structs and r.random() < 0.25: return r.choice(structs)
        return a.scalar(b=not interop)
    shape = r.random()
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]) if shape < 0.6 else r.randint(7, 20)
    ps = [ty() for _ in range(n)]
    if shape > 0.8:                       # one class dominates
        k = r.choice(['d', 'f', 'i', 'l', 'c', 'mix'])
        ps = [T(k) if k != 'mix' and r.random() < 0.85 else ty() for _ in range(n)]
    res = ty() if r.random() < 0.9 else T('v')
    va = n > 0 and r.random() < 0.2
    return res, ps, va

VA_T = ['i', 'u', 'l', 'ul', 'll', 'ull', 'd', 'p']

class Gen:
    def __init__(self, r, p, a, interop):
        self.r, self.p, self.a, self.interop = r, p, a, interop
        self.sigs = {}
        self.vas = {}
        self.gv = {}
        self.structs = []
        self.tables = {}
    def globals(self):
        a, p = self.a, self.p
        for i, t in enumerate(self.structs):
            p.glob(f'gs{i}', t, a.init(t))
            self.gv[t['id']] = f'gs{i}'
    def arg(self, t, d, cross=0.25, rd=True):
        """an argument expression for a parameter of type t"""
        r, a = self.r, self.a
        if t['k'] == 'st':
            x = r.random()
            cands = [f for f, s in self.sigs.items() if s[0] == t]
            if d > 0 and cands and x < 0.4: return self.call(r.choice(cands), d - 1)
            if x < 0.7: return V(self.gv[t['id']])
            return CL(t, a.init(t))
        x = r.random()
        if d > 0 and x < 0.3:
            cands = [f for f, s in self.sigs.items() if s[0]['k'] == t['k'] or (is_arith(s[0]) and is_arith(t) and not is_float(s[0]))]
            if cands: return self.call(r.choice(cands), d - 1)
        if d > 0 and x < 0.4:
            cands = [f for f, s in self.sigs.items() if s[0]['k'] == 'st' and self.a.members(s[0])[0]['t'] == t]
            if cands:
                f = r.choice(cands)
                return Dot(self.call(f, d - 1), self.a.members(self.sigs[f][0])[0]['n'])
        if x < 0.5 and rd and is_arith(t): return Bin('+', a.value(t, cross), V('cnt')) if x < 0.45 else Cond(V('cnt'), a.value(t), a.value(t))
        return a.value(t, cross)
    def call(self, f, d):
        r = self.r
        res, ps, va = self.sigs[f]
        one = r.randrange(len(ps)) if ps else 0          # the order of evaluation of arguments is unspecified
        args = [self.arg(t, d if j == one else 0, 0.25, j == one) for j, t in enumerate(ps)]
        if va:
            for t in self.vas[f]:
                args.append(self.arg(t, 0, 0, False) if t['k'] != 'i' or r.random() < 0.5 else self.a.value(T(r.choice(['c', 'uc', 's', 'us', 'i', 'b']))))
            # exact types: the callee reads them with va_arg
            n = len(ps)
            args = args[:n] + [Cast(t, e) if t['k'] != 'st' and t['k'] != 'i' and r.random() < 0.7 or (t['k'] in ('p',)) else e for t, e in zip(self.vas[f], args[n:])]
            args = args[:n] + [Cast(t, e) if t['k'] not in ('st',) and e['k'] != 'n' and e['k'] != 'f' else e for t, e in zip(self.vas[f], args[n:])]
            args = args[:n] + [e if e['k'] not in ('n', 'f') or e['t'] == t or (t['k'] == 'i' and is_int(e['t']) and RANK[e['t']['k']] < 3) or (t['k'] == 'd' and e['t']['k'] == 'f') else Cast(t, e) for t, e in zip(self.vas[f], args[n:])]
        x = r.random()
        if x < 0.55: return Call(f, args)
        if x < 0.7: return Call(Deref(V(f)), args)
        if x < 0.8 and f in self.tables: return Call(Idx(V(self.tables[f][0]), Num(self.tables[f][1])), args)
        if f in self.tables: return Call(V('p' + f), args)
        return Call(f, args)
    def func(self, i):
        r, a, p = self.r, self.a, self.p
        n = f'f{i}'
        res, ps, va = sig(r, a, self.structs, self.interop)
        if va and ps[-1]['k'] in ('f', 'c', 'sc', 'uc', 's', 'us', 'b', 'st'): ps[-1] = INT
        names = [f'p{j}' for j in range(len(ps))]
        body = []
        # locals that live across everything below
        live = []
        for j in range(r.randint(0, 4)):
            k = r.choice(['i', 'd', 'll', 'uc', 'f'])
            body.append(Decl(f'v{j}', T(k), IE(a.value(T(k)))))
            live.append((f'v{j}', T(k)))
        order = list(zip(names, ps))
        if r.random() < 0.5: r.shuffle(order)
        cut = r.randint(0, len(order))
        for nm, t in order[:cut]: body += a.show(V(nm), t)
        if self.sigs and r.random() < 0.6:
            f = r.choice(list(self.sigs))
            c = self.call(f, 1)
            rt = self.sigs[f][0]
            if rt['k'] == 'st':
                body.append(Decl('t', rt, IE(c))); body += a.show(V('t'), rt)
            else: body.append(E(c))
        if va:
            self.vas[n] = [r.choice(self.structs) if self.structs and self.p.tg != 'wasm' and r.random() < 0.15 else T(k) if k != 'p' else P(INT) for k in (r.choice(VA_T) for _ in range(r.randint(0, 12)))]
            for t in self.vas[n]:
                body += [Pr(Deref(VaArg(t)))] if False else [Block(Decl('w', t, IE(VaArg(t))), *a.show(V('w'), t))]
        for nm, t in order[cut:]: body += a.show(V(nm), t)
        for nm, t in live: body.append(PrT(V(nm), t))
        # parameters are objects of the callee
        if names and r.random() < 0.4:
            j = r.randrange(len(names))
            if is_arith(ps[j]) : body += [E(Asg(V(names[j]), a.value(ps[j]))), PrT(V(names[j]), ps[j])]
        if r.random() < 0.3: body.append(E(Inc('+', True, V('cnt'))))
        if res['k'] != 'v':
            same = [nm for nm, t in zip(names, ps) if t == res]
            conv = [nm for nm, t in zip(names, ps) if is_int(t) and is_arith(res)]
            if same and r.random() < 0.7: e = V(r.choice(same))
            elif res['k'] == 'st': e = V(self.gv[res['id']]) if r.random() < 0.5 else CL(res, a.init(res))
            elif conv and r.random() < 0.5: e = V(r.choice(conv))
            else: e = a.value(res, 0.2)
            body.append(Ret(e))
        p.func(n, res, list(zip(names, ps)), Block(*body), va)
        self.sigs[n] = (res, ps, va)
        if r.random() < 0.5:
            ft = P(FN(res, ps, va))
            p.glob('p' + n, ft, IE(V(n) if r.random() < 0.5 else Addr(V(n))))
            p.glob('t' + n, A(ft, 2), IL([IE(Num(0)), IE(V(n))]))
            self.tables[n] = ('t' + n, 1)
    def main(self, k):
        r, a, p = self.r, self.a, self.p
        for j in range(k):
            f = r.choice(list(self.sigs))
            res = self.sigs[f][0]
            c = self.call(f, 2)
            if res['k'] == 'v': p.main.append(E(c))
            elif res['k'] == 'st':
                x = r.random()
                if x < 0.5: p.main.append(Block(Decl('t', res, IE(c)), *a.show(V('t'), res)))
                elif x < 0.75: p.main += [E(Asg(V(self.gv[res['id']]), c)), Block(*a.show(V(self.gv[res['id']]), res))]
                else:
                    lv = list(a.leaves(c, res))
                    e, t, w = r.choice(lv)
                    p.main.append(PrT(e, t) if t['k'] != 'p' else Pr(Bin('==', e, Num(0))))
            elif res['k'] == 'p': p.main.append(Block(Decl('t', res, IE(c)), *a.show(V('t'), res)))
            else:
                x = r.random()
                if x < 0.5: p.main.append(PrT(c, res))
                elif x < 0.75:
                    e = Bin('+', Bin('*', V('la'), Num(3)), c) if is_int(res) else Bin('+', V('lf'), Bin('*', c, V('lf')))
                    t = uac(p.tg, res, T('ull') if is_int(res) else T('d'))
                    p.main.append(PrT(e, t))
                else: p.main.append(Block(Decl('x', INT, IE(Num(r.randint(0, 99)))), Decl('y', T('d'), IE(Flt(1.25))), Decl('z', res, IE(c)), Pr(V('x')), PrT(V('y'), T('d')), PrT(V('z'), res)))

def prog(r, tg, interop=False, nf=5, calls=14, structs=True):
    p, a = env(r, tg, interop)
    p.meta['key'] = 'interop' if interop else 'calls'
    g = Gen(r, p, a, interop)
    if not interop and structs:
        for _ in range(r.choice([1, 2, 3])): g.structs.append(a.mkstruct(r.choice([0, 0, 1])))
    g.globals()
    for i in range(nf): g.func(i)
    p.main += [Decl('la', T('ull'), IE(Num(7, T('ull')))), Decl('lf', T('d'), IE(Flt(0.5)))]
    g.main(calls)
    p.meta['units'] = {f: r.randint(0, 1) for f in p.fnames}
    return p

def recur_prog(r, tg):
    """recursion with live values on both sides, mutual recursion, function pointers as arguments and results"""
    p, a = env(r, tg); p.meta['key'] = 'recursion'
    st = a.mkstruct(0, n=r.randint(1, 4), union=False)
    p.func('fib', T('ll'), [('n', INT)], Block(If(Bin('<', V('n'), Num(2)), Ret(V('n'))), Ret(Bin('+', Call('fib', [Bin('-', V('n'), Num(1))]), Call('fib', [Bin('-', V('n'), Num(2))])))))
    p.func('ack', INT, [('m', INT), ('n', INT)], Block(If(Bin('==', V('m'), Num(0)), Ret(Bin('+', V('n'), Num(1)))), If(Bin('==', V('n'), Num(0)), Ret(Call('ack', [Bin('-', V('m'), Num(1)), Num(1)]))), Ret(Call('ack', [Bin('-', V('m'), Num(1)), Call('ack', [V('m'), Bin('-', V('n'), Num(1))])]))))
    k1 = r.choice(['d', 'f'])
    p.func('rd', T(k1), [('n', INT), ('x', T(k1)), ('y', T('d'))], Block(
        If(Bin('<=', V('n'), Num(0)), Ret(Bin('-', V('x'), V('y')))),
        Decl('z', T(k1), IE(Bin('*', V('x'), Flt(0.5, T(k1))))),
        Decl('w', T(k1), IE(Call('rd', [Bin('-', V('n'), Num(1)), V('y'), V('z')]))),
        PrT(V('x'), T(k1)), PrT(V('y'), T('d')), PrT(V('z'), T(k1)), Ret(Bin('+', V('w'), V('z')))))
    p.func('ev', INT, [('n', T('uc'))], Block(If(Bin('==', V('n'), Num(0)), Ret(Num(1))), Ret(Call('od', [Bin('-', V('n'), Num(1))]))))
    p.func('od', INT, [('n', T('s'))], Block(If(Bin('==', V('n'), Num(0)), Ret(Num(0))), Ret(Call('ev', [Bin('-', V('n'), Num(1))]))))
    bt = FN(INT, [INT, INT])
    p.func('add', INT, [('a', INT), ('b', INT)], Block(Ret(Bin('+', V('a'), V('b')))))
    p.func('sub', INT, [('a', INT), ('b', INT)], Block(Ret(Bin('-', V('a'), V('b')))))
    p.func('app', INT, [('f', P(bt)), ('a', INT), ('n', INT)], Block(While(Bin('>', Inc('-', False, V('n')), Num(0)), E(Asg(V('a'), Call(V('f'), [V('a'), V('n')])))), Ret(V('a'))))
    p.func('pick', P(bt), [('c', INT)], Block(Ret(Cond(V('c'), V('add'), V('sub')))))
    # struct threaded through recursion
    m = [(x['n'], x['t']) for x in a.members(st) if is_int(x['t'])]
    upd = E(OpAsg('^', Dot(V('s'), m[0][0]), V('n'))) if m else EMPTY
    p.func('rs', st, [('s', st), ('n', INT)], Block(If(Bin('<=', V('n'), Num(0)), Ret(V('s'))), upd, Decl('t', st, IE(Call('rs', [V('s'), Bin('-', V('n'), Num(1))]))), *a.show(V('s'), st), Ret(V('t'))))
    p.glob('g', st, a.init(st))
    p.main += [Pr(Call('fib', [Num(r.randint(5, 9))])), Pr(Call('ack', [Num(2), Num(r.randint(1, 2))])),
               PrT(Call('rd', [Num(r.randint(2, 5)), Flt(r.choice([8.0, 100.0, 3.5]), T(k1)), Flt(r.choice([1.0, 6.25]))]), T(k1)),
               Pr(Call('ev', [Num(r.randint(3, 9))])), Pr(Call('od', [Num(r.randint(3, 9))]))]
    for c in (0, 1):
        p.main += [Pr(Call('app', [Call('pick', [Num(c)]), Num(r.randint(-9, 99)), Num(r.randint(0, 5))])),
                   Pr(Call(Call('pick', [Num(c)]), [Num(r.randint(-9, 99)), Call(Call('pick', [Num(1 - c)]), [Num(40), Num(r.randint(0, 50))])]))]
    p.main.append(Block(Decl('t', st, IE(Call('rs', [V('g'), Num(r.randint(1, 4))]))), *a.show(V('t'), st), *a.show(V('g'), st)))
    p.meta['units'] = {f: r.randint(0, 1) for f in p.fnames}
    return p

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 15
    for rnd in range(m):
        ps = [prog(r, 'x64') for _ in range(110)] + [recur_prog(r, 'x64') for _ in range(10)]
        creplay.replay(chk, ps, creplay.targets(b, ['x64', 'x64-ssa', 'xcc+xcc']), 'calls')
        chk.log(f'calls {rnd + 1}/{m}')
        ps = [prog(r, 'x64', interop=True) for _ in range(60)]
        creplay.replay(chk, ps, creplay.targets(b, ['xcc+gcc', 'gcc+xcc']), 'interop')
        chk.log(f'interop {rnd + 1}/{m}')
        if chk.viol: break
