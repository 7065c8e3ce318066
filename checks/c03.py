"""C03: control flow and sequencing."""
import harness as H
from cast import *
from gens import *
from stmts import StmtGen
import creplay

def helper(p):
    p.func('tr', INT, [('k', INT), ('v', INT)], Block(Pr(Bin('+', Bin('*', V('k'), Num(1000)), Bin('&', V('v'), Num(255)))), Ret(V('v'))))

def nest_prog(r, tg, nf, calls, depth, **k):
    p = Prog(tg); p.meta['key'] = 'nest'
    helper(p)
    for i in range(nf):
        g = StmtGen(r, tg, **k)
        g.vars = ['a', 'b', 'c']
        body = [Decl('c', INT, IE(Num(r.randint(0, 5))))]
        for _ in range(r.randint(2, 4)): body.append(g.stmt(depth))
        body.append(Ret(Bin('^', V('a'), Bin('*', Bin('&', V('c'), Num(255)), Num(3)))))
        p.func(f'f{i}', INT, [('a', INT), ('b', INT)], Block(*body))
        for _ in range(calls):
            p.main.append(Pr(Call(f'f{i}', [Num(r.randint(-2, 9)), Num(r.randint(-2, 9))])))
    return p

def switch_prog(r, tg, k, n):
    """switch on controlling type k: dense, sparse, extreme; fall through; probe around every label"""
    p = Prog(tg); p.meta['key'] = f'switch {k}'
    g = StmtGen(r, tg)
    lo, hi = irange(tg, k)
    for j in range(n):
        vs = g.cases(k)
        items = []
        dflt = r.randint(0, len(vs) + 2)
        for i, v in enumerate(vs):
            if i == dflt: items += [DefaultS(E(OpAsg('+', V('r'), Num(5000)))), BRK] if r.random() < 0.7 else [DefaultS(E(OpAsg('+', V('r'), Num(5000))))]
            items.append(CaseS(v, E(OpAsg('+', V('r'), Num(i + 1)))))
            if r.random() < 0.7: items.append(BRK)
            elif r.random() < 0.4: items.append(Ret(Bin('+', V('r'), Num(20000))))
        if dflt == len(vs): items.append(DefaultS(E(OpAsg('+', V('r'), Num(7000)))))
        p.func(f's{j}', INT, [('x', T(k))], Block(Decl('r', INT, IE(Num(0))), Switch(V('x'), Block(*items)), Ret(V('r'))))
        probes = set()
        for v in vs:
            probes |= {v, v + 1, v - 1}
        probes |= {v + (1 << 32) for v in vs} | {v - (1 << 32) for v in vs} | {v + (1 << 8) for v in vs} | {lo, hi, 0, -1}
        probes = [v for v in probes if lo <= v <= hi]
        r.shuffle(probes)
        keep = [v for v in vs if lo <= v <= hi]
        for v in sorted(set(keep[:12] + probes[:14])):
            p.main.append(Pr(Call(f's{j}', [Num(v, T(k))])))
    return p

def duff_prog(r, tg):
    """cases inside loops and nested switches"""
    p = Prog(tg); p.meta['key'] = 'duff'
    helper(p)
    n = r.randint(2, 8)
    vs = list(range(n)); r.shuffle(vs)
    loopbody = []
    for v in vs: loopbody.append(CaseS(v, E(Call('tr', [Num(v), V('k')]))))
    k = r.choice(['do', 'while', 'for'])
    b = Block(*loopbody)
    cnd = Bin('>', Inc('-', True, V('k')), Num(0))
    lp = Do(b, cnd) if k == 'do' else While(cnd, b) if k == 'while' else For(None, cnd, Call('tr', [Num(77), V('k')]) if r.random() < 0.5 else None, b)
    p.func('f', INT, [('k', INT), ('x', INT)], Block(Switch(V('x'), lp), Ret(V('k'))))
    inner = Switch(V('y'), Block(CaseS(1, E(Call('tr', [Num(1), V('y')]))), BRK, DefaultS(E(Call('tr', [Num(2), V('y')])))))
    p.func('h', INT, [('x', INT), ('y', INT)],
           Block(While(Num(1), Block(Switch(V('x'), Block(CaseS(0, inner), CaseS(1, E(Call('tr', [Num(3), V('y')]))), BRK, CaseS(2, CONT if False else E(Inc('-', False, V('x')))), CaseS(3, Block(E(Inc('+', False, V('y'))), BRK)), DefaultS(Ret(V('y'))))),
                                     If(Bin('>', Inc('+', True, V('y')), Num(3)), BRK), E(Inc('+', False, V('x'))))), Ret(Num(-1))))
    for x in range(-1, n + 1): p.main.append(Pr(Call('f', [Num(r.randint(1, 4)), Num(x)])))
    for x in range(5):
        for y in range(3): p.main.append(Pr(Call('h', [Num(x), Num(y)])))
    return p

def expr_prog(r, tg, n):
    """sequencing inside expressions: logical, conditional, comma; nested in arguments, subscripts, conditions"""
    p = Prog(tg); p.meta['key'] = 'seq'
    helper(p)
    p.func('td', T('d'), [('k', INT), ('v', T('d'))], Block(Pr(V('k')), Ret(V('v'))))
    p.func('tp', P(INT), [('k', INT), ('v', P(INT))], Block(Pr(V('k')), Ret(V('v'))))
    p.func('add', INT, [('a', INT), ('b', INT), ('c', INT)], Block(Ret(Bin('+', V('a'), Bin('-', V('b'), V('c'))))))
    p.glob('ga', A(INT, 8), IL([IE(Num(i * 3)) for i in range(8)]))
    p.main += [Decl('a', INT, IE(Num(1))), Decl('b', INT, IE(Num(0))), Decl('q', P(INT), IE(V('ga'))), Decl('z', P(INT), IE(Num(0))), Decl('d', T('d'), IE(Flt(0.0)))]
    cnt = [0]
    def ex(d):
        cnt[0] += 1
        m = Num(cnt[0] % 1000)
        if d <= 0:
            return r.choice([Num(r.randint(0, 3)), V('a'), V('b'), Call('tr', [m, Num(r.randint(0, 2))]), Call('tr', [m, V('a')])])
        x = r.random()
        if x < 0.2: return Land(ex(d - 1), ex(d - 1))
        if x < 0.4: return Lor(ex(d - 1), ex(d - 1))
        if x < 0.52: return Cond(ex(d - 1), ex(d - 1), ex(d - 1))
        if x < 0.62: return Comma(ex(d - 1), ex(d - 1))
        if x < 0.70: return Un('!', ex(d - 1))
        if x < 0.78: return Bin(r.choice(['+', '-', '&', '<', '==', '!=', '>=']), ex(d - 1), r.choice([Num(1), V('a'), V('b'), Num(2)]))
        if x < 0.84: return Bin('!=', Call('td', [m, Flt(r.choice([0.0, 1.5]))]), Flt(0.0))
        if x < 0.90: return Land(Call('tp', [m, V(r.choice('qz'))]), ex(d - 1))
        if x < 0.95: return Idx(V('ga'), Bin('&', ex(d - 1), Num(7)))
        return Call('add', [ex(d - 1), Num(r.randint(0, 5)), V('a')])
    for _ in range(n):
        x = r.random()
        e = ex(r.randint(1, 4))
        if x < 0.35: p.main.append(Pr(e))
        elif x < 0.5: p.main.append(E(e))
        elif x < 0.7: p.main.append(If(e, Pr(Num(-1)), Pr(Num(-2))))
        elif x < 0.8: p.main.append(E(Asg(V(r.choice('ab')), Bin('&', e, Num(3)))))
        elif x < 0.9: p.main.append(Switch(Bin('&', e, Num(3)), Block(CaseS(0, Pr(Num(10))), CaseS(2, Pr(Num(12))), BRK, DefaultS(Pr(Num(11))))))
        else: p.main.append(Block(Decl('i', INT, IE(Num(0))), For(None, Land(Bin('<', Inc('+', False, V('i')), Num(3)), e), None, Pr(V('i')))))
    return p

def programs(r, tg, q, **k):
    ps = []
    m = 1 if q else 12
    for _ in range(40 * m): ps.append(nest_prog(r, tg, 4, 5, r.choice([2, 3, 3, 4]), **k))
    for kk in ['i', 'u', 'l', 'ul', 'll', 'ull', 'c', 'uc', 's', 'us', 'i', 'ull']:
        for _ in range(2 * m): ps.append(switch_prog(r, tg, kk, 3))
    if k.get('goto', True):
        for _ in range(6 * m): ps.append(duff_prog(r, tg))
    for _ in range(10 * m): ps.append(expr_prog(r, tg, 30))
    return ps

def main(chk):
    b = H.build()
    chk.log('built')
    ps = programs(chk.rng, 'x64', chk.quick())
    for i in range(0, len(ps), 160):
        creplay.replay(chk, ps[i:i + 160], creplay.targets(b, ['x64', 'x64-ssa']), 'flow')
        chk.log(f'{min(i+160, len(ps))}/{len(ps)} programs')
        if chk.viol: break
