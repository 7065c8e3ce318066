"""C25: expressions and declarators have the type C prescribes (spec/CTyping.tla)."""
import json, os
import harness as H
import creplay
from cast import CNAME, RANK

DEV = bool(os.environ.get('VERIF_DEV_TARGETS'))
SC = ['c', 'uc', 's', 'us', 'i', 'u', 'l', 'ul', 'll', 'ull', 'f', 'd'] + ([] if DEV else ['b'])
def B(k, q=0): return {'k': k, 'q': q}
def P(t, q=0): return {'k': 'p', 'q': q, 'to': t}
def A(t, n): return {'k': 'a', 'q': 0, 'of': t, 'n': n}
def FN(r, ps, va=False): return {'k': 'fn', 'q': 0, 'r': r, 'ps': ps, 'va': va}
def S(i, q=0): return {'k': 'st', 'q': q, 'id': i}
def unq(t): return dict(t, q=0)
def key(t): return json.dumps(t, sort_keys=True)
def qual(t, q):
    if not q: return t
    if t['k'] == 'a': return dict(t, of=qual(t['of'], 1))
    return t if t['k'] == 'fn' else dict(t, q=1)
def conv(t): return P(t['of']) if t['k'] == 'a' else P(t) if t['k'] == 'fn' else unq(t)
def norm(t):
    """the adjusted type (used only to choose probes; the verdict's types come from the specification)"""
    if t['k'] == 'p': return dict(t, to=norm(t['to']))
    if t['k'] == 'a':
        e = norm(t['of'])
        return dict(t, of=qual(e, t['q']), q=0)
    if t['k'] == 'fn': return dict(t, q=0, r=unq(norm(t['r'])), ps=[unq(conv(norm(p))) if p['k'] in ('a', 'fn') else unq(norm(p)) for p in t['ps']])
    return t
def isint(t): return t['k'] in RANK
def isar(t): return isint(t) or t['k'] in ('f', 'd')
def composite(t):
    """function and array types nested inside make compatibility subtle; such types are kept out of conditional operators"""
    return t['k'] in ('fn', 'a') or (t['k'] == 'p' and composite(t['to']))

class Decls:
    """prints declarations; styles: redundant parentheses, typedef chains, array-style parameters"""
    def __init__(self, r, structs):
        self.r, self.structs, self.td, self.n = r, structs, [], 0
    def base(self, t):
        c = 'const ' if t['q'] else ''
        if t['k'] == 'st':
            s = ('union' if self.structs[t['id'] - 1]['u'] else 'struct') + f' S{t["id"]}'
        else: s = CNAME[t['k']]
        if t['q'] and self.r.random() < 0.5: return f'{s} const'
        return c + s
    def decl(self, t, name, plain=False, depth=0):
        """declaration text of name with type t"""
        r = self.r
        if not plain and depth < 3 and name and t['k'] in ('p', 'a', 'fn') and r.random() < 0.18:
            self.n += 1
            nm = f'T{self.n}'
            q = t['k'] == 'p' and t['q'] and r.random() < 0.7
            self.td.append('typedef ' + self.decl(unq(t) if q else t, nm, plain, depth + 1) + ';')
            return f'{"const " if q else ""}{nm} {name}'
        if not plain and name and r.random() < 0.08 and not name.startswith('*'): name = f'({name})'
        if t['k'] == 'p':
            s = '*' + ('const ' if t['q'] else '') + name
            if t['to']['k'] in ('a', 'fn'): s = f'({s})'
            elif not plain and name and r.random() < 0.08: s = f'({s})'
            return self.decl(t['to'], s, plain, depth + 1)
        if t['k'] == 'a': return self.decl(t['of'], f'{name}[{t["n"]}]', plain, depth + 1)
        if t['k'] == 'fn':
            # (a parameter declared as an unnamed function is not accepted by the parser: documented limitation)
            ps = [self.decl(p, f'p{i}' if p['k'] == 'fn' else r.choice(['', f'p{i}']) if not plain else '', plain, depth + 1) for i, p in enumerate(t['ps'])]
            return self.decl(t['r'], f'{name}({", ".join(ps + (["..."] if t["va"] else [])) or "void"})', plain, depth + 1)
        b = self.base(t) if not plain else ('const ' if t['q'] else '') + self.base(unq(t))
        return b + (' ' + name if name else '')

class Gen:
    def __init__(self, r, g):
        self.r, self.g = r, g
        self.structs, self.vars, self.n = [], {}, 0
        for i in range(r.choice([1, 2, 3])):
            ms = [dict(n=f'm{i}_{j}', t=self.objtype(2, member=True), w=-1) for j in range(r.choice([1, 2, 3, 4]))]
            if self.structs and r.random() < 0.3 and not any(m['n'] == '' for s in self.structs for m in s['m']):
                k = r.randrange(len(self.structs)) + 1
                # anonymous member: an inline copy of fresh members
                self.structs.append(dict(u=r.random() < 0.5, m=[dict(n=f'a{i}_{j}', t=self.objtype(1, member=True), w=-1) for j in range(2)], anon=True))
                ms.insert(r.randrange(len(ms) + 1), dict(n='', t=S(len(self.structs)), w=-1))
            self.structs.append(dict(u=r.random() < 0.25, m=ms))
        for j in range(r.choice([8, 10, 12])): self.vars[f'v{j}'] = self.objtype(r.choice([1, 2, 3, 3, 4]))
        for j in range(3): self.vars[f'f{j}'] = self.fntype(r.choice([1, 2, 3]))
        for k in SC: self.vars['s' + k] = B(k, r.random() < 0.15 and 1 or 0)
        self.env = {n: norm(t) for n, t in self.vars.items()}
    def named(self): return [i + 1 for i, s in enumerate(self.structs) if not s.get('anon')]
    def scal(self): return B(self.r.choice(SC), 1 if self.r.random() < 0.2 else 0)
    def objtype(self, d, member=False):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.2:
            if self.named() and r.random() < 0.35: return S(r.choice(self.named()), 1 if r.random() < 0.2 else 0)
            return self.scal()
        if x < 0.65:
            y = r.random()
            q = 1 if r.random() < 0.2 else 0
            if y < 0.2: return P(self.fntype(d - 1), q)
            if y < 0.27: return P(B('v', r.choice([0, 0, 1])), q)
            return P(self.objtype(d - 1), q)
        if x < 0.9: return A(self.objtype(d - 1), r.choice([1, 2, 3, 5, 7]))
        return self.objtype(d - 1)
    def fntype(self, d):
        r = self.r
        ps = [(lambda t: t)(self.objtype(r.choice([0, 1, 2]))) if r.random() < 0.85 else self.fntype(0) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        ret = B('v') if r.random() < 0.15 else self.objtype(d - 1)
        while ret['k'] == 'a': ret = ret['of']
        return FN(unq(ret), ps, bool(ps) and r.random() < 0.25)
    # ---- typed expressions: (expr, type of the lvalue, is lvalue)
    def lit(self):
        r = self.r
        k = r.choice(['i', 'i', 'i', 'u', 'l', 'ul', 'll', 'ull', 'd', 'f'])
        z = r.random() < 0.25
        return ({'k': 'n', 't': B(k), 'z': 1 if z else 0}, B(k), False)
    def leaf(self):
        r = self.r
        n = r.choice(list(self.vars))
        return ({'k': 'v', 'n': n}, self.env[n], True)
    def find(self, pred, d=2, tries=30):
        for _ in range(tries):
            e = self.expr(d)
            if pred(e): return e
        return None
    def complete(self, t): return t['k'] not in ('fn', 'v')
    def modifiable(self, t):
        if t['k'] in ('a', 'fn', 'v') or t['q']: return False
        return t['k'] != 'st' or not self.hasconst(t['id'])
    def hasconst(self, i):
        for m in self.structs[i - 1]['m']:
            t = norm(m['t'])
            while t['k'] == 'a': t = t['of']
            if t['q'] or (t['k'] == 'st' and self.hasconst(t['id'])): return True
        return False
    def members(self, i):
        for m in self.structs[i - 1]['m']:
            if m['n']: yield m['n'], norm(m['t'])
            else:
                for n, t in self.members(m['t']['id']): yield n, qual(t, m['t']['q'])
    def expr(self, d):
        r = self.r
        if d <= 0: return self.leaf() if r.random() < 0.85 else self.lit()
        x = r.random()
        a = self.expr(d - 1)
        e, t, lv = a
        c = conv(t)
        if t['k'] == 'v' or c['k'] == 'v':
            if r.random() < 0.5: return ({'k': 'cast', 't': B('v'), 'a': e}, B('v'), False)
            return self.leaf()
        # follow the structure of the type most of the time
        if c['k'] == 'p' and x < 0.75:
            to = c['to']
            y = r.random()
            if to['k'] == 'fn':
                if y < 0.45: return ({'k': 'call', 'f': e, 'ft': to}, to['r'], False)
                if y < 0.6: return ({'k': '*', 'a': e}, to, True)
                if y < 0.75 and lv: return ({'k': 'addr', 'a': e}, P(t), False)
            elif to['k'] != 'v':
                if y < 0.3: return ({'k': '*', 'a': e}, to, True)
                if y < 0.55:
                    i = self.intexpr(d - 2)
                    if r.random() < 0.12: return ({'k': '[]', 'a': i[0], 'b': e}, to, True)
                    return ({'k': '[]', 'a': e, 'b': i[0]}, to, True)
                if y < 0.75 and to['k'] == 'st':
                    m = r.choice(list(self.members(to['id'])))
                    return ({'k': '->', 'a': e, 'm': m[0]}, qual(m[1], to['q']), True)
                if y < 0.85:
                    i = self.intexpr(d - 2)
                    if r.random() < 0.5: return ({'k': 'b', 'op': '+', 'a': i[0], 'b': e}, c, False)
                    return ({'k': 'b', 'op': r.choice('+-'), 'a': e, 'b': i[0]}, c, False)
                if y < 0.9: return ({'k': 'b', 'op': '-', 'a': e, 'b': e}, B('l'), False)
                if y < 0.96 and lv and self.modifiable(t): return ({'k': 'inc', 'op': r.choice(['+', '-']), 'pre': r.random() < 0.5, 'a': e}, unq(t), False)
                if lv and self.modifiable(t): return ({'k': 'op=', 'op': r.choice('+-'), 'a': e, 'b': self.intexpr(0)[0]}, unq(t), False)
        if t['k'] == 'st' and x < 0.75:
            m = r.choice(list(self.members(t['id'])))
            if lv or (m[1]['k'] != 'a' and not m[1]['q']): return ({'k': '.', 'a': e, 'm': m[0]}, qual(m[1], t['q']), lv)
        if isar(c) and x < 0.75:
            y = r.random()
            if y < 0.35:
                b = self.arith(d - 1)
                ops = ['+', '-', '*', '/', '<', '<=', '==', '!=', '>'] + (['%', '&', '|', '^', '<<', '>>', '<<', '>>'] if isint(c) and isint(conv(b[1])) else [])
                op = r.choice(ops)
                return ({'k': 'b', 'op': op, 'a': e, 'b': self.nz(b[0]) if op in '/%' else b[0]}, self.barith(op, c, conv(b[1])), False)
            if y < 0.5:
                op = r.choice(['-', '+', '!'] + (['~'] if isint(c) else []))
                return ({'k': 'u', 'op': op, 'a': e}, B('i') if op == '!' else self.prom(c), False)
            if y < 0.6 and lv and self.modifiable(t): return ({'k': 'inc', 'op': r.choice(['+', '-']), 'pre': r.random() < 0.5, 'a': e}, unq(t), False)
            if y < 0.7 and lv and self.modifiable(t):
                b = self.arith(d - 1)
                op = r.choice(['+', '-', '*', '/'] + (['<<', '&', '|', '>>'] if isint(t) and isint(conv(b[1])) else []))
                return ({'k': 'op=', 'op': op, 'a': e, 'b': self.nz(b[0]) if op in '/%' else b[0]}, unq(t), False)
            if y < 0.9:
                b = self.arith(d - 1)
                return ({'k': 'c', 'cond': self.arith(0)[0], 'a': e, 'b': b[0]}, self.barith('+', c, conv(b[1])), False)
        if x < 0.8 and lv is not False and t['k'] != 'v': return ({'k': 'addr', 'a': e}, P(t), False)
        if x < 0.84 and lv and self.modifiable(t): return ({'k': '=', 'a': e, 'b': e if r.random() < 0.5 or not isar(t) else self.arith(0)[0]}, unq(t), False)
        if x < 0.87: return ({'k': ',', 'a': self.arith(0)[0], 'b': e}, c, False)
        if x < 0.93:
            k = self.scal()
            if isar(c): return ({'k': 'cast', 't': k, 'a': e}, unq(k), False)
            if c['k'] == 'p':
                to = norm(P(self.objtype(2)) if r.random() < 0.8 else B(r.choice(['l', 'ul'])))
                return ({'k': 'cast', 't': to, 'a': e}, unq(to), False)
        if x < 0.95:
            n = {'k': 'sz', 'a': e}
            if self.complete(t): return (n, B('ul'), False)
        if x < 0.97 and c['k'] == 'p':
            to = c['to']
            y = r.random()
            if y < 0.35:
                z = {'k': 'n', 't': B('i'), 'z': 1}
                if r.random() < 0.4: z = {'k': 'cast', 't': P(B('v')), 'a': z}
                p, q = (e, z) if r.random() < 0.5 else (z, e)
                return ({'k': 'c', 'cond': self.arith(0)[0], 'a': p, 'b': q}, c, False)
            if not composite(to):
                b = self.find(lambda x: conv(x[1])['k'] == 'p' and not composite(conv(x[1])['to']) and
                              (conv(x[1])['to']['k'] == 'v' or to['k'] == 'v' or key(unq(conv(x[1])['to'])) == key(unq(to))) and not self.nullc(x[0]), 1)
                if b and not self.nullc(e):
                    bt = conv(b[1])['to']
                    if to['k'] == 'v' or bt['k'] == 'v': rt = P(B('v', max(to['q'], bt['q'])))
                    else: rt = P(qual(to, max(to['q'], bt['q'])))
                    return ({'k': 'c', 'cond': self.arith(0)[0], 'a': e, 'b': b[0]}, rt, False)
            return ({'k': 'log', 'op': r.choice(['&&', '||']), 'a': e, 'b': e}, B('i'), False)
        if t['k'] == 'st' and r.random() < 0.3:
            return ({'k': 'cl', 't': unq(t), 'init': '{0}'}, unq(t), None)
        if r.random() < 0.3:
            t = self.scal() if r.random() < 0.5 else A(self.scal(), r.choice([1, 2, 4]))
            return ({'k': 'cl', 't': t, 'init': '{1}'}, norm(t), None)   # (addressable, but not assignable in xcc)
        if r.random() < 0.2:
            n = r.choice([0, 1, 3, 6])
            return ({'k': 'str', 'len': n}, A(B('c'), n + 1), False)
        return a
    def nullc(self, e): return (e['k'] == 'n' and e['z'] == 1) or (e['k'] == 'cast' and self.nullc(e['a'])) or e['k'] in ('u', 'b', 'c', ',')
    def arith(self, d):
        return self.find(lambda x: isar(conv(x[1])), max(d, 0)) or self.lit()
    def intexpr(self, d):
        return self.find(lambda x: isint(conv(x[1])), max(d, 0)) or ({'k': 'n', 't': B('i'), 'z': 0}, B('i'), False)
    def nz(self, e): return e if e['k'] == 'v' else {'k': 'v', 'n': 'si'}
    def prom(self, t): return B('i') if isint(t) and RANK[t['k']] < 3 else t
    def barith(self, op, a, b):
        import cast
        if op in ('<', '<=', '==', '!=', '>'): return B('i')
        if op in ('<<', '>>'): return self.prom(a)
        return B(cast.uac(self.g, a, b)['k'])

SUF = dict(i='', u='U', l='L', ul='UL', ll='LL', ull='ULL')
class Printer:
    def __init__(self, d): self.d = d
    def tn(self, t): return self.d.decl(t, '', plain=True)
    def e(self, x):
        k = x['k']
        E = self.e
        if k == 'v': return x['n']
        if k == 'n':
            kk = x['t']['k']
            if kk == 'd': return '0.0' if x['z'] else '2.5'
            if kk == 'f': return '0.0f' if x['z'] else '2.5f'
            return ('0' if x['z'] else '3') + SUF[kk]
        if k == 'str': return '"' + 'abcdefgh'[:x['len']] + '"'
        if k == 'u': return f'({x["op"]}{E(x["a"])})'
        if k in ('b', 'log'): return f'({E(x["a"])} {x["op"]} {E(x["b"])})'
        if k == 'c': return f'({E(x["cond"])} ? {E(x["a"])} : {E(x["b"])})'
        if k == ',': return f'({E(x["a"])}, {E(x["b"])})'
        if k == '=': return f'({E(x["a"])} = {E(x["b"])})'
        if k == 'op=': return f'({E(x["a"])} {x["op"]}= {E(x["b"])})'
        if k == 'inc': return f'({x["op"]*2}{E(x["a"])})' if x['pre'] else f'({E(x["a"])}{x["op"]*2})'
        if k == 'cast': return f'(({self.tn(x["t"])}){E(x["a"])})'
        if k == 'addr': return f'(&{E(x["a"])})'
        if k == '*': return f'(*{E(x["a"])})'
        if k == '[]': return f'{self.post(x["a"])}[{E(x["b"])}]'
        if k == '.': return f'{self.post(x["a"])}.{x["m"]}'
        if k == '->': return f'{self.post(x["a"])}->{x["m"]}'
        if k == 'call': return f'{self.post(x["f"])}({", ".join(map(self.arg, x["ft"]["ps"]))})'
        if k == 'sz': return f'sizeof({E(x["a"])})'
        if k == 'cl': return f'(({self.tn(x["t"])}){x["init"]})'
        raise ValueError(k)
    def arg(self, t):
        if t['k'] == 'st': return f'*({self.tn(P(t))})0'
        return f'({self.tn(t)})0' if t['k'] == 'p' else '1'
    def post(self, x):
        s = self.e(x)
        return s if s[0] == '(' or x['k'] in ('v', '[]', '.', '->', 'call') else f'({s})'

def decoys(r, t):
    """types a wrong rule would give: other qualifiers at every level, neighbours in rank, other sizes"""
    out = []
    def put(u):
        if u is not None and u['k'] not in ('a', 'fn', 'v'): out.append(unq(u))
    def vary(t, top):
        k = t['k']
        if not top and k != 'fn' and k != 'a': yield dict(t, q=1 - t['q'])
        if k == 'p':
            for u in vary(t['to'], False): yield dict(t, to=u)
        elif k == 'a':
            yield dict(t, n=t['n'] + 1)
            for u in vary(t['of'], False): yield dict(t, of=u)
        elif k == 'fn':
            if t['r']['k'] != 'i': yield dict(t, r=B('i'))
            if t['ps']: yield dict(t, va=not t['va'])
            yield dict(t, ps=t['ps'] + [B('i')], va=t['va'])
            for u in vary(t['r'], True):
                yield dict(t, r=u)
            for i, p in enumerate(t['ps']):
                for u in vary(p, True): yield dict(t, ps=t['ps'][:i] + [u] + t['ps'][i + 1:])
        elif k in RANK or k in ('f', 'd'):
            for kk in SC + ['b']:
                if kk != k: yield dict(t, k=kk)
    allv = [unq(u) for u in vary(t, True) if u['k'] not in ('a', 'fn', 'v')]
    r.shuffle(allv)
    if t['k'] in RANK or t['k'] in ('f', 'd'): out = allv
    else: out = allv[:8]
    seen, res = {key(unq(t))}, []
    for u in out:
        u = norm(u)
        if key(u) not in seen:
            seen.add(key(u)); res.append(u)
    return res

def make(r, g, nprobes):
    gen = Gen(r, g)
    probes = []
    for _ in range(nprobes):
        e, t, lv = gen.expr(r.choice([1, 2, 3, 3, 4, 5]))
        if t['k'] == 'v' or any_void(e): continue
        probes.append(e)
    return gen, probes

def any_void(e):
    return e['k'] == 'cast' and e['t']['k'] == 'v'

def text(r, gen, probes, res):
    d = Decls(r, gen.structs)
    pr = Printer(d)
    body, exp = [], []
    for i, (e, x) in enumerate(zip(probes, res)):
        s = pr.e(e)
        lt, rt = x['lt'], x['rt']
        if rt['k'] == 'v' or lt['k'] == 'v': continue
        al = [(rt, 1)] + [(u, j + 2) for j, u in enumerate(decoys(r, rt))]
        r.shuffle(al)
        body.append(f'pr({i}, _Generic(({s}), ' + ', '.join(f'{pr.tn(t)}: {j}' for t, j in al) + ', default: 99));')
        exp.append(f'{i} 1')
        if lt['k'] != 'fn':
            body.append(f'pr({i}, sizeof({s})); pr({i}, _Alignof({pr.tn(lt)}));')
            exp += [f'{i} {x["size"]}', f'{i} {x["align"]}']
        tt = f'{pr.tn(P(lt))}'
        # qualifier of the lvalue, arrays and functions are visible through a pointer to the type
        alt = [u for u in decoys(r, P(lt))][:6]
        body.append(f'{{ __typeof__({s}) *tp; pr({i}, _Generic(tp, {tt}: 1' + ''.join(f', {pr.tn(u)}: {j+2}' for j, u in enumerate(alt)) + ', default: 99)); }')
        exp.append(f'{i} 1')
        # declaring through typeof, then using the object
        if lt['k'] not in ('fn',) and not lt['q'] and r.random() < 0.3:
            body.append(f'{{ __typeof__({s}) tq; __typeof__(tq) *tp; pr({i}, sizeof tq); pr({i}, _Generic(tp, {tt}: 1, default: 99)); }}')
            exp += [f'{i} {x["size"]}', f'{i} 1']
    decls = []
    for n, t in gen.vars.items():
        decls.append(d.decl(t, n) + ';')
    st = []
    for i, s in enumerate(gen.structs):
        if s.get('anon'): continue
        def ms(s):
            out = []
            for m in s['m']:
                if m['n'] == '':
                    a = gen.structs[m['t']['id'] - 1]
                    out.append(('union' if a['u'] else 'struct') + ' { ' + ' '.join(ms(a)) + ' };')
                else: out.append(d.decl(m['t'], m['n'], plain=True) + ';')
            return out
        st.append(('union' if s['u'] else 'struct') + f' S{i+1} {{ ' + ' '.join(ms(s)) + ' };')
    zero = []
    for n, t in gen.env.items():
        if t['k'] == 'fn': continue
        zero.append(f'for (int i = 0; i < (int)sizeof({n}); ++i) if (((const char*)&{n})[i]) ++bad;')
    src = '#include <stdio.h>\n' + '\n'.join(st) + '\n' + '\n'.join(d.td) + '\n' + '\n'.join(decls) + '\n' + \
        'static void pr(int i, long v) { printf("%d %ld\\n", i, v); }\n'
    # several functions: the stack frame of one function stays small
    fs = []
    for j in range(0, len(body), 12):
        fs.append(f't{j}')
        src += f'static void t{j}(void) {{\n  ' + '\n  '.join(body[j:j + 12]) + '\n}\n'
    src += 'int main(void) {\n' + ''.join(f'  {f}();\n' for f in fs) + '  int bad = 0;\n  ' + '\n  '.join(zero) + '\n  pr(-1, bad);\n  return 0;\n}\n'
    exp.append('-1 0')
    return src, exp

def main(chk):
    r = chk.rng
    b = H.build()
    charsc(chk, b)
    n, np = (160, 40) if chk.quick() else (1200, 60)
    for g, names in (('x64', ['x64', 'x64-ssa']), ('wasm', ['wasm'])):
        tgts = creplay.targets(b, names)
        if not tgts: continue
        gens = [make(r, g, np) for _ in range(n if g == 'x64' else n // 2)]
        cases = []
        for gen, probes in gens:
            cases.append(dict(g=g, structs=[dict(u=s['u'], m=s['m']) for s in gen.structs], vars=gen.vars, probes=[strip(e) for e in probes]))
        res = H.spec_cases('CTyping', cases, chk)
        progs = [text(r, gen, probes, x['res']) for (gen, probes), x in zip(gens, res)]
        chk.add('probes', sum(len(p) for _, p in gens))
        chk.add('observations', sum(len(e) for _, e in progs))
        for tgt in tgts:
            out = creplay.run_sources(tgt, [s for s, _ in progs])
            chk.add('traces_validated_against_impl', len(out))
            for (gen, probes), (src, exp), o in zip(gens, progs, out):
                d = judge(exp, o)
                if d is None: continue
                if judge(exp, creplay.run_sources(tgt, [src])[0]) is None: continue
                m = d.split(' ')[1] if d.startswith('probe') else ''
                chk.violation(f'types {tgt.name} {m and Printer(Decls(r, gen.structs)).e(probes[int(m)])}', d, {'prog.c': src, 'expected.txt': '\n'.join(exp), 'actual.txt': str(o[2])})
                if len(chk.viol) > 20: return
        k = len(progs) // 2
        chk.sample(progs[k][0][:1400])

def charsc(chk, b):
    """plain char is distinct from signed char and unsigned char (kept apart from the random probes: known finding)"""
    probes = [{'k': 'v', 'n': n} for n in ('a', 'b', 'c')]
    case = dict(g='x64', structs=[], vars=dict(a=B('c'), b=B('sc'), c=B('uc')), probes=probes)
    res = H.spec_cases('CTyping', [case], chk)[0]['res']
    src = '#include <stdio.h>\nchar a; signed char b; unsigned char c;\nint main(void) {\n' + ''.join(
        f'  printf("{i} %d\\n", _Generic({p["n"]}, char: 1, signed char: 2, unsigned char: 3));\n' for i, p in enumerate(probes)) + '  return 0;\n}\n'
    exp = [f'{i} ' + str({'c': 1, 'sc': 2, 'uc': 3}[x['rt']['k']]) for i, x in enumerate(res)]
    for tgt in creplay.targets(b, ['x64']):
        o = creplay.run_sources(tgt, [src])[0]
        d = judge(exp, o)
        lines = o[2].split('\n')
        # only the one listed confusion is suppressed: (signed char) selecting char
        if d: chk.violation('types charsc ' + d if lines[:3] == ['0 1', '1 1', '2 3'] else 'types char kinds', d, {'prog.c': src, 'expected.txt': '\n'.join(exp), 'actual.txt': o[2]})

def strip(e):
    o = {}
    for k, v in e.items():
        if k in ('a', 'b', 'f') and isinstance(v, dict): o[k] = strip(v)
        elif k in ('cond', 'pre', 'init', 'ft'): continue
        else: o[k] = v
    return o

def judge(exp, o):
    if o[1] == 'skipped': return None
    if o[0] == 'compile': return f'compiler failed (status {o[1]}): {o[2][-500:]}'
    lines = o[2].split()
    lines = [' '.join(lines[i:i + 2]) for i in range(0, len(lines), 2)]
    if o[1] != 0: return f'status {o[1]}'
    for a, c in zip(exp, lines):
        if a != c: return f'probe {a.split()[0]} : specification {a}, program {c}'
    return None if len(lines) == len(exp) else f'{len(lines)} observations instead of {len(exp)}'
