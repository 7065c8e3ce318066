"""C06: initializers."""
import harness as H
from cast import *
from gens import *
from aggs import Aggs
import creplay

class Inits:
    """Random initializers.  The walk over subobjects (designators, brace elision) only decides which
    initializers are well formed; the value of the object is left to the specification."""
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.a = Aggs(r, p)
        self.a.cstr = True
        self.overlap = 0
        self.dyn = None                 # expressions allowed in automatic initializers
    def is_agg(self, t): return t['k'] in ('a', 'st')
    def subs(self, t):
        if t['k'] == 'a': return t['n']
        if self.a.is_union(t): return 1
        return len(self.a.members(t))
    def skip(self, t, i):               # unnamed bit-fields take no initializer
        while t['k'] == 'st' and i < len(self.a.members(t)) and self.a.unnamed(self.a.members(t)[i]): i += 1
        return i
    def child(self, t, i):
        return t['of'] if t['k'] == 'a' else self.a.members(t)[i]['t']
    def at(self, t, path):
        for i in path: t = self.child(t, i)
        return t
    def width(self, t, path):
        pt = self.at(t, path[:-1])
        return self.a.members(pt)[path[-1]] if pt['k'] == 'st' and self.a.members(pt)[path[-1]]['w'] >= 0 else None
    def nxt(self, t, path):
        path = list(path)
        while path:
            par = self.at(t, path[:-1])
            n = self.skip(par, path[-1] + 1)
            if par['k'] == 'a' and par['n'] < 0 and n < 6: return path[:-1] + [n]
            if not (par['k'] == 'st' and self.a.is_union(par)) and n < self.subs(par): return path[:-1] + [n]
            path = path[:-1]
        return []
    def ischar(self, t): return t['k'] == 'a' and t['of']['k'] in ('c', 'sc', 'uc')
    def elidable(self, t):
        while self.is_agg(t):
            if t['k'] == 'st' and self.a.active.get(t['id'], 0): return False
            t = self.child(t, self.skip(t, 0))
        return True
    def desc(self, t):
        p = []
        while self.is_agg(t):
            p.append(self.skip(t, 0))
            t = self.child(t, p[-1])
        return p
    def scalar(self, t, m=None):
        r = self.r
        if m: return IE(self.a.bfval(m))
        if self.dyn and t['k'] != 'p' and r.random() < 0.4: return IE(self.dyn(t))
        e = IE(self.a.value(t, 0.15 if t['k'] not in ('f', 'd', 'p') and t['k'] not in ('b',) else 0))
        v = e['e']
        if t['k'] not in ('p',) and v['k'] == 'f' and t['k'] not in ('f', 'd'):       # in range for the conversion
            e = IE(Flt(float(r.randint(0, 100)) + 0.5, T('d')))
        return IL([e]) if r.random() < 0.07 else e
    def string(self, t):
        n = t['n'] if t['n'] >= 0 else self.r.randint(0, 6)
        k = self.r.choice([n, max(0, n - 1), self.r.randint(0, n)])
        return dict(Str(bytes(self.r.choice(b'abcdefgh0189%\x01\x7f\x80\xff') for _ in range(k))), arr=True)
    def init(self, t, depth=0):
        """initializer for an object of type t"""
        r = self.r
        if not self.is_agg(t): return self.scalar(t)
        if self.ischar(t) and r.random() < 0.5:
            s = IE(self.string(t))
            return IL([s]) if r.random() < 0.2 else s
        items = []
        path = [self.skip(t, 0)]
        if t['k'] == 'st' and self.a.is_union(t) and self.a.active.get(t['id'], 0): path = []
        n = r.choice([0, 1, 2, 3, 4, 6, 9]) if r.random() < 0.6 else 99
        top = t['n'] if t['k'] == 'a' else None
        strs = dess = False
        done = []
        def clash(q): return self.overlap == 0 and any(q[:len(d)] == d or d[:len(q)] == q for d in done)
        while len(items) < min(n, 24):
            des = []
            if not path or clash(path + self.desc(self.at(t, path))) or r.random() < 0.22:
                if strs or (r.random() < 0.15 and items): break      # compilers differ on overriding parts of strings
                dess = True
                for _ in range(6):
                    path = self.designate(t)
                    des = self.desig(t, path)
                    if not clash(path): break
                else: break
            st = self.at(t, path)
            if clash(path): break
            m = self.width(t, path)
            if self.is_agg(st):
                if self.ischar(st) and len(path) == 1 and not dess and r.random() < 0.4: it = IE(self.string(st)); it = IL([it]) if r.random() < 0.2 else it
                elif (r.random() < 0.5 or not self.elidable(st)):
                    it = self.init(st, depth + 1)
                    if dess and self.has_str(it): it = IL([self.scalar(INT)]) if self.elidable(st) and not self.ptr_first(st) else None
                    if it is None: break
                elif self.dyn and st['k'] == 'st' and st['id'] in self.objs and not self.overlap and r.random() < 0.3:
                    it = IE(V(self.objs[st['id']]))
                else:
                    path = path + self.desc(st)
                    it = self.scalar(self.at(t, path), self.width(t, path))
                    if it['k'] == 'il': it = it['l'][0]['i']      # a brace here would belong to the aggregate
            else:
                it = self.scalar(st, m)
                if it['k'] == 'il' and len(path) > 1: it = it['l'][0]['i']
            strs = strs or self.has_str(it)
            items.append(Item(des, it))
            done.append(path)
            path = self.nxt(t, path)
            if not path and r.random() < 0.7: break
        if not items:                                   # {} is not standard C
            path = self.designate(t)
            des = self.desig(t, path)
            st = self.at(t, path)
            items.append(Item(des, self.init(st, depth + 1) if self.is_agg(st) else self.scalar(st, self.width(t, path))))
        return IL(items)
    def has_str(self, i):
        if i['k'] == 'ie': return i['e'].get('arr', False)
        return any(self.has_str(x['i']) for x in i['l'])
    def ptr_first(self, t):
        return self.at(t, self.desc(t))['k'] == 'p'
    def designate(self, t):
        r = self.r
        path = []
        while True:
            if t['k'] == 'a': i = r.randrange(t['n'] if t['n'] >= 0 else 5)
            elif self.a.is_union(t): i = self.a.active.get(t['id'], 0)
            else: i = r.choice([i for i, m in enumerate(self.a.members(t)) if not self.a.unnamed(m)])
            path.append(i)
            t = self.child(t, i)
            if not self.is_agg(t) or r.random() < 0.55: return path
    def desig(self, t, path):
        d = []
        for i in path:
            if t['k'] == 'a': d.append(DX(i))
            else:
                m = self.a.members(t)[i]
                if m['n']: d.append(DM(m['n']))
                else: d.append(None)
            t = self.child(t, i)
        # an anonymous member is reached through the name of one of its members
        if d[-1] is None:
            k = self.a.members(t)[self.a.active.get(t['id'], 0) if self.a.is_union(t) else 0]
            path.append(self.a.members(t).index(k))
            d.append(DM(k['n']))
        return [x for x in d if x is not None]
    def mktype(self, d):
        r = self.r
        x = r.random()
        if x < 0.2 and d > 0: return A(T(r.choice(['c', 'c', 'uc', 'sc'])), r.choice([1, 2, 3, 4, 5, 8]))
        if x < 0.45 and d > 0: return A(self.mktype(d - 1), r.choice([1, 2, 3, 4]))
        if x < 0.8 and d > 0: return self.mkstruct(d - 1)
        return self.a.scalar()
    def mkstruct(self, d):
        r = self.r
        ms = []
        union = r.random() < 0.15
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        for i in range(n):
            if not union and r.random() < 0.1:
                k = r.choice(['i', 'u', 'us', 'uc', 's', 'll'])
                ms.append((f'm{i}', T(k), r.randint(1, 8 * size(self.p.tg, k))))
                if r.random() < 0.4: ms.append(('', T(r.choice(['i', 'u', 'us', 'll'])), r.choice([0, 0, 1, 3, 5])))
            elif d > 0 and not union and r.random() < 0.08:
                t = self.mkstruct_plain(f'm{i}_')
                ms.append(('', t))
            else: ms.append((f'm{i}', self.mktype(d)))
        if not union and r.random() < 0.08: ms.insert(r.randrange(len(ms)), ('', T(r.choice(['i', 'u', 'uc', 'll'])), r.choice([0, 0, 2, 7])))
        t = self.p.struct(ms, union)
        if union and r.random() < 0.4: self.a.active[t['id']] = r.randrange(n)
        return t
    def mkstruct_plain(self, pre):
        r = self.r
        n = len(self.p.structs)
        t = self.p.struct([(f'{pre}{j}x{n}', self.a.scalar()) for j in range(r.randint(1, 3))], r.random() < 0.4)
        self.p.structs[t['id'] - 1]['anon'] = True
        return t

DIRTY = """static void dirty_(void) { volatile unsigned char b[1500]; for (int i = 0; i < 1500; ++i) b[i] = 0xA5; }
"""
def prog(r, tg, n):
    p = Prog(tg); p.meta['key'] = 'init'
    p.extra = DIRTY
    g = Inits(r, p)
    g.objs = {}
    g.overlap = int(r.random() < 0.4)
    p.glob('ga', A(INT, 4), IL([IE(Num(i + 5)) for i in range(4)]))
    g.a.ptargets.append(('ga', 4))
    ivs = []
    for k in ('c', 'us', 'i', 'u', 'll', 'd', 'f', 'ul'):
        v = Num(rand_int(r, tg, k), T(k)) if k not in ('d', 'f') else Flt(float(r.randint(-50, 50)), T(k))
        p.glob('v' + k, T(k), IE(v))
        ivs.append(k)
    def dyn(t):
        if t['k'] in ('f', 'd'): return V('v' + r.choice(['d', 'f', 'i', 'c']))
        return V('v' + r.choice(['c', 'us', 'i', 'u', 'll', 'ul'])) if r.random() < 0.7 else Call('idf', [V('v' + r.choice(['i', 'c', 'us']))])
    p.func('idf', INT, [('x', INT)], Block(Ret(Bin('^', V('x'), Num(1)))))
    dirty = E(Sp(Num(0), 'dirty_()'))
    for j in range(n):
        while True:
            t = g.mktype(3)
            if g.is_agg(t): break
        if t['k'] == 'a' and not g.ischar(t) and r.random() < 0.3: u = A(t['of'], -1)
        elif g.ischar(t) and r.random() < 0.4: u = A(t['of'], -1)
        else: u = t
        it = g.init(u)
        if u['n'] < 0 if u['k'] == 'a' else False:
            p.glob(f'g{j}', u, it)
            p.main += [Pr(Bin('/', SzE(V(f'g{j}')), SzE(Idx(V(f'g{j}'), Num(0)))))]
            # observe through a loop over the bytes/elements with the computed size
            if not g.is_agg(u['of']) and u['of']['k'] != 'p':
                show = [For(Decl('i', INT, IE(Num(0))), Bin('<', V('i'), Bin('/', SzE(V(f'g{j}')), SzE(Idx(V(f'g{j}'), Num(0))))), Inc('+', False, V('i')),
                            PrT(Idx(V(f'g{j}'), V('i')), u['of']))]
            else: show = g.a.show(Idx(V(f'g{j}'), Num(0)), u['of'])
            p.main += show
            show2 = [Pr(Bin('/', SzE(V('l')), SzE(Idx(V('l'), Num(0)))))] + ([For(Decl('i', INT, IE(Num(0))), Bin('<', V('i'), Bin('/', SzE(V('l')), SzE(Idx(V('l'), Num(0))))), Inc('+', False, V('i')),
                            PrT(Idx(V('l'), V('i')), u['of']))] if not g.is_agg(u['of']) and u['of']['k'] != 'p' else g.a.show(Idx(V('l'), Num(0)), u['of']))
            p.main += [dirty, Block(Decl('l', u, it), *show2)]
            continue
        p.glob(f'g{j}', t, it, r.choice(['', '', 'static', 'const']))
        p.main += g.a.show(V(f'g{j}'), t)
        if it['k'] == 'il' and r.random() < 0.5:      # unnamed static object
            p.glob(f'cp{j}', P(t if t['k'] == 'st' else t['of']), IE(Addr(CL(t, it)) if t['k'] == 'st' else CL(t, it)))
            p.main += g.a.show(Deref(V(f'cp{j}')), t) if t['k'] == 'st' else g.a.show(Idx(V(f'cp{j}'), Num(t['n'] - 1)), t['of'])
        # automatic, static local, compound literal with the same initializer
        p.main += [dirty, Block(Decl('l', t, it), *g.a.show(V('l'), t))]
        sl = p.static_local('s', t, it)
        p.main += [Block(sl, *g.a.show(V('s'), t))]
        if t['k'] == 'st':
            p.main += [dirty, Block(Decl('l', t), E(Asg(V('l'), CL(t, it))), *g.a.show(V('l'), t))]
            p.main += [dirty, Block(Decl('q', P(t), IE(Addr(CL(t, it)))), *g.a.show(Deref(V('q')), t))]
        elif it['k'] == 'il':
            p.main += [dirty, Block(Decl('q', P(t['of']), IE(CL(t, it))), *g.a.show(Idx(V('q'), Num(t['n'] - 1)), t['of']))]
        # automatic with run-time values
        g.dyn = dyn
        it2 = g.init(t)
        g.dyn = None
        p.main += [dirty, Block(Decl('l', t, it2), *g.a.show(V('l'), t))]
        if t['k'] == 'st' and not p.globs[-1]['q'] == 'x':
            # array of objects, whole-object initializer, function argument
            g.objs[t['id']] = f'g{j}'
            p.main += [dirty, Block(Decl('l', A(t, 2), IL([Item([DX(1)], IE(V(f'g{j}')))])), *g.a.show(Idx(V('l'), Num(1)), t), *g.a.show(Idx(V('l'), Num(0)), t))]
    # again in a loop: each activation is initialized afresh
    t = g.mkstruct(1)
    it = g.init(t)
    lv = list(g.a.leaves(V('l'), t))
    p.main.append(For(Decl('k', INT, IE(Num(0))), Bin('<', V('k'), Num(3)), Inc('+', False, V('k')),
                      Block(Decl('l', t, it), *g.a.show(V('l'), t), *[E(Asg(e, g.a.value(k))) for e, k, w in lv if w < 0 and k['k'] != 'p'])))
    return p

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 12
    for rnd in range(m):
        ps = [prog(r, 'x64', 4) for _ in range(200)]
        creplay.replay(chk, ps, creplay.targets(b, ['x64', 'x64-ssa']), 'init')
        chk.log(f'x64 {rnd + 1}/{m}')
        ps = [prog(r, 'wasm', 4) for _ in range(50)]
        creplay.replay(chk, ps, creplay.targets(b, ['wasm']), 'init')
        chk.log(f'wasm {rnd + 1}/{m}')
        if chk.viol: break
