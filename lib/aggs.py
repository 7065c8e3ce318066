"""Random object types, values of them, and statements that observe every scalar of an object."""
import os
from cast import *
from gens import *
FLTS = [0.0, 1.0, -1.5, 2.25, 1e10, -3.75, 0.5, 100.0, 65536.0, -0.125, 7.0]

class Aggs:
    def __init__(self, r, p):
        self.r, self.p, self.tg = r, p, p.tg
        self.ptargets = []       # names of int arrays (global) pointers may point to
        self.active = {}         # union id -> member observed (default: the first)
        self.cstr = False        # pointers to character strings as well
    def scalar(self, ptr=True, b=not os.environ.get('VERIF_DEV_TARGETS')):      # gcc's _Bool has another size
        r = self.r
        x = r.random()
        if x < 0.62: return T(r.choice([k for k in INTS if b or k != 'b']))
        if x < 0.85: return T(r.choice(['f', 'd', 'd']))
        if ptr and self.cstr and r.random() < 0.5: return P(T('c'))
        return P(INT) if ptr and self.ptargets else T(r.choice(['i', 'c', 'll']))
    def mktype(self, d, ptr=True):
        """an object type of nesting depth <= d"""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.4: return self.scalar(ptr)
        if x < 0.65: return A(self.mktype(d - 1, ptr), r.choice([1, 2, 3, 4]))
        return self.mkstruct(d - 1, ptr)
    def mkstruct(self, d=0, ptr=True, n=None, union=None, bf=0.0, anon=0.0):
        r = self.r
        ms = []
        n = n or r.choice([1, 1, 2, 2, 3, 4, 5])
        union = r.random() < 0.12 if union is None else union
        for i in range(n):
            if not union and r.random() < bf:
                k = r.choice(['i', 'u', 'us', 'uc', 'sc', 's', 'l', 'ul', 'll', 'ull'])
                ms.append((f'm{i}', T(k), r.randint(1, 8 * size(self.tg, k))))
            elif d > 0 and r.random() < anon:
                t = self.mkstruct(0, ptr, union=r.random() < 0.4)
                sd = self.p.structs[t['id'] - 1]
                for j, m in enumerate(sd['m']): m['n'] = f'm{i}_{j}x{len(self.p.structs)}'
                sd['anon'] = True
                ms.append(('', t))
            else: ms.append((f'm{i}', self.mktype(d, ptr)))
        return self.p.struct(ms, union)
    def members(self, t): return self.p.structs[t['id'] - 1]['m']
    def unnamed(self, m): return m['n'] == '' and m['w'] >= 0
    def is_union(self, t): return self.p.structs[t['id'] - 1]['u']
    def value(self, t, cross=0.0):
        """scalar constant expression of type t (cross: probability of another arithmetic type)"""
        r = self.r
        k = t['k']
        if k == 'p':
            if r.random() < 0.15: return Num(0)
            if t['to']['k'] == 'c': return Str(bytes(r.choice(b'abcxyz019 _\\"\'\n\t\x01\x80\xff') for _ in range(r.randint(0, 6))))
            g, n = r.choice(self.ptargets)
            i = r.randrange(n)
            return V(g) if i == 0 and r.random() < 0.5 else Addr(Idx(V(g), Num(i))) if r.random() < 0.6 else Bin('+', V(g), Num(i))
        if r.random() < cross: k = r.choice([x for x in INTS if x != 'b'] + ['f', 'd'])
        if k in ('f', 'd'): return Flt(r.choice(FLTS) if r.random() < 0.7 else float(r.randint(-1000, 1000)), T(k))
        if k == 'b': return Num(r.choice([0, 1]))
        return Num(rand_int(r, self.tg, k), T(k))
    def init(self, t):
        """fully braced initializer for t with random values"""
        if t['k'] == 'a': return IL([self.init(t['of']) for _ in range(t['n'])])
        if t['k'] == 'st':
            ms = self.members(t)
            if self.is_union(t): ms = ms[:1]
            return IL([self.init(m['t']) if m['w'] < 0 else IE(self.bfval(m)) for m in ms if not self.unnamed(m)])
        return IE(self.value(t))
    def bfval(self, m):
        w, k = m['w'], m['t']['k']
        r = self.r
        if k in SIGNED: v = r.choice([-(1 << w - 1), (1 << w - 1) - 1, -1, 0, r.randint(-(1 << w - 1), (1 << w - 1) - 1)])
        else: v = r.choice([(1 << w) - 1, 0, 1, r.getrandbits(w)])
        return Num(v, m['t'] if RANK[k] >= 3 else INT)
    def leaves(self, lv, t):
        """(lvalue, type, width) of every scalar subobject (first member of unions)"""
        if t['k'] == 'a':
            for i in range(t['n']): yield from self.leaves(Idx(lv, Num(i)), t['of'])
        elif t['k'] == 'st':
            ms = self.members(t)
            if self.is_union(t): ms = [ms[self.active.get(t['id'], 0)]]
            for m in ms:
                if m['n'] == '':
                    if m['t']['k'] == 'st':       # anonymous: members reached directly
                        for x in self.leaves(lv, m['t']): yield x
                    continue
                yield from ((a, b, m['w'] if b is m['t'] and m['w'] >= 0 else w) for a, b, w in self.leaves(Dot(lv, m['n']), m['t']))
        else: yield lv, t, -1
    def show(self, lv, t):
        """statements printing every scalar of lv"""
        out = []
        for e, k, w in self.leaves(lv, t):
            if k['k'] == 'p': out.append(Pr(Cond(Bin('==', e, Num(0)), Num(-77), Deref(e)) if k['to']['k'] in ('i', 'c') else Bin('==', e, Num(0))))
            elif k['k'] in ('f', 'd'): out.append(PrT(e, k))
            else: out.append(Pr(e))
        return out
