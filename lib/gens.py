"""Random pieces shared by several checks."""
from cast import *
ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
REL = ['==', '!=', '<', '>', '<=', '>=']
ALLOPS = ARITH + REL

def int_values(tg, k):
    lo, hi = irange(tg, k)
    vs = {lo, hi, lo + 1 if lo + 1 <= hi else lo, hi - 1 if hi - 1 >= lo else hi, 0, 1, 2, 3, 5, 7, 8, 10, 16, 31, 32, 33, 63, 64, 100, 255, 256, 1000}
    for n in (7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0, 1):
            vs |= {(1 << n) + d, -(1 << n) + d}
    if lo < 0: vs |= {-1, -2, -3, -7, -8, -10, -100}
    return sorted(v for v in vs if lo <= v <= hi)

def rand_int(r, tg, k):
    lo, hi = irange(tg, k)
    x = r.random()
    if x < 0.55: return r.choice(int_values(tg, k))
    if x < 0.75: return r.randint(max(lo, -20), min(hi, 20))
    if x < 0.85:
        b = r.randint(0, 8 * size(tg, k) - 1)
        v = (1 << b) * r.choice([1, -1])
        return v if lo <= v <= hi else 0
    b = r.randint(1, 8 * size(tg, k))
    v = r.getrandbits(b)
    if r.random() < 0.5: v = -v
    return v if lo <= v <= hi else (v % (hi - lo + 1)) + lo

class IntExpr:
    """Random integer expressions over a set of typed leaves [(expr, type)]."""
    def __init__(self, r, tg, leaves, lits=True):
        self.r, self.tg, self.leaves, self.lits = r, tg, leaves, lits
    def leaf(self):
        r = self.r
        if self.lits and r.random() < 0.25:
            k = r.choice(['i', 'i', 'i', 'u', 'l', 'ul', 'll', 'ull', 'c', 's', 'uc', 'us'])
            return Num(rand_int(r, self.tg, k), T(k)), T(k)
        return r.choice(self.leaves)
    def small(self):
        return Num(self.r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31]), INT), INT
    def gen(self, d):
        r = self.r
        if d <= 0: return self.leaf()
        x = r.random()
        if x < 0.50:
            op = r.choice(ARITH)
            a, ta = self.gen(d - 1)
            if op in ('<<', '>>'):
                if op == '<<' and r.random() < 0.7:
                    k = r.choice(['u', 'ul', 'ull'])
                    a, ta = Cast(T(k), a), T(k)
                b, tb = self.small() if r.random() < 0.7 else self.gen(d - 1)
                return Bin(op, a, b), promote(ta)
            b, tb = self.gen(d - 1)
            if op in ('/', '%') and r.random() < 0.6:
                b = Bin('|', b, Num(1))
                tb = uac(self.tg, tb, INT)
            if op in ('+', '-', '*') and r.random() < 0.5:
                k = r.choice(['u', 'ul', 'ull'])
                a, ta = Cast(T(k), a), T(k)
            return Bin(op, a, b), uac(self.tg, ta, tb)
        if x < 0.62:
            a, ta = self.gen(d - 1); b, tb = self.gen(d - 1)
            return Bin(r.choice(REL), a, b), INT
        if x < 0.72:
            op = r.choice(['-', '~', '!', '+'])
            a, ta = self.gen(d - 1)
            return Un(op, a), INT if op == '!' else promote(ta)
        if x < 0.84:
            k = r.choice(INTS)
            return Cast(T(k), self.gen(d - 1)[0]), T(k)
        if x < 0.90:
            c = self.gen(d - 1)[0]; a, ta = self.gen(d - 1); b, tb = self.gen(d - 1)
            return Cond(c, a, b), uac(self.tg, ta, tb)
        a = self.gen(d - 1)[0]; b = self.gen(d - 1)[0]
        return (Land if r.random() < 0.5 else Lor)(a, b), INT
