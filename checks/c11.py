"""C11: conditional inclusion, file inclusion (spec/CPP.tla)."""
import os
import harness as H
import pptok
from pptok import tk
from c10 import check_outputs, spec_tokens, define_line

NAMES = ['A', 'B', 'C', 'D', 'E', 'LIMIT']
JUNK_TEXT = ["don't stop", 'a "b', '1.2.3.4 @ `', "x = 'ab", '\\ $', ') ] }', 'A B(', '"ok" \'"\' x', '"a\\"b /* " y', "can't /* hidden */ won't"]
JUNK_DIR = ['#error no', '#include "absent.h"', '#include <absent.h>', '#frobnicate 1', '#define', '#undef', '#line zzz', '#pragma weird', '# 12 "marker"', '#define A(', '#include', '#!', '#define 3 x']
JUNK_COND = ['', ')', '1 +', 'A(', '(((', '1 / 0', '"str"', '1 2 3', '@', 'defined', '== 1', 'x y', '# 1', '0x', '1 ? 2', "'"]

class Gen:
    def __init__(self, r, g):
        self.r, self.g = r, g
        self.files = {}
    def lit(self):
        r = self.r; x = r.random()
        if x < .35: return str(r.choice([0, 0, 1, 1, 2, 3, 7, 10]))
        if x < .5: return r.choice(["'a'", "'\\n'", "'\\0'", "'\\377'", "'0'", "'\\x41'"])
        v = r.choice([(1 << r.choice([31, 32, 62, 63])) + r.choice([-1, 0]), r.getrandbits(r.randrange(1, 63)), 255, 65535])
        if v >= 1 << 63 or r.random() < .4: return r.choice(['%d', '0x%x']) % v + r.choice(['u', 'U', 'ul', 'ULL', 'LLU'])
        return r.choice(['%d', '0x%X', '0%o']) % v + r.choice(['', '', 'L', 'LL', 'l'])
    def expr(self, d):
        """[(token, sp)]"""
        r = self.r; x = r.random()
        if d == 0 or x < .2:
            y = r.random()
            if y < .5: return [(self.lit(), True)]
            if y < .72: return [(r.choice(NAMES + ['undefd', 'int', 'while']), True)]
            return [('defined', True)] + ([(r.choice(NAMES + ['nope']), True)] if r.random() < .5 else [('(', r.random() < .3), (r.choice(NAMES + ['nope']), False), (')', False)])
        if x < .35: return [(r.choice(['-', '!', '~', '+', '!']), True)] + self.expr(d - 1)
        if x < .55: return [('(', True)] + self.expr(d - 1) + [(')', r.random() < .3)]
        if x < .63: return self.expr(d - 1) + [('?', True)] + self.expr(d - 1) + [(':', True)] + self.expr(d - 1)
        if x < .70: return self.expr(d - 1) + [(r.choice(['<<', '>>']), True), (str(r.choice([0, 1, 3, 31, 32, 63])), True)]
        return self.expr(d - 1) + [(r.choice(['+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||', '&&', '||']), r.random() < .8)] + self.expr(d - 1)

class FileGen:
    def __init__(self, g, depth): self.g, self.r, self.R, self.lines, self.depth = g, g.r, pptok.Render(g.r), [], depth
    def gap(self): return self.r.choice(['', '', ' ', '  ', '\t'])
    def hash(self): self.R.put(self.r.choice(['', '', ' ', '\t', '/* c */ ']) + '#' + self.gap())
    def tail(self): self.R.put(self.r.choice(['', '', '', ' ', ' // c', ' /* c */', ' /* a\n b */']) + '\n')
    def text(self):
        r = self.r; self.g.n += 1
        if r.random() < .35: toks = [('__LINE__', True)] if r.random() < .5 else [(r.choice(NAMES), True)]
        else: toks = []
        ts = self.R.tokens([(f't{self.g.n}', True)] + toks + [(';', False)], lead=False, splice=False); ts[0]['sp'] = True
        self.lines.append(dict(k='text', ts=ts)); self.R.put(r.choice(['', '', ' // x', ' /* y\n */']) + '\n')
    def spliced(self):
        self.g.n += 1
        n = f't{self.g.n}'; k = self.r.randrange(1, len(n))
        self.R.put(n[:k] + '\\\n' + n[k:] + ';\n')
        self.lines.append(dict(k='text', ts=[tk(n, True, 0), tk(';', False, 0)]))
    def junk(self):
        r = self.r
        if r.random() < .5: self.R.put(r.choice(JUNK_TEXT) + '\n'); self.lines.append(dict(k='null'))
        else: self.R.put(r.choice(JUNK_DIR) + '\n'); self.lines.append(dict(k='null'))
    def define(self):
        r = self.r; n = r.choice(NAMES)
        if r.random() < .25:
            self.hash(); self.R.put(f'undef {n}'); self.tail(); self.lines.append(dict(k='undef', name=list(n.encode())))
        else:
            body = [[], [(str(r.choice([0, 1, 2, 5])), False)], [(r.choice(NAMES), False)], [('(', False)] + self.g.expr_nodef(1) + [(')', False)]][r.choice([0, 1, 1, 2, 3])]
            self.R.put(f'#undef {n}\n'); self.lines.append(dict(k='undef', name=list(n.encode())))
            self.lines.append(define_line(self.R, n, dict(fn=False, va=False, params=[], body=body)))
    def cond(self, kw, junk):
        """#if / #elif with an expression; junk: anything may stand there"""
        r = self.r; self.hash(); self.R.put(kw)
        if junk and r.random() < .5:
            self.R.put(' ' + r.choice(JUNK_COND) + '\n'); self.lines.append(dict(k=kw, ts=[tk(')', True)])); return
        ts = self.R.tokens([(t, True) if i == 0 else (t, s) for i, (t, s) in enumerate(self.g.expr(self.r.choice([0, 1, 1, 2, 3])))], splice=r.random() < .3)
        self.lines.append(dict(k=kw, ts=ts)); self.tail()
    def group(self, d, skip):
        """a conditional; skip: certainly not read"""
        r = self.r; x = r.random(); known = None
        if x < .3:
            kw = r.choice(['ifdef', 'ifndef']); n = r.choice(NAMES)
            self.hash(); self.R.put(f'{kw} {n}'); self.tail(); self.lines.append(dict(k=kw, name=list(n.encode())))
        elif x < .5:
            known = r.choice([0, 1])
            self.hash(); self.R.put(f'if {known}'); self.tail(); self.lines.append(dict(k='if', ts=[tk(str(known), True)]))
        else: self.cond('if', skip)
        taken = known == 1
        self.block(d - 1, skip or known == 0)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            self.cond('elif', skip or taken)
            self.block(d - 1, skip or taken)
        if r.random() < .6:
            self.hash(); self.R.put('else'); self.tail(); self.lines.append(dict(k='else'))
            self.block(d - 1, skip or taken)
        if r.random() < self.g.broken: self.g.broken = 0; return
        self.hash(); self.R.put('endif'); self.tail(); self.lines.append(dict(k='endif'))
    def block(self, d, skip=False):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3]) if d < 3 else r.choice([3, 4, 5])):
            x = r.random()
            if skip and x < .5: self.junk()
            elif x < .35: self.text()
            elif x < .4: self.spliced()
            elif x < .55: self.define()
            elif x < .8 and d > 0: self.group(d, skip)
            elif x < .95: self.include()
            elif x < .98:
                n = r.choice([1, 10, 100, 5000]); self.hash(); ln = self.R.line
                self.R.put(f'line {n}\n'); self.lines.append(dict(k='line', n=n, ln=ln))
            else: self.hash(); self.R.put('\n'); self.lines.append(dict(k='null'))
        if r.random() < self.g.broken:
            self.g.broken = 0; kw = r.choice(['else', 'endif', 'elif', 'error'])
            self.R.put(f'#{kw}' + (' 1' if kw == 'elif' else '') + '\n'); self.lines.append(dict(k=kw, ts=[tk('1', True)]) if kw == 'elif' else dict(k=kw))
    def include(self):
        r, g = self.r, self.g
        if self.depth >= 3: return
        name = r.choice(['a.h', 'b.h', 'sub/c.h', 'c.h', 'd.h'])
        if r.random() < .02: name = 'none.h'
        self.hash(); x = r.random()
        if x < .15:
            R0 = self.R
            R0.text = R0.text[:R0.text.rfind('\n') + 1]
            m = 'INCFILE'
            self.lines.append(define_line(R0, m, dict(fn=False, va=False, params=[], body=[(f'"{name}"', False)])))
            R0.put(f'#include {m}\n#undef {m}\n')
            self.lines.append(dict(k='include', ts=[tk(m, True, 0)], name=[], quoted=True))
            self.lines.append(dict(k='undef', name=list(m.encode())))
        else:
            q = x < .65
            self.R.put('include' + r.choice(['', ' ', '\t']) + (f'"{name}"' if q else f'<{name}>')); self.tail()
            self.lines.append(dict(k='include', ts=[], name=list(name.encode()), quoted=q))

def gen_case(r):
    g = Gen(r, None); g.n = 0; g.broken = .02 if r.random() < .3 else 0
    g.expr_nodef = lambda d: [t for t in g.expr(d)] if False else _nodef(g, d)
    files = []
    def one(path, depth):
        f = FileGen(g, depth)
        style = r.random()
        if depth and style < .35:
            guard = 'G_' + path.replace('/', '_').replace('.', '_')
            f.R.put(f'#ifndef {guard}\n'); f.lines.append(dict(k='ifndef', name=list(guard.encode())))
            f.lines.append(define_line(f.R, guard, dict(fn=False, va=False, params=[], body=[])))
            f.block(2); f.R.put('#endif\n'); f.lines.append(dict(k='endif'))
        elif depth and style < .7:
            f.R.put('#pragma once\n'); f.lines.append(dict(k='once')); f.block(2)
        else: f.block(4 if not depth else 2)
        if r.random() < .1 and f.R.text.endswith('\n') and f.lines and f.lines[-1]['k'] == 'text': f.R.text = f.R.text[:-1]
        files.append((path, f))
    one('m.c', 0)
    paths = ['a.h', 'b.h', 'c.h', 'd.h', 'sub/c.h', 'i1/a.h', 'i1/c.h', 'i2/a.h', 'i2/b.h', 'i2/d.h', 'i1/sub/c.h', 'i1/b.h', 'i2/c.h', 'sub/d.h', 'i2/sub/c.h']
    for k, p in enumerate(paths):
        if r.random() < .75: one(p, r.choice([1, 2, 3]))
    order = r.choice([['i1/', 'i2/'], ['i2/', 'i1/'], ['i1/'], ['i1/', 'sub/', 'i2/']])
    case = dict(files=[dict(path=list(p.encode()), lines=f.lines) for p, f in files], inc=[list(o.encode()) for o in order])
    return case, files[0][1].R.text, [(p, f.R.text) for p, f in files], [x for o in order for x in ('-I', o.rstrip('/'))]

def _nodef(g, d):
    while True:
        e = g.expr(d)
        if not any(t == 'defined' for t, _ in e): return e

def main(chk):
    b = None if os.environ.get('VERIF_DEV_TARGETS') else H.build()
    r = chk.rng
    n = 500 if chk.quick() else 9000
    for lo in range(0, n, 500):
        cs = [gen_case(r) for _ in range(min(500, n - lo))]
        reps = H.spec_cases('CPP', [c[0] for c in cs], chk)
        chk.add('cases', len(cs))
        check_outputs(chk, b, [c[0] for c in cs], [c[1] for c in cs], reps, 'conditionals', [c[2] for c in cs], [c[3] for c in cs])
        if lo == 0: chk.sample({'source': cs[0][1][:1500], 'expected': spec_tokens(reps[0])[:60]})
        if len(chk.viol) > 12: break
