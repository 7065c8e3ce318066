"""C10: macro expansion (spec/CPP.tla)."""
import os
import harness as H
import pptok
from pptok import tk

OBJ = ['A', 'B', 'C', 'D']; FUN = ['f', 'g', 'h', 'k']; VAR = ['v', 'w']
IDS = ['a', 'b', 'x', 'y1', '_z', 'defined']; NUMS = ['0', '1', '23', '4u', '0x1F', '1.5']
OPS = ['+', '-', '*', '<', '>', '=', '.', '&', '|', '!', '[', ']', '{', '}', '?', ':', ';', '/', '%', '<=', '++', '->', '==']
STRS = ['"s"', '"q\\"r"', "'c'", "'\\n'", '"a\\\\b"', '""', "'\"'", "'\\''", '"  "']

class Gen:
    def __init__(self, r): self.r, self.macs = r, {}
    def sp(self, p=0.5): return self.r.random() < p
    def plain(self):
        r = self.r; x = r.random()
        return r.choice(IDS) if x < .45 else r.choice(NUMS) if x < .65 else r.choice(OPS) if x < .88 else r.choice(STRS)
    def call(self, name, depth, leaf):
        """an invocation: name ( args )"""
        r = self.r; m = self.macs.get(name)
        n = len(m['params']) if m else r.choice([1, 2]); va = m['va'] if m else False
        if r.random() < 0.01: n += r.choice([1, -1])
        n += r.choice([0, 1, 1, 2, 3]) if va else 0
        toks = [(name, self.sp()), ('(', self.sp(.15))]
        for i in range(max(n, 0)):
            if i: toks.append((',', self.sp(.15)))
            toks += self.arg(depth - 1, leaf)
        if not n and r.random() < .1: toks += []
        return toks + [(')', self.sp(.15))]
    def arg(self, depth, leaf):
        r = self.r; x = r.random()
        if x < .1: return []
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])): out += self.item(depth, leaf)
        return out
    def item(self, depth, leaf):
        r = self.r; x = r.random()
        if x < .25 and leaf: return [(r.choice(leaf), self.sp())]
        if x < .4: return [(r.choice(OBJ), self.sp())]
        if x < .5: return [(r.choice(FUN + VAR), self.sp())]
        if x < .72 and depth > 0: return self.call(r.choice(FUN + FUN + VAR), depth, leaf)
        if x < .8 and depth > 0:
            return [('(', self.sp())] + self.arg(depth - 1, leaf) + ([(',', False)] + self.arg(depth - 1, leaf) if r.random() < .3 else []) + [(')', self.sp(.2))]
        return [(self.plain(), self.sp())]
    def body(self, params, va, fn):
        r = self.r; ps = params + (['__VA_ARGS__'] if va else []); out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            x = r.random()
            if fn and ps and x < .15: out += [('#', self.sp()), (r.choice(ps), self.sp(.3))]
            elif x < .38:
                chain = []
                for i in range(r.choice([2, 2, 2, 3])):
                    y = r.random()
                    o = r.choice(ps) if fn and ps and y < .6 else r.choice(IDS + ['A', 'f', 'B']) if y < .85 or not i else r.choice(['1', '0', '+', '<'])
                    if i: chain.append(('##', self.sp()))
                    chain.append((o, self.sp()))
                out += chain
            elif va and x < .46: out += [(r.choice(IDS), True), (',', False), ('##', True), ('__VA_ARGS__', True)]
            elif fn and ps and x < .6: out.append((r.choice(ps), self.sp()))
            elif x < .63: out.append((r.choice(['(', ')', ',']), self.sp()))
            elif x < .66: out += [(r.choice(FUN), self.sp()), ('(', False)]
            else: out += self.item(1, ps if fn else [])
        return out
    def define(self, name):
        r = self.r; fn = name in FUN or name in VAR; va = name in VAR
        params = r.sample(['p', 'q', 'a', 'x'], r.choice([0, 1, 1, 2, 2, 3] if not va else [0, 1, 1, 2])) if fn else []
        self.macs[name] = dict(fn=fn, va=va, params=params, body=[])
        self.macs[name]['body'] = self.body(params, va, fn)
    def weight(self, name, seen=(), args=1):
        if name in seen or name not in self.macs: return 1
        m = self.macs[name]; w = 1
        for t, _ in m['body']: w += self.weight(t, seen + (name,)) if t in self.macs else 3 if t in m['params'] or t == '__VA_ARGS__' else 1
        return w

def define_line(R, name, m):
    R.put('#' + R.r.choice(['', ' ']) + 'define ' + name)
    if m['fn']: R.put('(' + (R.r.choice([',', ', ']).join(m['params'] + (['...'] if m['va'] else []))) + ')')
    R.put(' ')
    body = R.tokens(m['body'], body=True, lead=False)
    R.put('\n')
    return dict(k='define', name=list(name.encode()), fn=m['fn'], va=m['va'], params=[list(p.encode()) for p in m['params']], body=body)

def gen_case(r):
    while True:
        g = Gen(r); R = pptok.Render(r); lines = []
        names = r.sample(OBJ, r.choice([1, 2, 3])) + r.sample(FUN, r.choice([1, 2, 3])) + r.sample(VAR, r.choice([0, 0, 1]))
        r.shuffle(names)
        for n in names: g.define(n)
        if sum(g.weight(n) for n in names) > 120: continue
        for n in names: lines.append(define_line(R, n, g.macs[n]))
        for _ in range(r.choice([1, 2, 3])):
            for _ in range(r.choice([1, 2, 3])):
                toks = []
                for _ in range(r.choice([1, 2, 3])): toks += g.item(2, None)
                if toks[0][0] == '#' : continue
                cuts = [0] + sorted(i for i in range(1, len(toks)) if r.random() < .06) + [len(toks)]
                for a, b in zip(cuts, cuts[1:]):
                    seg = toks[a:b]
                    if not seg: continue
                    ts = R.tokens(seg, lead=r.random() < .2); ts[0]['sp'] = True
                    lines.append(dict(k='text', ts=ts)); R.put(r.choice(['', '', ' ', ' // c "']) + '\n')
            lines.append(dict(k='text', ts=[tk(';', True, R.line)])); R.put(';\n')
            if r.random() < .4:
                n = r.choice(names)
                R.put(f'#undef {n}\n'); lines.append(dict(k='undef', name=list(n.encode())))
                if r.random() < .8:
                    g.define(n)
                    if g.weight(n) > 60: g.macs[n]['body'] = [('z', False)]
                    lines.append(define_line(R, n, g.macs[n]))
                else: g.macs.pop(n, None)
        return dict(files=[dict(path=list(b'm.c'), lines=lines)], inc=[]), R.text

def gen_table(r):
    """a long history of definitions and removals over many names, probed throughout"""
    R = pptok.Render(r); lines = []
    pre = r.choice(['N', 'LONG_PREFIX_', 'x']); n = r.choice([40, 90, 180])
    nm = lambda i: f'{pre}{i}'
    for step in range(n * 2):
        i = r.randrange(n); x = r.random()
        if x < .55:
            body = [(r.choice([str(step), nm(r.randrange(n)), f'v{step}']), False)]
            lines.append(define_line(R, nm(i), dict(fn=False, va=False, params=[], body=body)))
        elif x < .75: R.put(f'#undef {nm(i)}\n'); lines.append(dict(k='undef', name=list(nm(i).encode())))
        else:
            ts = R.tokens([(nm(r.randrange(n)), True) for _ in range(4)], lead=False, splice=False); ts[0]['sp'] = True
            lines.append(dict(k='text', ts=ts)); R.put('\n')
            lines.append(dict(k='text', ts=[tk(';', True, R.line)])); R.put(';\n')
    return dict(files=[dict(path=list(b'm.c'), lines=lines)], inc=[]), R.text

def spec_tokens(rep): return [(bytes(t['t']).decode(), t['lz']) for t in rep['out']]
def squash(s): return ''.join(s.split())
def agree(exp, got):
    return len(exp) == len(got) and all(a == b or (lz and squash(a) == squash(b)) for (a, lz), b in zip(exp, got))

def cpp_cmd(b):
    if os.environ.get('VERIF_DEV_TARGETS') == 'gcc': return ['gcc', '-E', '-std=gnu11', '-w', '-undef']
    if os.environ.get('VERIF_DEV_TARGETS') == 'clang': return ['clang', '-E', '-std=gnu11', '-w', '-undef']
    return [f'{b}/cpp']

def check_outputs(chk, b, cases, texts, reps, what, extra_files=None, args=()):
    d = H.scratch()
    for i, (c, text, rep) in enumerate(zip(cases, texts, reps)):
        e = rep['err']
        if e in ('ub', 'unspecified', 'deep') or e.startswith('arg:') or e == 'unterminated' : chk.add('outside_c_rules', 1); continue
        dd = os.path.join(d, f'{what}{i}'); os.makedirs(dd, exist_ok=True)
        for path, t in (extra_files[i] if extra_files else [('m.c', text)]):
            p = os.path.join(dd, path); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f: f.write(t)
        cmd = cpp_cmd(b) + list(args[i] if args else []) + ['m.c']
        rc, out, err = H.run(cmd, cwd=dd)[:3]
        if isinstance(out, bytes): out = out.decode('latin1')
        if isinstance(err, bytes): err = err.decode('latin1')
        chk.add('traces_validated_against_impl', 1)
        exp = spec_tokens(rep)
        src = {p.replace('/', '_'): t for p, t in extra_files[i]} if extra_files else {'m.c': text}
        if args: src['options'] = ' '.join(args[i])
        if e:
            chk.add('rejected', 1)
            if rc == 0: chk.violation(f'{what} accepted', f'{what} {i}: the specification rejects it ({e}), cpp accepts it\n{text[:1500]}', src)
            elif not isinstance(rc, int) or rc < 0: chk.violation(f'{what} crash', f'{what} {i}: cpp dies with {rc} instead of reporting {e}', src)
        else:
            got = pptok.output_tokens(out) if rc == 0 else None
            if got is None: chk.violation(f'{what} failed', f'{what} {i}: cpp fails ({rc}): {err[:300]}', {**src, 'expected': ' '.join(t for t, _ in exp)})
            elif not agree(exp, got):
                k = next((j for j in range(min(len(exp), len(got))) if not agree([exp[j]], [got[j]])), min(len(exp), len(got)))
                chk.violation(f'{what} tokens', f'{what} {i}: token {k}: specification {[t for t, _ in exp[max(0, k - 3):k + 6]]}, cpp {got[max(0, k - 3):k + 6]}',
                              {**src, 'expected': ' '.join(t for t, _ in exp), 'output': out})
        chk.add('tokens', len(exp))

def main(chk):
    b = None if os.environ.get('VERIF_DEV_TARGETS') else H.build()
    r = chk.rng
    n = 700 if chk.quick() else 14000
    for lo in range(0, n, 700):
        cs = [gen_case(r) for _ in range(min(700, n - lo))] + [gen_table(r) for _ in range(8)]
        reps = H.spec_cases('CPP', [c for c, _ in cs], chk)
        chk.add('cases', len(cs))
        check_outputs(chk, b, [c for c, _ in cs], [t for _, t in cs], reps, 'macros')
        if lo == 0: chk.sample({'source': cs[0][1], 'expected': spec_tokens(reps[0])})
        if len(chk.viol) > 12: break
