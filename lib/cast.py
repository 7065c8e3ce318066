"""C abstract syntax shared by the generators, the specification (as JSON) and the C printer."""
import re, struct
SIGNED = {'c', 'sc', 's', 'i', 'l', 'll'}
UNSIGNED = {'b', 'uc', 'us', 'u', 'ul', 'ull'}
INTS = ['b', 'c', 'sc', 'uc', 's', 'us', 'i', 'u', 'l', 'ul', 'll', 'ull']
FLOATS = ['f', 'd']
CNAME = dict(b='_Bool', c='char', sc='signed char', uc='unsigned char', s='short', us='unsigned short', i='int',
             u='unsigned int', l='long', ul='unsigned long', ll='long long', ull='unsigned long long',
             f='float', d='double', ld='long double', v='void')
RANK = dict(b=0, c=1, sc=1, uc=1, s=2, us=2, i=3, u=3, l=4, ul=4, ll=5, ull=5)

def T(k): return {'k': k}
def P(t): return {'k': 'p', 'to': t}
def A(t, n): return {'k': 'a', 'of': t, 'n': n}
def ST(i): return {'k': 'st', 'id': i}
def FN(r, ps, va=False): return {'k': 'fn', 'r': r, 'ps': ps, 'va': va}
INT = T('i')

def size(tg, k):
    if k in ('c', 'sc', 'uc'): return 1
    if k in ('s', 'us'): return 2
    if k in ('b', 'i', 'u', 'f'): return 4
    if k in ('l', 'ul', 'p'): return 4 if tg == 'wasm' else 8
    return 8

def is_int(t): return t['k'] in RANK
def is_float(t): return t['k'] in ('f', 'd', 'ld')
def is_arith(t): return is_int(t) or is_float(t)
def promote(t): return T('i') if is_int(t) and RANK[t['k']] < 3 else t
def uac(tg, a, b):
    for k in ('ld', 'd', 'f'):
        if k in (a['k'], b['k']): return T(k)
    a, b = promote(a)['k'], promote(b)['k']
    if a == b: return T(a)
    if (a in SIGNED) == (b in SIGNED): return T(a if RANK[a] > RANK[b] else b)
    u, s = (b, a) if a in SIGNED else (a, b)
    if RANK[u] >= RANK[s]: return T(u)
    if size(tg, s) > size(tg, u): return T(s)
    return T({'i': 'u', 'l': 'ul', 'll': 'ull'}[s])

def limbs(n):
    n &= (1 << 64) - 1
    return [n & 0xffff, n >> 16 & 0xffff, n >> 32 & 0xffff, n >> 48 & 0xffff]
def unlimb(w): return w[0] | w[1] << 16 | w[2] << 32 | w[3] << 48

def irange(tg, k):
    n = 8 * size(tg, k)
    if k == 'b': return 0, 1
    return (-(1 << n - 1), (1 << n - 1) - 1) if k in SIGNED else (0, (1 << n) - 1)

# ------------------------------------------------------------------ expressions
def im(*es):
    return max([e.get('im', 0) for e in es] or [0])
def withim(d, v):
    if v: d['im'] = v
    return d
def Num(v, t=INT, tg='x64'):
    return {'k': 'n', 't': t, 'w': limbs(v), 'pv': v}
def Flt(v, t=T('d')):
    if t['k'] == 'f':
        bits = struct.unpack('<I', struct.pack('<f', v))[0]
    else:
        bits = struct.unpack('<Q', struct.pack('<d', v))[0]
    return {'k': 'f', 't': t, 'w': limbs(bits), 'pb': bits}
def FltBits(bits, t=T('d'), lit=False):
    return {'k': 'f', 't': t, 'w': limbs(bits), 'pb': bits, 'lit': lit}
def V(n): return {'k': 'v', 'n': n}
def Un(op, a): return withim({'k': 'u', 'op': op, 'a': a}, im(a))
def Bin(op, a, b): return withim({'k': 'b', 'op': op, 'a': a, 'b': b}, im(a, b))
def Land(a, b): return withim({'k': 'land', 'a': a, 'b': b}, im(a, b))
def Lor(a, b): return withim({'k': 'lor', 'a': a, 'b': b}, im(a, b))
def Cond(c, a, b): return withim({'k': 'c', 'c': c, 'a': a, 'b': b}, im(c, a, b))
def Comma(a, b): return withim({'k': ',', 'a': a, 'b': b}, im(a, b))
def Asg(a, b): return {'k': '=', 'a': a, 'b': b, 'im': 2}
def OpAsg(op, a, b): return {'k': 'op=', 'op': op, 'a': a, 'b': b, 'im': 2}
def Inc(op, pre, a): return {'k': 'inc', 'op': op, 'pre': pre, 'a': a, 'im': 2}
def Cast(t, a): return withim({'k': 'cast', 't': t, 'a': a}, im(a))
def Addr(a): return withim({'k': 'addr', 'a': a}, im(a))
def Deref(a): return withim({'k': '*', 'a': a}, im(a))
def Idx(a, b): return withim({'k': '[]', 'a': a, 'b': b}, im(a, b))
def Dot(a, m): return withim({'k': '.', 'a': a, 'm': m}, im(a))
def Arrow(a, m): return withim({'k': '->', 'a': a, 'm': m}, im(a))
def Call(f, args):
    return {'k': 'call', 'f': f if isinstance(f, dict) else V(f), 'a': args, 'im': 2 if im(*args) == 2 else 1}
def SzT(t): return {'k': 'sz', 't': t}
def SzE(a): return {'k': 'sze', 'a': a}
def Str(b): return {'k': 'str', 'b': list(b)}
def CL(t, i): return {'k': 'cl', 't': t, 'i': i, 'im': 1}
def VaArg(t): return {'k': 'va', 't': t, 'im': 2}

# ------------------------------------------------------------------ initializers
NONE = {'k': 'none'}
def IE(e): return {'k': 'ie', 'e': e}
def IL(items): return {'k': 'il', 'l': [it if 'i' in it and 'd' in it else {'d': [], 'i': it} for it in items]}
def Item(d, i): return {'d': d, 'i': i}
def DM(m): return {'m': m}
def DX(x): return {'x': x}

# ------------------------------------------------------------------ statements
def labels(*ss):
    r = []
    for s in ss:
        if s: r += s.get('ls', [])
    return r
def wl(d, *ss):
    l = labels(*ss)
    if l: d['ls'] = l
    return d
def E(e): return {'k': 'e', 'e': e}
def Pr(e, c='i', sp=None):
    d = {'k': 'pr', 'e': e, 'c': c}
    if sp: d['sp'] = sp
    return d
def PrT(e, t): return Pr(e, t['k'] if t['k'] in ('f', 'd') else 'd' if t['k'] == 'ld' else 'i')
def Sp(e, text): return dict(e, sp=text)
def Decl(n, t, i=NONE, static=None, q=''):
    d = {'k': 'decl', 'n': n, 't': t, 'i': i}
    if static: d['sg'] = static
    if q: d['q'] = q
    return d
def VA(t, n, vx): return dict(A(t, n), vx=vx)           # array of n elements whose dimension is printed as the run-time expression vx
def Vla(n, t, e): return {'k': 'decl', 'n': n, 't': t, 'i': NONE, 'vn': e}
def Block(*l): return wl({'k': 'block', 'l': list(l)}, *l)
def If(c, a, b=None):
    d = {'k': 'if', 'c': c, 'a': a}
    if b is not None: d['b'] = b
    return wl(d, a, b)
def While(c, b): return wl({'k': 'while', 'c': c, 'b': b}, b)
def Do(b, c): return wl({'k': 'do', 'c': c, 'b': b}, b)
def For(i, c, st, b):
    d = {'k': 'for', 'b': b}
    if i: d['i'] = i
    if c: d['c'] = c
    if st: d['st'] = st
    return wl(d, b)
def Switch(c, body):
    cases, dflt = [], ['']
    def walk(s):
        if s['k'] == 'switch': return
        if s['k'] == 'lab':
            if 'cv' in s: cases.append({'v': limbs(s['cv']), 'l': s['l']})
            elif s.get('df'): dflt[0] = s['l']
        for key in ('a', 'b'):
            if isinstance(s.get(key), dict) and s['k'] in ('if', 'while', 'do', 'for', 'lab'): walk(s[key])
        for x in s.get('l', []) if s['k'] == 'block' else []: walk(x)
    walk(body)
    return wl({'k': 'switch', 'c': c, 'b': body, 'cases': cases, 'dflt': dflt[0]}, body)
_cnt = [0]
def fresh(p='L'):
    _cnt[0] += 1
    return f'{p}{_cnt[0]}'
def Case(v, b, e=None): return {'k': 'lab', 'l': fresh('case'), 'cv': v, 'b': b, 'ls': [], '_ce': e} | {}
def Lab(l, b):
    return {'k': 'lab', 'l': l, 'b': b, 'ls': [l] + labels(b)}
def CaseS(v, b, expr=None):
    l = fresh('$case')
    d = {'k': 'lab', 'l': l, 'cv': v, 'b': b, 'ls': [l] + labels(b)}
    if expr is not None: d['ce'] = expr
    return d
def DefaultS(b):
    l = fresh('$case')
    return {'k': 'lab', 'l': l, 'df': True, 'b': b, 'ls': [l] + labels(b)}
def Goto(l): return {'k': 'goto', 'l': l}
BRK, CONT, EMPTY = {'k': 'brk'}, {'k': 'cont'}, {'k': 'empty'}
def Ret(e=None): return {'k': 'ret', 'e': e} if e is not None else {'k': 'ret'}

# ------------------------------------------------------------------ programs
class Prog:
    def __init__(self, tg='x64'):
        self.tg = tg
        self.structs = []      # dicts u, m
        self.globs = []        # dicts n t i (+ q: qualifiers/static)
        self.funcs = {}
        self.fnames = []
        self.main = []
        self.meta = {}
        self.extra = ''        # raw text after the type definitions
        self.pre = ''          # raw text before everything
    def struct(self, members, union=False):
        self.structs.append({'u': union, 'm': [{'n': m[0], 't': m[1], 'w': m[2] if len(m) > 2 else -1} for m in members]})
        return ST(len(self.structs))
    def glob(self, n, t, i=NONE, q=''):
        self.globs.append({'n': n, 't': t, 'i': i, 'q': q})
        return V(n)
    def func(self, n, r, ps, body, va=False, q=''):
        self.fnames.append(n)
        self.funcs[n] = {'r': r, 'ps': [{'n': a, 't': t} for a, t in ps], 'va': va, 'body': body, 'q': q}
        return V(n)
    def static_local(self, n, t, i=NONE, q='static'):
        g = fresh('st_')
        self.globs.append({'n': g, 't': t, 'i': i, 'q': 'hidden'})
        return {'k': 'decl', 'n': n, 't': t, 'i': NONE, 'sg': g, 'si': i, 'q': q}
    def spec(self):
        return {'tg': self.tg, 'structs': self.structs, 'globs': strip(self.globs), 'funcs': strip(self.funcs) or {'_': 0},
                'fnames': self.fnames, 'main': strip(self.main)}

_DROP = {'arr', 'si', 'sp', 'pv', 'pb', 'lit', 'q', 'cv', 'ce', 'df', 'cexpr', '_ce', 'vx', 'ax'}
def strip(o):
    if isinstance(o, dict): return {k: strip(v) for k, v in o.items() if k not in _DROP}
    if isinstance(o, list): return [strip(x) for x in o]
    return o

# ------------------------------------------------------------------ C printer
def num_c(v, k, tg='x64'):
    if k in ('i', 'u', 'l', 'ul', 'll', 'ull'):
        suf = {'i': '', 'u': 'U', 'l': 'L', 'ul': 'UL', 'll': 'LL', 'ull': 'ULL'}[k]
        if v >= 0: return f'{v}{suf}'
        lo = irange(tg, k)[0]
        return f'({v + 1}{suf}-1{suf})' if v == lo else f'(-{-v}{suf})'
    if v < 0: return f'(({CNAME[k]})-{-v})'
    return f'(({CNAME[k]}){v})'

def flt_c(e):
    b, k = e['pb'], e['t']['k']
    if k == 'f':
        x = struct.unpack('<f', struct.pack('<I', b))[0]
        special = (b >> 23 & 255) == 255
    else:
        x = struct.unpack('<d', struct.pack('<Q', b))[0]
        special = (b >> 52 & 2047) == 2047
    if special or (x == 0 and b) or e.get('bits'):
        return f'b2f_(0x{b:x}U)' if k == 'f' else f'b2d_(0x{b:x}ULL)'
    r = repr(abs(x))
    if 'e' not in r and '.' not in r: r += '.0'
    return ('(-%s%s)' if x < 0 else '%s%s') % (r, 'f' if k == 'f' else '')

class CP:
    """C printer for a program."""
    def __init__(self, prog):
        self.p = prog
    def base(self, t):
        if t['k'] == 'st': return ('union U%d' if self.p.structs[t['id'] - 1]['u'] else 'struct S%d') % t['id']
        return CNAME[t['k']]
    def decl(self, t, n, pnames=None):
        k = t['k']
        if k == 'p' and 'ax' in t: return self.decl(t['to'], '%s[%s]' % (n, t['ax']))     # a parameter declared as an array
        if k == 'p':
            inner = '*' + n
            if t['to']['k'] in ('a', 'fn'): inner = '(' + inner + ')'
            return self.decl(t['to'], inner)
        if k == 'a': return self.decl(t['of'], '%s[%s]' % (n, t['vx'] if 'vx' in t else t['n'] if t['n'] >= 0 else ''))
        if k == 'fn':
            ps = [self.decl(x, (pnames[i] if pnames else '')) for i, x in enumerate(t['ps'])]
            if t['va']: ps.append('...')
            return self.decl(t['r'], '%s(%s)' % (n, ', '.join(ps) or 'void'))
        return (self.base(t) + ' ' + n).rstrip()
    def tname(self, t): return self.decl(t, '')
    def e(self, e):
        k = e['k']
        if 'sp' in e: return e['sp']
        if k == 'n': return num_c(e['pv'], e['t']['k'], self.p.tg)
        if k == 'f': return flt_c(e)
        if k == 'v': return e['n']
        if k == 'u': return f"({e['op']}{self.e(e['a'])})" if not (e['op'] in '+-' and self.e(e['a'])[0] in '+-') else f"({e['op']} {self.e(e['a'])})"
        if k == 'b': return f"({self.e(e['a'])} {e['op']} {self.e(e['b'])})"
        if k == 'land': return f"({self.e(e['a'])} && {self.e(e['b'])})"
        if k == 'lor': return f"({self.e(e['a'])} || {self.e(e['b'])})"
        if k == 'c': return f"({self.e(e['c'])} ? {self.e(e['a'])} : {self.e(e['b'])})"
        if k == ',': return f"({self.e(e['a'])}, {self.e(e['b'])})"
        if k == '=': return f"({self.e(e['a'])} = {self.e(e['b'])})"
        if k == 'op=': return f"({self.e(e['a'])} {e['op']}= {self.e(e['b'])})"
        if k == 'inc':
            o = e['op'] * 2
            return f"({o}{self.e(e['a'])})" if e['pre'] else f"({self.e(e['a'])}{o})"
        if k == 'cast': return f"(({self.tname(e['t'])}){self.e(e['a'])})"
        if k == 'addr': return f"(&{self.e(e['a'])})"
        if k == '*': return f"(*{self.e(e['a'])})"
        if k == '[]': return f"{self.e(e['a'])}[{self.e(e['b'])}]"
        if k == '.': return f"{self.e(e['a'])}.{e['m']}"
        if k == '->': return f"{self.e(e['a'])}->{e['m']}"
        if k == 'call': return f"{self.e(e['f'])}({', '.join(self.e(x) for x in e['a'])})"
        if k == 'sz': return f"sizeof({self.tname(e['t'])})"
        if k == 'sze': return f"sizeof({self.e(e['a'])})"
        if k == 'str': return cstr(e['b'])
        if k == 'cl': return f"({self.tname(e['t'])}){self.init(e['i'])}"
        if k == 'va': return f"va_arg(ap_, {self.tname(e['t'])})"
        raise KeyError(k)
    def init(self, i):
        if i['k'] == 'ie': return self.e(i['e'])
        out = []
        for it in i['l']:
            d = ''.join('.' + x['m'] if 'm' in x else '[%d]' % x['x'] for x in it['d'])
            out.append((d + ' = ' if d else '') + self.init(it['i']))
        return '{' + ', '.join(out) + '}'
    def fe(self, e):
        s = self.e(e)
        return s[1:-1] if s.startswith('(') and s.endswith(')') and balanced(s[1:-1]) else s
    def s(self, s, ind=1):
        sp = '  ' * ind
        k = s['k']
        if 'sp' in s: return sp + s['sp'] + '\n'
        if k == 'e': return sp + self.fe(s['e']) + ';\n'
        if k == 'pr': return sp + self.pr(s) + '\n'
        if k == 'decl':
            q = (s['q'] + ' ') if s.get('q') else ''
            if 'sg' in s: return f"{sp}{q}{self.decl(s['t'], s['n'])}{'' if s['si']['k'] == 'none' else ' = ' + self.init(s['si'])};\n"
            if 'vn' in s: return f"{sp}{self.decl(s['t'], s['n'] + '[' + self.e(s['vn']) + ']')};\n"
            return f"{sp}{q}{self.decl(s['t'], s['n'])}{'' if s['i']['k'] == 'none' else ' = ' + self.init(s['i'])};\n"
        if k == 'block': return sp + '{\n' + ''.join(self.s(x, ind + 1) for x in s['l']) + sp + '}\n'
        if k == 'if':
            a = s['a']
            if 'b' in s and a['k'] in ('if', 'while', 'for', 'lab'):      # no dangling else
                r = f"{sp}if ({self.fe(s['c'])}) {{\n" + self.body(a, ind) + sp + '}\n'
            else:
                r = f"{sp}if ({self.fe(s['c'])})\n" + self.body(a, ind)
            if 'b' in s: r += f'{sp}else\n' + self.body(s['b'], ind)
            return r
        if k == 'while': return f"{sp}while ({self.fe(s['c'])})\n" + self.body(s['b'], ind)
        if k == 'do': return f'{sp}do\n' + self.body(s['b'], ind) + f"{sp}while ({self.fe(s['c'])});\n"
        if k == 'for':
            i = self.s(s['i'], 0).strip() if 'i' in s else ';'
            c = self.fe(s['c']) if 'c' in s else ''
            st = self.fe(s['st']) if 'st' in s else ''
            return f'{sp}for ({i} {c}; {st})\n' + self.body(s['b'], ind)
        if k == 'switch': return f"{sp}switch ({self.fe(s['c'])})\n" + self.body(s['b'], ind)
        if k == 'lab':
            if 'cv' in s: h = 'case ' + (self.e(s['ce']) if 'ce' in s else case_c(s['cv']))
            elif s.get('df'): h = 'default'
            else: h = s['l']
            return f'{sp}{h}:\n' + self.s(s['b'], ind + 1)
        if k == 'goto': return f"{sp}goto {s['l']};\n"
        if k == 'brk': return sp + 'break;\n'
        if k == 'cont': return sp + 'continue;\n'
        if k == 'ret': return sp + ('return ' + self.fe(s['e']) if 'e' in s else 'return') + ';\n'
        if k == 'empty': return sp + ';\n'
        raise KeyError(k)
    def body(self, s, ind):
        return self.s(s, ind + (s['k'] != 'block'))
    def pr(self, s):
        c = s.get('c', 'i')
        e = s['e']
        if c == 'd': return f'prd_({self.e(e)});'
        if c == 'f': return f'prf_({self.e(e)});'
        return f'pr_((unsigned long long){self.e(e)});'
    def structs(self):
        out = ''
        for i, sd in enumerate(self.p.structs):
            if not sd.get('anon'): out += self.base(ST(i + 1)) + ' {\n' + self.fields(sd, 1) + '};\n'
        return out
    def fields(self, sd, ind):
        out = ''
        for m in sd['m']:
            if m['n'] == '' and m['t']['k'] == 'st':
                s2 = self.p.structs[m['t']['id'] - 1]
                out += '  ' * ind + ('union' if s2['u'] else 'struct') + ' {\n' + self.fields(s2, ind + 1) + '  ' * ind + '};\n'
            else: out += '  ' * ind + self.decl(m['t'], m['n']) + (f" : {m['w']}" if m['w'] >= 0 else '') + ';\n'
        return out
    def proto(self, n):
        f = self.p.funcs[n]
        return (f['q'] + ' ' if f.get('q') else '') + self.decl(FN(f['r'], [x['t'] for x in f['ps']], f['va']), n, [x['n'] for x in f['ps']])
    def func(self, n):
        f = self.p.funcs[n]
        if f['va']:
            last = f['ps'][-1]['n']
            return self.proto(n) + f' {{\n  va_list ap_; va_start(ap_, {last});\n' + self.s(f['body'], 1) + '}\n'
        b = self.s(f['body'], 0)
        return self.proto(n) + ' ' + b
    def program(self, taken=None, prelude=True):
        p = self.p
        out = PRELUDE if prelude else ''
        out += p.pre
        out += self.structs()
        out += p.extra
        for n in p.fnames: out += self.proto(n) + ';\n'
        for g in p.globs:
            if g.get('q') == 'hidden': continue
            out += (g['q'] + ' ' if g.get('q') else '') + self.decl(g['t'], g['n'])
            out += ('' if g['i']['k'] == 'none' else ' = ' + self.init(g['i'])) + ';\n'
        for n in p.fnames: out += self.func(n)
        out += 'int main(void) {\n'
        for i, s in enumerate(p.main):
            if taken is None or taken[i] >= 0: out += self.s(s)
        return out + '  fl_();\n  return 0;\n}\n'

    def units(self, taken=None, assign=None, n=2):
        """the same program split into n translation units; assign: function name -> unit (default 0)"""
        p = self.p
        assign = assign or {}
        head = self.structs() + p.extra + ''.join(self.proto(f) + ';\n' for f in p.fnames)
        gdef = gext = ''
        for g in p.globs:
            if g.get('q') == 'hidden': continue
            d = self.decl(g['t'], g['n'])
            gdef += d + ('' if g['i']['k'] == 'none' else ' = ' + self.init(g['i'])) + ';\n'
            gext += 'extern ' + d + ';\n'
        pre0 = re.sub(r'^static (?=[a-z].*[({])', '', PRELUDE, flags=re.M).replace('static char ob_[4096]; static int on_;', 'char ob_[4096]; int on_;')
        out = []
        for u in range(n):
            t = (pre0 if u == 0 else PRELUDE_EXT) + p.pre + head + (gdef if u == 0 else gext)
            for f in p.fnames:
                if assign.get(f, 0) == u: t += self.func(f)
            if u == 0:
                t += 'int main(void) {\n'
                for i, s in enumerate(p.main):
                    if taken is None or taken[i] >= 0: t += self.s(s)
                t += '  fl_();\n  return 0;\n}\n'
            out.append(t)
        return out

def case_c(v):
    if -(1 << 31) <= v < (1 << 31): return num_c(v, 'i')
    if v < (1 << 32) and v >= 0: return num_c(v, 'u')
    return num_c(v, 'll' if v < (1 << 63) else 'ull')

def balanced(s):
    d = 0
    inq = None
    i = 0
    while i < len(s):
        c = s[i]
        if inq:
            if c == '\\': i += 1
            elif c == inq: inq = None
        elif c in '"\'': inq = c
        elif c == '(': d += 1
        elif c == ')':
            d -= 1
            if d < 0: return False
        i += 1
    return d == 0

def cstr(b):
    return '"' + ''.join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else '\\%03o' % c for c in b) + '"'

PRELUDE = r'''
#include <stdarg.h>
#include <unistd.h>
typedef unsigned long long u64_;
static char ob_[4096]; static int on_;
static void fl_(void) { if (on_ > 0) write(1, ob_, on_); on_ = 0; }
static void hx_(int c, u64_ v) {
  if (on_ > 4000) fl_();
  ob_[on_++] = c;
  for (int i = 60; i >= 0; i -= 4) { int d = (int)(v >> i) & 15; ob_[on_++] = d < 10 ? '0' + d : 'a' + d - 10; }
  ob_[on_++] = '\n';
}
static void pr_(u64_ v) { hx_('i', v); }
union D_ { u64_ u; double d; unsigned int w; float f; };
static void prd_(double d) { union D_ x; x.d = d; hx_('d', x.u); }
static void prf_(float f) { union D_ x; x.f = f; hx_('f', x.w); }
static double b2d_(u64_ u) { union D_ x; x.u = u; return x.d; }
static float b2f_(unsigned int u) { union D_ x; x.w = u; return x.f; }
'''

PRELUDE_EXT = r'''
#include <stdarg.h>
typedef unsigned long long u64_;
void pr_(u64_ v); void prd_(double d); void prf_(float f); double b2d_(u64_ u); float b2f_(unsigned int u);
'''

def expected_text(out):
    r = []
    for o in out:
        w = unlimb(o['w'])
        c = 'd' if o['c'] == 'ld' else o['c']
        r.append(norm_line(f'{c}{w:016x}'))
    return r
def norm_line(l):
    try:
        w = int(l[1:], 16)
    except ValueError:
        return l
    if l[:1] == 'd' and (w >> 52 & 2047) == 2047 and w & ((1 << 52) - 1): return 'dnan'
    if l[:1] == 'f' and (w >> 23 & 255) == 255 and w & ((1 << 23) - 1): return 'fnan'
    return l
