"""C24: literals and tokens (spec/CLex.tla)."""
import os, re
import harness as H
import creplay
from cast import unlimb

DEV = bool(os.environ.get('VERIF_DEV_TARGETS'))
KIDX = dict(i=1, u=2, l=3, ul=4, ll=5, ull=6, f=7, d=8, ld=8)
TN = dict(i='int', u='unsigned int', l='long', ul='unsigned long', ll='long long', ull='unsigned long long', f='float', d='double')
GENERIC = ', '.join(f'{TN[k]}: {KIDX[k]}' for k in TN) + ', long double: 8' + ', default: 9'

def case_mix(r, s): return ''.join(r.choice([c.lower(), c.upper()]) for c in s)

def intlit(r):
    base = r.choice([10, 10, 16, 16, 8, 2])
    edge = r.choice([7, 8, 15, 16, 31, 32, 63, 64])
    x = r.random()
    if x < 0.6: v = (1 << edge) + r.choice([-2, -1, 0, 1])
    elif x < 0.8: v = r.getrandbits(r.randrange(1, 65))
    else: v = r.choice([0, 1, 7, 8, 9, 10, 255])
    v = max(0, min(v, (1 << 64) - 1))
    suf = r.choice(['', '', '', 'u', 'l', 'll', 'ul', 'lu', 'ull', 'llu'])
    if base == 10 and 'u' not in suf and v >= 1 << 63: suf = r.choice(['u', 'ul', 'ull', 'llu'])
    if 'll' in suf: suf = suf.replace('ll', r.choice(['ll', 'LL']))
    suf = suf.replace('u', r.choice('uU')) if 'L' in suf or 'll' in suf else case_mix(r, suf)
    if base == 10: d = str(v)
    elif base == 16: d = r.choice(['0x', '0X']) + '0' * r.choice([0, 0, 1, 5]) + case_mix(r, '%x' % v)
    elif base == 8: d = '0' * r.choice([1, 1, 3]) + '%o' % v
    else: d = r.choice(['0b', '0B']) + '0' * r.choice([0, 2]) + bin(v)[2:]
    return d + suf

def fltlit(r):
    """exactly representable in float (and so in double)"""
    m = r.choice([0, 1, 3, 5, 10, 255, r.getrandbits(r.randrange(1, 24))])
    j = r.choice([0, 0, 1, 2, 5, 9])            # value m / 2^j
    suf = r.choice(['', '', 'f', 'F', 'l', 'L'])
    if r.random() < 0.35:
        e = r.randrange(-20, 20)
        h = '%x' % m
        k = r.randrange(0, len(h) + 1)
        body = h[:k] + '.' + h[k:] if r.random() < 0.7 else h
        if body == '.': body = '.0'
        return r.choice(['0x', '0X']) + case_mix(r, body) + r.choice('pP') + r.choice(['', '-', '+']) + str(abs(e)) + suf
    n = m * 5 ** j                              # = m/2^j * 10^j
    s = str(n).rjust(j + 1, '0')
    ip, fp = (s[:-j], s[-j:]) if j else (s, '')
    style = r.random()
    if style < 0.3 and fp: return ip + '.' + fp + '0' * r.choice([0, 1, 4]) + suf
    if style < 0.5 and int(ip) == 0 and fp: return '.' + fp + suf
    # scientific: shift the decimal point
    x = r.randrange(-4, 5)
    digs = (ip + fp).lstrip('0') or '0'
    pt = r.randrange(0, len(digs) + 1)
    a, b = digs[:pt], digs[pt:]
    e = len(digs) - pt - j                      # value = digs * 10^-j = a.b * 10^(e)
    if not a and not b: a = '0'
    if r.random() < 0.2: a = '0' * r.choice([1, 2]) + a
    if not a and not b: a = '0'
    body = a + '.' + b if (b or r.random() < 0.5) else a
    if body.startswith('.') and not b: body = '0' + body
    if e == 0 and '.' in body and r.random() < 0.5: return body + suf
    return body + r.choice('eE') + ('-' if e < 0 else r.choice(['', '+'])) + '0' * r.choice([0, 0, 1]) + str(abs(e)) + suf

def esc(r, wide, nxt_hex_ok=True):
    x = r.random()
    if x < 0.3: return '\\' + r.choice('abfnrtv\\\'"?')
    if x < 0.55: return '\\' + ('%o' % r.choice([0, 1, 7, 8, 63, 64, 127, 128, 200, 255])).rjust(r.choice([1, 2, 3]), '0')
    if x < 0.8: return '\\x' + '0' * r.choice([0, 0, 1, 3]) + case_mix(r, '%x' % r.choice([0, 1, 9, 15, 16, 65, 127, 128, 160, 255]))
    return r.choice(['a', 'Z', '0', '9', 'f', 'F', ' ', '%', '/', '*', '~', '{'])

def charlit(r):
    x = esc(r, False)
    return "'" + (x if x not in ("'",) else '"') + "'"

UTF = ['é', 'ß', '漢', 'あ', '😀', 'Ω', '\u0080', '\u07ff', '\u0800', '\uffff', '\U00010000']
def strlit(r, wide=False):
    """adjacent pieces; separators are white space, comments and splices"""
    out = ''
    for i in range(r.choice([1, 1, 1, 2, 3])):
        body = ''.join(esc(r, wide) if r.random() < 0.75 else r.choice(UTF) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 17, 33])))
        body = body.replace('??', '? ')
        body = re.sub(r'\\(?:x([0-9a-fA-F]+)|([0-7]{1,3})|.)', lambda m: m.group(0) if int(m.group(1) or '0', 16) < 256 and int(m.group(2) or '0', 8) < 256 else 'q', body)
        out += ('L' if wide and (i == 0 or r.random() < 0.5) else '') + '"' + body + '"' + r.choice(['', ' ', '\n', ' /* "x" */ ', '\\\n', ' // c "y"\n', '\t'])
    return out

VARS = 'a b c d'.split()
def toks_expr(r, d):
    """a token list that forms a valid expression over int variables (assigned values observed afterwards)"""
    if d <= 0: return [r.choice(VARS)] if r.random() < 0.6 else [r.choice(['1', '0x2', '03', '7u', "'a'", '0x1e', '5l', '0xE', '12'])]
    x = r.random()
    if x < 0.15: return [r.choice(['-', '+', '~', '!'])] + toks_expr(r, d - 1)
    if x < 0.25: return [r.choice(['++', '--']), r.choice(VARS)]
    if x < 0.35: return [r.choice(VARS), r.choice(['++', '--'])]
    if x < 0.42: return ['(', *toks_expr(r, d - 1), ')']
    if x < 0.5: return ['(', r.choice(VARS), r.choice(['=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']), *toks_expr(r, d - 1), ')']
    if x < 0.55: return ['*', '&', r.choice(VARS)]
    if x < 0.6: return ['p', '->', 'm']
    if x < 0.63: return ['sizeof', '(', 'int', ')']
    if x < 0.67: return ['(', *toks_expr(r, d - 1), '?', *toks_expr(r, d - 1), ':', *toks_expr(r, d - 1), ')']
    op = r.choice(['+', '-', '*', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '+', '-', '&', '<', '>', '*'])
    return toks_expr(r, d - 1) + [op] + toks_expr(r, d - 1)

def glue(r, ts):
    """writes the tokens with arbitrary separators, including none; then inserts line splices anywhere"""
    out = ''
    for i, t in enumerate(ts):
        if i:
            x = r.random()
            need = out[-1:].isalnum() and t[0].isalnum()
            out += r.choice(['', '', '', '', ' ', '/**/', '\n', '\t', '/* + */', '//-\n', ' /***/']) if not need else r.choice([' ', '/**/', '\n', '/* */'])
        out += t
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2])):
            k = r.randrange(0, len(out) + 1)
            out = out[:k] + '\0' + out[k:]
    return out.replace('\0', '\\\n')

def lit_prog(lits, toks, tg):
    """-> (source, expected lines)"""
    body, exp = [], []
    for i, (s, t) in enumerate(zip(lits, toks)):
        k = t['k']
        if k == 'int':
            if t['t'] == 'none': continue
            body.append(f'pk({i}, _Generic(({s}), {GENERIC}), sizeof({s})); pv({i}, {s});')
            w = unlimb(t['w'])
            if t['t'] in ('i', 'l', 'll') and 0: pass
            exp += [f'{i} {KIDX[t["t"]]} {sizeof(tg, t["t"])}', f'{i} {w >> 32:x} {w & 0xffffffff:x}']
            body.append(f'static const unsigned long long sv{i} = {s}; pv({i}, sv{i});')
            exp.append(f'{i} {w >> 32:x} {w & 0xffffffff:x}')
            body.append(f'pv({i}, (unsigned long long)(-({s})) + ({s}));')       # arithmetic in the constant's own type
            n = 8 * sizeof(tg, t['t'])
            sg = t['t'] in ('i', 'l', 'll')
            neg = (-w) & ((1 << n) - 1)
            if sg and neg >> (n - 1): neg -= 1 << n
            tot = (neg + w) & ((1 << 64) - 1)
            exp.append(f'{i} {tot >> 32:x} {tot & 0xffffffff:x}')
        elif k == 'flt':
            if not t['ok']: continue
            body.append(f'pk({i}, _Generic(({s}), {GENERIC}), 0);')
            exp.append(f'{i} {KIDX[t["t"]]} 0')
            w = unlimb(t['w'])
            ty, uty = ('float', 'unsigned int') if t['t'] == 'f' else ('double', 'unsigned long long')
            body.append(f'{{ union {{ {ty} f; {uty} u; }} x; x.f = {s}; pv({i}, x.u); static {ty} y = {s}; x.f = y; pv({i}, x.u); }}')
            exp += [f'{i} {w >> 32:x} {w & 0xffffffff:x}'] * 2
        elif k == 'chr':
            body.append(f'pk({i}, _Generic({s}, {GENERIC}), sizeof({s})); pv({i}, {s});')
            w = t['v'] & ((1 << 64) - 1)
            exp += [f'{i} 1 4', f'{i} {w >> 32:x} {w & 0xffffffff:x}']
        elif k == 'wchr':
            body.append(f'pv({i}, {s});')
            exp.append(f'{i} 0 {t["v"]:x}')
        elif k == 'str':
            body.append(f'{{ static const char z[] =\n{s}; const char *q =\n{s}; char l[] =\n{s}; pk({i}, sizeof(\n{s}), sizeof(z)); ps({i}, z, sizeof(z), 1); ps({i}, q, sizeof(z), 1); ps({i}, l, sizeof(l), 1); }}')
            n = len(t['v'])
            exp += [f'{i} {n} {n}'] + [f'{i}:' + ''.join(' %x' % v for v in t['v'])] * 3
        elif k == 'wstr':
            body.append(f'{{ static const unsigned int z[] =\n{s}; pk({i}, sizeof(\n{s}), sizeof(z)); pw({i}, z, sizeof(z) / 4); }}' if not DEV else
                        f'{{ static const int z[] =\n{s}; pk({i}, sizeof(\n{s}), sizeof(z)); pw({i}, (unsigned*)z, sizeof(z) / 4); }}')
            n = len(t['v']) * 4
            exp += [f'{i} {n} {n}', f'{i}:' + ''.join(' %x' % v for v in t['v'])]
    src = '''#include <stdio.h>
static void pk(int i, int k, int s) { printf("%d %d %d\\n", i, k, s); }
static void pv(int i, unsigned long long v) { printf("%d %x %x\\n", i, (unsigned)(v >> 32), (unsigned)v); }
static void ps(int i, const char *s, int n, int st) { printf("%d:", i); for (int k = 0; k < n; k += st) printf(" %x", (unsigned char)s[k]); printf("\\n"); }
static void pw(int i, const unsigned *s, int n) { printf("%d:", i); for (int k = 0; k < n; ++k) printf(" %x", s[k]); printf("\\n"); }
'''
    fs = []
    for j in range(0, len(body), 10):
        fs.append(f't{j}')
        src += f'static void t{j}(void) {{\n  ' + '\n  '.join(body[j:j + 10]) + '\n}\n'
    return src + 'int main(void) {\n' + ''.join(f'  {f}();\n' for f in fs) + '  return 0;\n}\n', exp

def sizeof(tg, k): return 4 if k in ('i', 'u') or (tg == 'wasm' and k in ('l', 'ul')) else 8

def expr_prog(text):
    return '#include <stdio.h>\nstruct S { int m; } s1 = {3}, *p = &s1;\nint a = 5, b = 9, c = 2, d = 77;\nint main(void) {\n  long long r = (\n' + text + \
        '\n  );\n  printf("%d %d %d %d %d %d\\n", (int)r, a, b, c, d, s1.m);\n  return 0;\n}\n'

def main(chk):
    r = chk.rng
    b = H.build()
    nl, ne = (60, 220) if chk.quick() else (900, 3500)
    for tg, names in (('x64', ['x64']), ('wasm', ['wasm'])):
        tgts = creplay.targets(b, names)
        if not tgts: continue
        # ---- constants and strings
        n = nl if tg == 'x64' else nl // 2
        progs = []
        for _ in range(n):
            g = r.choice(['int', 'flt', 'chr', 'str', 'wide', 'mix'])
            lits = []
            for _ in range(24):
                k = r.choice(['int', 'flt', 'chr', 'str', 'wide']) if g == 'mix' else g
                lits.append(intlit(r) if k == 'int' else fltlit(r) if k == 'flt' else charlit(r) if k == 'chr' else strlit(r) if k == 'str' else
                            strlit(r, True) if r.random() < 0.8 else 'L' + charlit(r))
            progs.append(lits)
        flat = [s for p in progs for s in p]
        res = H.spec_cases('CLex', [dict(g=tg, s=list(s.encode())) for s in flat], chk)
        out, k = [], 0
        for p in progs:
            ts = []
            for s in p:
                t = res[k]['toks']; k += 1
                if len(t) != 1: raise H.ModelError(f'literal {s!r} is {len(t)} tokens')
                ts.append(t[0]['tok'])
            out.append(lit_prog(p, ts, tg))
        chk.add('literals', len(flat))
        run(chk, tgts, out, 'literals', progs)
        # ---- longest match
        exprs, seen = [], set()
        while len(exprs) < (ne if tg == 'x64' else ne // 4):
            t = glue(r, toks_expr(r, r.choice([1, 2, 3, 3])))
            if t not in seen and "'" not in t.replace("'a'", ''): seen.add(t); exprs.append(t)
        res = H.spec_cases('CLex', [dict(g=tg, s=list(s.encode())) for s in exprs], chk)
        refs = [' '.join(bytes(t['txt']).decode() for t in x['toks']) for x in res]
        chk.add('token_sequences', len(exprs))
        for tgt in tgts:
            A = creplay.run_sources(tgt, [expr_prog(t) for t in exprs])
            B = creplay.run_sources(tgt, [expr_prog(t) for t in refs])
            chk.add('traces_validated_against_impl', len(A))
            chk.add('token_programs_valid', sum(1 for x in B if x[0] == 'ran'))
            for t, ref, x, y in zip(exprs, refs, A, B):
                if (x[0], x[1] if x[0] == 'ran' else '', x[2] if x[0] == 'ran' else '') != (y[0], y[1] if y[0] == 'ran' else '', y[2] if y[0] == 'ran' else ''):
                    chk.violation(f'tokens {tgt.name} {t!r}', f'reads as {ref!r}: gives {y}, but as written gives {x}', {'written.c': expr_prog(t), 'tokens.c': expr_prog(ref)})
                    if len(chk.viol) > 15: return
        chk.sample(f'{exprs[0]!r} => {refs[0]!r}')

def run(chk, tgts, progs, what, lits):
    for tgt in tgts:
        out = creplay.run_sources(tgt, [s for s, _ in progs])
        chk.add('traces_validated_against_impl', len(out))
        for (src, exp), o, ls in zip(progs, out, lits):
            d = judge(exp, o)
            if d is None or judge(exp, creplay.run_sources(tgt, [src])[0]) is None: continue
            i = d.split(' ')[1] if d.startswith('literal ') else ''
            chk.violation(f'{what} {tgt.name} ' + (ls[int(i)] if i else ''), d, {'prog.c': src, 'expected.txt': '\n'.join(exp), 'actual.txt': str(o[2])})
            if len(chk.viol) > 15: return
    chk.sample(progs[0][0][-900:])

def judge(exp, o):
    if o[1] == 'skipped': return None
    if o[0] == 'compile': return f'compiler failed (status {o[1]}): {o[2][-500:]}'
    if o[1] != 0: return f'status {o[1]}'
    lines = [l for l in o[2].split('\n') if l]
    for a, c in zip(exp, lines):
        if a != c: return f'literal {a.split()[0].rstrip(":")} : specification {a[:300]}, program {c[:300]}'
    return None if len(lines) == len(exp) else f'{len(lines)} observations instead of {len(exp)}'
