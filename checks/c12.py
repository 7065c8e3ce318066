"""C12: the assembler (spec/CAsm.tla over spec/X64.tla): the object file it makes is checked statement by
statement against what the processor and the linker will take its bytes, relocations and symbols for."""
import os, re, struct, shutil
import harness as H
from elf import Elf

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + [f'r{i}' for i in range(8, 16)]
R32 = ['eax', 'ecx', 'edx', 'ebx', 'esp', 'ebp', 'esi', 'edi'] + [f'r{i}d' for i in range(8, 16)]
R16 = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di'] + [f'r{i}w' for i in range(8, 16)]
R8 = ['al', 'cl', 'dl', 'bl', 'spl', 'bpl', 'sil', 'dil'] + [f'r{i}b' for i in range(8, 16)]
H8 = ['ah', 'ch', 'dh', 'bh']
GAS = os.environ.get('VERIF_DEV_TARGETS') == 'gas'

def v8(n): return list((n & (2**64 - 1)).to_bytes(8, 'little'))
def opn(k, n=0, **kw): return dict(dict(k=k, n=n, v=[0] * 8, b=-1, x=-1, s=1, g='', f=0, fs=0), **kw)
def num(r, n):
    if r.random() < .15 and abs(n) < 2**31: return ('-' if n < 0 else '') + hex(abs(n))
    if r.random() < .05 and 0 < n < 2**20: return '0' + oct(n)[2:]
    return str(n)
def reg(r, w, high=False):
    if w == 8:
        if high and r.random() < .15: n = r.randrange(4); return '%' + H8[n], opn('h8', n)
        n = r.randrange(16); return '%' + R8[n], opn('r8', n)
    n = r.randrange(16)
    if r.random() < .4: n = r.choice([0, 4, 5, 8, 12, 13])
    return '%' + {16: R16, 32: R32, 64: R64}[w][n], opn(f'r{w}', n)
def xmm(r): n = r.randrange(16); return f'%xmm{n}', opn('x', n)
DISP = [0, 0, 0, 1, 8, -8, 127, 128, -128, -129, 255, 256, 2**31 - 1, -2**31, 4096, -4096]
def disp(r): return r.choice(DISP) if r.random() < .7 else r.randrange(-2**31, 2**31)
def base(r): return r.choice([0, 3, 4, 5, 8, 12, 13, r.randrange(16)])
def mem(r):
    b, d = base(r), disp(r)
    t = '' if d == 0 and r.random() < .6 else num(r, d)
    return f'{t}(%{R64[b]})', opn('m', b=b, v=v8(d))
def imem(r):
    b, x, s, d = base(r), r.choice([i for i in range(16) if i != 4]), r.choice([1, 2, 4, 8]), disp(r)
    t = '' if d == 0 and r.random() < .6 else num(r, d)
    sc = '' if s == 1 and r.random() < .5 else f',{r.choice(["", " "])}{s}'
    return f'{t}(%{R64[b]},{r.choice(["", " "])}%{R64[x]}{sc})', opn('m', b=b, x=x, s=s, v=v8(d))
def imm(r, w, sx=True):
    """an immediate the operand size can hold; sx: the encoding is sign extended from 32 bits"""
    hi = 2**w - 1 if w < 64 or not sx else 2**31 - 1
    lo = -2**(w - 1) if w < 64 or not sx else -2**31
    while True:
        n = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, -32768, 2**31 - 1, 2**31, 2**32 - 1, -2**31, 2**32, 2**63 - 1, -2**63, 2**63, 2**64 - 1, r.randrange(-2**(w - 1), 2**w), r.randrange(-200, 300)])
        if lo <= n <= hi: break
    return '$' + num(r, n), opn('i', v=v8(n))

W = [8, 16, 32, 64]
SUF = {8: 'b', 16: 'w', 32: 'l', 64: 'q'}
CCS = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']

def ins(text, op, w, *ops, lab='', off=0):
    return dict(k='ins', name='', op=op, w=w, o=[o for _, o in ops], lab=lab, off=off,
                text=text + (' ' if ops else '') + ', '.join(t for t, _ in ops))

def instr(r, labels, code, data):
    """one instruction; labels: those it may refer to"""
    w = r.choice(W)
    alu = r.choice(['add', 'sub', 'and', 'or', 'xor', 'cmp'])
    lab = r.choice(labels) if labels else None
    forms = ['movrr', 'movimr', 'movmr', 'movrm', 'movimr64', 'movsx', 'movzx', 'lea', 'lea', 'alurr', 'alurr', 'aluimr', 'aluimr', 'unary', 'incmem',
             'movim', 'shift', 'test', 'simple', 'setcc', 'push', 'int', 'calljmpr', 'sse', 'sse', 'ssemov', 'cvt', 'aluq', 'movim0']
    forms += ['movabsm', 'movfs', 'movimabs', 'imem', 'imem', 'alumem', 'jmpmem']
    if lab: forms += ['riplea', 'ripmov', 'call'] + (['jmp', 'jcc', 'jmp', 'jcc'] if code else [])
    f = r.choice(forms)
    if f == 'movrr': return ins('mov', 'mov', w, reg(r, w), reg(r, w))
    if f == 'movimr': return ins('mov', 'mov', w, imm(r, w, False), reg(r, w))
    if f == 'movimr64': return ins('mov', 'mov', 64, imm(r, 64, False), reg(r, 64))
    if f == 'movmr': return ins('mov', 'mov', w, mem(r), reg(r, w))
    if f == 'movrm': return ins('mov', 'mov', w, reg(r, w), mem(r))
    if f == 'imem':
        g = r.choice(['mov', 'add', 'sub', 'lea'])
        if g == 'lea': return ins('lea', 'lea', 64, imem(r), reg(r, 64))
        return ins(g, g, w, imem(r), reg(r, w))
    if f == 'alumem': g = r.choice(['add', 'sub']); return ins(g, g, w, mem(r), reg(r, w))
    if f == 'movsx' or f == 'movzx':
        s, d = r.choice([(8, 16), (8, 32), (8, 64), (16, 32), (16, 64)] + ([(32, 64)] if f == 'movsx' else []))
        name = f
        if GAS and (s, d) == (32, 64): name = 'movslq'
        return ins(name, f, d, reg(r, s), reg(r, d))
    if f == 'lea': return ins('lea', 'lea', 64, mem(r), reg(r, 64))
    if f == 'alurr': return ins(alu, alu, w, reg(r, w), reg(r, w))
    if f == 'aluimr': return ins(alu, alu, w, imm(r, w), reg(r, w))
    if f == 'unary': op = r.choice(['mul', 'div', 'idiv', 'neg', 'not', 'inc', 'dec']); return ins(op, op, w, reg(r, w))
    if f == 'incmem': op = r.choice(['inc', 'dec']); return ins(op + SUF[w], op, w, mem(r))
    if f == 'aluq': op = r.choice(['add', 'sub']); return ins(op + 'q', op, 64, imm(r, 64), mem(r))
    if f in ('movim', 'movim0'): return ins('mov' + SUF[w], 'mov', w, imm(r, w), mem(r))
    if f == 'shift':
        op = r.choice(['shl', 'shr', 'sar'])
        if r.random() < .5: return ins(op, op, w, ('%cl', opn('r8', 1)), reg(r, w))
        n = r.choice([1, 1, 2, 7, 31, 63, r.randrange(w)]) % w or 1
        return ins(op, op, w, ('$%d' % n, opn('i', v=v8(n))), reg(r, w))
    if f == 'test': return ins('test', 'test', w, reg(r, w), reg(r, w))
    if f == 'simple': op = r.choice(['cwtl', 'cltd', 'cqto', 'ret', 'syscall', 'endbr64']); return ins(op, op, 0)
    if f == 'setcc': c = r.randrange(16); return ins('set' + CCS[c], f'set{c}', 8, reg(r, 8))
    if f == 'push':
        x = r.choice(['push', 'pop', 'pushi'])
        return ins('push', 'push', 64, imm(r, 64)) if x == 'pushi' else ins(x, x, 64, reg(r, 64))
    if f == 'int': n = r.choice([3, 0x80, 0, 255, r.randrange(256)]); return ins('int', 'int', 0, ('$%d' % n, opn('i', v=v8(n))))
    if f == 'calljmpr':
        t, o = reg(r, 64); x = r.choice(['call', 'jmp']); return ins(x, x, 64, ('*' + t, o))
    if f == 'jmpmem':
        t, o = r.choice([mem, imem])(r); return ins('jmp', 'jmp', 64, ('*' + t, o))
    if f == 'sse':
        op = r.choice(['addsd', 'subsd', 'mulsd', 'divsd', 'xorpd', 'comisd', 'ucomisd', 'sqrtsd', 'addss', 'subss', 'mulss', 'divss', 'xorps', 'comiss', 'ucomiss', 'cvtsd2ss', 'cvtss2sd'])
        return ins(op, op, 0, xmm(r), xmm(r))
    if f == 'ssemov':
        op = r.choice(['movsd', 'movss']); return ins(op, op, 0, *r.choice([lambda: (xmm(r), xmm(r)), lambda: (mem(r), xmm(r)), lambda: (xmm(r), mem(r))])())
    if f == 'cvt':
        op = r.choice(['cvtsi2sd', 'cvtsi2ss', 'cvttsd2si', 'cvttss2si']); w = r.choice([32, 64])
        return ins(op, op, w, reg(r, w), xmm(r)) if op[3:5] == 'si' else ins(op, op, w, xmm(r), reg(r, w))
    if f in ('movabsm', 'movimabs'):
        a = r.choice([0, 0x1234, 2**31 - 1, r.randrange(2**31)])
        m = (num(r, a), opn('m', v=v8(a)))
        if f == 'movimabs': return ins('mov' + SUF[w], 'mov', w, imm(r, w), m)
        return ins('mov', 'mov', w, *([m, reg(r, w)] if r.random() < .5 else [reg(r, w), m]))
    if f == 'movfs':
        a = r.choice([0, 0, 40, 16, 0x1000])
        return ins('mov', 'mov', 64, (f'%fs:{a}', opn('m', v=v8(a), g='fs')), reg(r, 64))
    if f in ('riplea', 'ripmov'):
        l = r.choice(data or labels); off = r.choice([0, 0, 4, 16, -4, 1000])
        t = l + (f'{off:+d}' if off else '')
        m = (t + '(%rip)', opn('m', b=16))
        return ins('lea', 'lea', 64, m, reg(r, 64), lab=l, off=off) if f == 'riplea' else ins('mov', 'mov', w, *([m, reg(r, w)] if r.random() < .6 else [reg(r, w), m]), lab=l, off=off)
    l = r.choice(code) if code else lab
    if f == 'call': l = r.choice(labels); return ins('call', 'call', 64, (l, opn('t')), lab=l)
    if f == 'jmp': return ins('jmp', 'jmp', 64, (l, opn('t')), lab=l)
    c = r.randrange(16); return ins('j' + CCS[c], f'j{c}', 64, (l, opn('t')), lab=l)

def tree(r, depth=2):
    """-> (text with precedence, tree, value) of numbers only"""
    def prim():
        n = r.choice([0, 1, 2, 3, 5, 7, 10, 100, 255])
        t = str(n) if r.random() < .8 else hex(n)
        if r.random() < .2: return '-' + t, dict(k='neg', a=dict(k='n', v=n)), -n
        return t, dict(k='n', v=n), n
    def mul():
        t, a, v = prim()
        for _ in range(r.choice([0, 0, 1, 2])):
            o = r.choice('*/'); t2, b, w = prim()
            if o == '/' and w == 0: continue
            nv = v * w if o == '*' else int(abs(v) // abs(w)) * (1 if (v < 0) == (w < 0) else -1)
            if abs(nv) > 10**6: continue
            t, a, v = t + r.choice(['', ' ']) + o + r.choice(['', ' ']) + t2, dict(k=o, a=a, b=b), nv
        return t, a, v
    t, a, v = mul()
    for _ in range(r.choice([0, 1, 1, 2])):
        o = r.choice('+-'); t2, b, w = mul()
        if t2[0] == '-': t2 = ' ' + t2
        t, a, v = t + r.choice(['', ' ']) + o + r.choice(['', ' ']) + t2, dict(k=o, a=a, b=b), v + w if o == '+' else v - w
    return t, a, v

ESC = {7: '\\a', 8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r', 34: '\\"', 92: '\\\\'}
GESC = {8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r', 34: '\\"', 92: '\\\\'}
def string(r):
    bs = [r.choice([0, 1, 7, 10, 13, 27, 34, 92, 127, 128, 255, 48, 49, r.randrange(32, 127), r.randrange(256)]) for _ in range(r.choice([0, 1, 3, 8, 20]))]
    t = ''
    for i, b in enumerate(bs):
        nx = chr(bs[i + 1]) if i + 1 < len(bs) else ''
        if b in (GESC if GAS else ESC) and r.random() < .8: t += ESC[b]
        elif 32 <= b < 127 and b not in (34, 92): t += chr(b)
        elif r.random() < .5 and not (nx in '0123456789abcdefABCDEF' and nx) and not GAS: t += '\\x%02x' % b
        else: t += '\\%03o' % b
    return t, bs

def datum(r, labels, defined_same):
    f = r.choice(['num', 'num', 'expr', 'lab', 'diff', 'str', 'zero', 'float', 'list'])
    if f == 'num':
        sz = r.choice([1, 2, 4, 8]); n = r.choice([0, 1, -1, 127, 255, -128, r.randrange(-2**(8 * sz - 1), 2**(8 * sz))])
        n = max(-2**(8 * sz - 1), min(2**(8 * sz) - 1, n))
        return dict(k='raw', v=v8(n)[:sz], text=f'.{dict(zip([1, 2, 4, 8], ["byte", "short", "long", "quad"]))[sz]} {n if r.random() < .7 or n < 0 else hex(n)}')
    if f in ('expr', 'list'):
        vs = [tree(r) for _ in range(1 if f == 'expr' else r.choice([2, 3, 5]))]
        sz = r.choice([4, 8])
        if all(-128 <= v[2] < 256 for v in vs): sz = r.choice([1, 2, 4, 8])
        return dict(k='dat', sz=sz, v=[a for _, a, _ in vs], text=f'.{ {1: "byte", 2: "short", 4: "long", 8: "quad"}[sz]} ' + r.choice([', ', ',']).join(t for t, _, _ in vs))
    if f == 'lab' and labels:
        l = r.choice(labels); off = r.choice([0, 0, 1, 8, -8, 100])
        t = dict(k='l', name=l)
        if off: t = dict(k='+' if off > 0 else '-', a=t, b=dict(k='n', v=abs(off)))
        return dict(k='dat', sz=8, v=[t], text=f'.quad {l}' + (f'{off:+d}' if off else ''))
    if f == 'diff' and len(defined_same) > 1:
        a, b = r.sample(defined_same, 2); off = r.choice([0, 0, 3, 17])
        t = dict(k='-', a=dict(k='l', name=a), b=dict(k='l', name=b))
        if off: t = dict(k='+', a=t, b=dict(k='n', v=off))
        sz = r.choice([4, 8, 4, 2])
        return dict(k='dat', sz=sz, v=[t], text=f'.{ {2: "short", 4: "long", 8: "quad"}[sz]} {a} - {b}' + (f' + {off}' if off else ''))
    if f == 'str':
        t, bs = string(r); z = r.random() < .5
        return dict(k='raw', v=bs + ([0] if z else []), text=('.string' if z else '.ascii') + f' "{t}"')
    if f == 'float':
        v = r.choice([0.0, 1.5, -2.25, 1e10, 0.1, 3.0e-5, -0.0, 123456789.0])
        d = r.random() < .5
        return dict(k='raw', v=list(struct.pack('<d' if d else '<f', v)), text=('.double ' if d else '.float ') + repr(v))
    n = r.choice([1, 2, 7, 16, 100]); return dict(k='zero', n=n, text=f'.zero {n}')

def gen(r):
    """a program: a list of statements, each with its text"""
    st = []
    secs = ['.text'] + r.sample(['.data', '.rodata', '.bss', '.text'], r.choice([0, 1, 2, 3]))
    extra = r.random() < .15
    if extra: secs.append('.init_array' if r.random() < .5 else '.sec1')
    local = ['L%d' % k for k in range(r.choice([2, 4, 7]))]
    glob = ['g%d' % k for k in range(r.choice([0, 1, 2]))]
    weak = ['w0'] if r.random() < .3 else []
    und = ['ext%d' % k for k in range(r.choice([0, 1, 2]))]
    names = local + glob + weak
    where = {}
    for n in names: where[n] = r.choice(secs)
    style = r.choice(['mix', 'mix', 'jumps', 'insts'])
    comm = '.bss' not in secs and r.random() < .3
    pre = []
    for n in glob: pre.append(dict(k='glb', name=n, text=f'.globl {n}'))
    for n in weak: pre.append(dict(k='weak', name=n, text=f'.weak {n}'))
    for n in und:
        if r.random() < .4: pre.append(dict(k='glb', name=n, text=f'.globl {n}'))
        else: pre.append(dict(k='glb', name=n, text=f'.extern {n}' if not GAS else f'.globl {n}', soft=True))
    for n in names:
        if where[n] == '.text' and r.random() < .2: pre.append(dict(k='other', name='', text=f'.type {n}, @function'))
    commons = []
    if comm:
        isglob = r.random() < .5
        for k in range(r.choice([1, 2, 3])):
            n = f'c{k}'; size, al = r.choice([1, 4, 10, 64]), r.choice([1, 2, 4, 8, 16, 32])
            if isglob: pre.append(dict(k='glb', name=n, text=f'.globl {n}'))
            else: pre.append(dict(k='loc', name=n, text=f'.local {n}'))
            commons.append(n); pre.append(dict(k='comm', name=n, n=size, al=al, text=f'.comm {n}, {size}, {al}' if al > 1 or r.random() < .5 else f'.comm {n}, {size}'))
    r.shuffle(pre) if not commons else None
    out = []
    todo = {s: [n for n in names if where[n] == s] for s in secs}
    chunks = []
    for s in secs:
        q = todo[s]; todo[s] = []
        body = []
        if s == '.bss':
            for n in q + [None]:
                if r.random() < .5: a = r.choice([1, 2, 4, 8, 16]); body.append(dict(k='align', n=a, text=f'.align {a}'))
                if n: body.append(dict(k='lab', name=n, text=f'{n}:'))
                z = r.choice([1, 3, 8, 20]); body.append(dict(k='zero', n=z, text=f'.zero {z}'))
        else:
            count = r.choice([3, 8, 15]) if style != 'insts' else 25
            for n in q + [None] * r.choice([0, 1, 2]):
                for _ in range(r.randrange(count)):
                    body.append(None)
                if n: body.append(dict(k='lab', name=n, text=f'{n}:'))
            body.append(None)
        chunks.append((s, body))
    code = [n for n in local + glob + weak if where[n] == '.text'] + [u for u in und]
    data = [n for n in names if where[n] != '.text'] + commons + und
    alln = names + und + commons
    for s, body in chunks:
        if out or s != '.text' or r.random() < .5:
            if s in ('.text', '.data', '.bss') and r.random() < .7: t = s
            elif s == '.text': t = '.section .text,"ax"'
            elif s == '.data': t = '.section .data,"aw"'
            elif s == '.bss': t = '.bss'
            elif s == '.rodata': t = '.section .rodata' if not GAS else '.section .rodata,"a"'
            elif s == '.init_array': t = '.section .init_array,"aw"'
            else: t = '.section .sec1,"aw"'
            out.append(dict(k='sec', name=s, text=t))
        same = [n for n in names if where[n] == s and n not in weak]
        for b in body:
            if b is not None: out.append(b); continue
            if s == '.text':
                x = r.random()
                if style == 'jumps' and x < .45 and code:
                    l = r.choice([c for c in code if c in local] or code)
                    c = r.randrange(17)
                    out.append(ins('jmp', 'jmp', 64, (l, opn('t')), lab=l) if c == 16 else ins('j' + CCS[c], f'j{c}', 64, (l, opn('t')), lab=l))
                elif style == 'jumps' and x < .75:
                    n = r.choice([3, 20, 60, 100, 110, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 260]); out.append(dict(k='zero', n=n, text=f'.zero {n}'))
                elif x < .85 or style == 'insts': out.append(instr(r, alln, code, data))
                elif x < .92: a = r.choice([1, 2, 4, 8, 16, 32]); p2 = r.random() < .4; out.append(dict(k='align', n=a, text=f'.p2align {a.bit_length() - 1}' if p2 else f'.align {a}'))
                else: out.append(datum(r, alln, same))
            else:
                if r.random() < .2: a = r.choice([1, 2, 4, 8, 16, 32, 64]); p2 = r.random() < .4; out.append(dict(k='align', n=a, text=f'.p2align {a.bit_length() - 1}' if p2 else f'.align {a}'))
                else: out.append(datum(r, alln, same))
    st = pre + out
    used = {s.get('lab') for s in st}
    def deep(t, acc):
        if isinstance(t, dict):
            if t.get('k') == 'l': acc.add(t['name'])
            for v in t.values(): deep(v, acc)
        elif isinstance(t, list):
            for v in t: deep(v, acc)
    for s in st:
        if s['k'] == 'dat': deep(s['v'], used)
    st = [s for s in st if not (s.get('soft') and s['name'] not in used)]
    for s in st: s.setdefault('name', '')
    # what is referred to without being defined is a global symbol
    declared = {s['name'] for s in st if s['k'] in ('glb', 'weak')}
    for u in und:
        if u in used and u not in declared: st.append(dict(k='glb', name=u, text=f'.globl {u}'))
    return st

def single(r):
    """one statement (for development: violations do not hide one another)"""
    L = lambda n: dict(k='lab', name=n, text=n + ':')
    x = datum(r, ['L0', 'L1'], ['L0', 'L1']) if r.random() < .2 else instr(r, ['L0', 'L1', 'g0', 'D0', 'w0', 'ext'], ['L0', 'L1', 'g0', 'w0', 'ext'], ['D0', 'ext'])
    return [dict(k='glb', name='g0', text='.globl g0'), dict(k='weak', name='w0', text='.weak w0'), dict(k='glb', name='ext', text='.globl ext'),
            dict(k='sec', name='.text', text='.text'), L('L0'), x, L('L1'), L('g0'), L('w0'), dict(k='zero', n=3, name='', text='.zero 3'),
            dict(k='sec', name='.data', text='.data'), dict(k='zero', n=5, name='', text='.zero 5'), L('D0'), dict(k='zero', n=3, name='', text='.zero 3')]

def lay(r, st):
    """the text of the program, and for each line its statement"""
    lines, owner, hold = [], [], ''
    for j, s in enumerate(st):
        t = s['text']
        if s['k'] == 'lab' and r.random() < .25 and j + 1 < len(st) and st[j + 1]['k'] not in ('lab',): hold = t + r.choice([' ', '\t', '']); continue
        ind = hold or (r.choice(['', ' ', '\t']) if s['k'] != 'lab' else '')
        hold = ''
        tail = r.choice([''] * 12 + (['  // c', ' /* c */', '\t']) if not GAS else [''])
        if s['k'] == 'other': tail = ''
        if r.random() < .04 and not GAS: lines.append(r.choice(['', '// comment', '/* comment */', '   '])); owner.append(None)
        lines.append(ind + t + tail); owner.append(j)
    return '\n'.join(lines) + '\n', owner

def assemble(As, d, src):
    p = os.path.join(d, 'a.s'); o = os.path.join(d, 'a.o')
    with open(p, 'w') as fp: fp.write(src)
    if os.path.exists(o): os.unlink(o)
    rc, out, err = H.run([As, '-o', o, p])
    return rc, (out + err).decode('latin1'), o

def record(path):
    with open(path, 'rb') as fp: e = Elf(fp.read())
    secs = [dict(name=x['name'], bytes=list(e.contents(x)), size=x['size'], align=max(x['align'], 1)) for x in e.sh if x['flags'] & 2 and (not GAS or x['size'] or x['name'] in ('.text',)) and x['name'] not in ('.note.gnu.property', '.eh_frame')]
    ex = [x['name'] for x in e.sh if x['flags'] & 4 and x['flags'] & 2]
    rel = [dict(sec=e.secname(q['sec']), off=q['off'], type=q['type'], sym=e.syms[q['sym']]['name'] if e.syms[q['sym']]['type'] != 3 else '',
                add=q['add'] if -2**31 < q['add'] < 2**31 else 2**31 - 1, symsec=e.secname(e.syms[q['sym']]['shndx']), symval=e.syms[q['sym']]['val']) for q in e.rela]
    syms = [dict(name=s['name'], bind=s['bind'], sec=e.secname(s['shndx']), val=s['val'], size=s['size']) for s in e.syms if s['type'] not in (3, 4)]
    flags = {x['name']: x['flags'] & 7 for x in e.sh}
    return dict(secs=secs, exec=ex, rel=rel, syms=[s for s in syms if s['name']]), e

FLAGS = {'.text': 6, '.data': 3, '.bss': 3, '.rodata': 2, '.init_array': 3, '.sec1': 3}
RTYPES = {1: 'R_X86_64_64', 2: 'PC32', 4: 'PLT32', 10: '32', 11: '32S'}

def main(chk):
    d = H.build()
    As = 'as' if GAS else os.path.join(d, 'as')
    n = int(os.environ.get('VERIF_N', 0)) or (700 if chk.quick() else 6000)
    work = []
    for k in range(n):
        r = chk.rng.__class__(chk.rng.random())
        st = single(r) if os.environ.get('C12_SINGLE') else gen(r); src, owner = lay(r, st)
        work.append((k, st, src, owner))
    def one(w):
        k, st, src, owner = w
        wd = H.mkdir(f'c12-{k}')
        try:
            rejected = []
            for _ in range(30):
                rc, msg, o = assemble(As, wd, src)
                if rc == 0: break
                bad = {int(m) for m in re.findall(r'a\.s[(:](\d+)[):]', msg)}
                if isinstance(rc, int) and rc > 0 and bad:
                    ls = src.split('\n')
                    rejected += [ls[b - 1] for b in bad]
                    drop = {owner[b - 1] for b in bad if b <= len(owner)}
                    return ('rejected', k, src, rejected, msg)
                return ('crash', k, src, rc, msg)
            try: rec, e = record(o)
            except Exception as ex: return ('elf', k, src, repr(ex), msg)
            for x in e.sh:
                if x['name'] in FLAGS and x['flags'] & 7 != FLAGS[x['name']] and not GAS: return ('flags', k, src, x['name'], '')
                if (x['name'] == '.bss') != (x['type'] == 8) and x['flags'] & 2 and x['size']: return ('flags', k, src, x['name'], '')
            rec['st'] = [{a: b for a, b in s.items() if a not in ('text', 'soft')} for s in st]
            return ('ok', k, src, rec, '')
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    res = H.pmap(one, work)
    good = []
    for x in res:
        if x[0] == 'ok': good.append(x)
        elif x[0] == 'rejected': chk.violation('rejected: ' + norm(x[3][0]), 'the assembler rejects a valid statement: ' + x[3][0].strip() + '\n' + x[4], {'a.s': x[2]})
        elif x[0] == 'crash': chk.violation('crash: ' + str(x[3]), f'the assembler ends with {x[3]}: {x[4][:300]}', {'a.s': x[2]})
        else: chk.violation(x[0], f'{x[0]}: {x[3]}', {'a.s': x[2]})
    lines = sum(len(x[3]['st']) for x in good)
    B = 250
    groups = [good[j:j + B] for j in range(0, len(good), B)]
    for g in groups:
        rep = H.spec_cases('CAsm', [x[3] for x in g], chk)
        for x, q in zip(g, rep):
            if q['why']:
                st = x[3]['st'][q['at'] - 1] if q['at'] else None
                src = x[2]; w = work[x[1]]
                t = w[1][q['at'] - 1]['text'] if q['at'] else ''
                chk.violation(q['why'] + ': ' + norm(t), f'{q["why"]}: "{t}" (statement {q["at"]}) {q["got"]}', {'a.s': src})
    chk.add('programs', len(good)); chk.add('statements', lines)
    for x in good[:3]: chk.sample(x[2][:600])

def norm(t):
    t = t.strip().split('//')[0].split('/*')[0].strip()
    t = re.sub(r'%xmm\d+', 'X', t)
    t = re.sub(r'%r\d+d|%e\w\w', 'R32', t); t = re.sub(r'%r\d+w', 'R16', t); t = re.sub(r'%r\d+b', 'R8', t)
    t = re.sub(r'%r\w+', 'R64', t)
    t = re.sub(r'-?0x[0-9a-f]+|-?\d+(?=[^\d]|$)', 'N', t)
    return t
