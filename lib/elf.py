"""A reader for ELF relocatable objects and executables (nothing of it comes from the code under test)."""
import struct

class Elf:
    def __init__(s, data):
        s.d = data
        if data[:4] != b'\x7fELF': raise ValueError('not ELF')
        h = struct.unpack_from('<16sHHIQQQIHHHHHH', data, 0)
        s.type, s.machine, s.entry = h[1], h[2], h[4]
        phoff, shoff, phent, phnum, shent, shnum, shstr = h[5], h[6], h[9], h[10], h[11], h[12], h[13]
        s.ph = [struct.unpack_from('<IIQQQQQQ', data, phoff + i * phent) for i in range(phnum)]
        raw = [struct.unpack_from('<IIQQQQIIQQ', data, shoff + i * shent) for i in range(shnum)]
        s.sh = []
        for r in raw:
            n, t, f, a, o, z, l, inf, al, es = r
            if t not in (0, 8) and o + z > len(data): raise ValueError('section beyond the end of the file')
            s.sh.append(dict(n=n, type=t, flags=f, addr=a, off=o, size=z, link=l, info=inf, align=al, ent=es))
        if s.sh:
            st = s.sh[shstr]
            for x in s.sh: x['name'] = s.cstr(st['off'] + x['n'])
        s.syms = []
        for x in s.sh:
            if x['type'] == 2:
                strt = s.sh[x['link']]
                for i in range(x['size'] // 24):
                    n, inf, oth, shndx, val, size = struct.unpack_from('<IBBHQQ', data, x['off'] + 24 * i)
                    s.syms.append(dict(name=s.cstr(strt['off'] + n), bind=inf >> 4, type=inf & 15, shndx=shndx, val=val, size=size))
                s.firstglobal = x['info']
        s.rela = []
        for x in s.sh:
            if x['type'] == 4:
                for i in range(x['size'] // 24):
                    o, inf, add = struct.unpack_from('<QQq', data, x['off'] + 24 * i)
                    s.rela.append(dict(sec=x['info'], off=o, type=inf & 0xffffffff, sym=inf >> 32, add=add))
    def cstr(s, o):
        e = s.d.index(b'\0', o)
        return s.d[o:e].decode('latin1')
    def secname(s, i):
        return '' if i == 0 else '*COM*' if i == 0xfff2 else '*ABS*' if i == 0xfff1 else s.sh[i]['name']
    def contents(s, x):
        return b'' if x['type'] == 8 else s.d[x['off']:x['off'] + x['size']]
