"""C13: the linker (spec/CLink.tla): generated sets of objects, archives and libraries are linked by the real
tool, and the program it makes has to be one the specification permits."""
import os, re, shutil
import harness as H
from elf import Elf

SECS = {'.text': ('.text', False, True), '.rodata': ('.section .rodata,"a"', False, False), '.data': ('.data', True, False), '.bss': ('.bss', True, False),
        '.init_array': ('.section .init_array,"aw"', True, False), '.fini_array': ('.section .fini_array,"aw"', True, False), '.sec1': ('.section .sec1,"aw"', True, False), '.ro1': ('.section .ro1,"a"', False, False)}

GLD = os.environ.get('VERIF_DEV_TARGETS') == 'gld'      # development: is the specification right about another linker?

def gen(r):
    nobj = r.choice([1, 2, 3, 4, 5, 6, 8])
    objs = [dict(secs=[], syms={}, refs=[]) for _ in range(nobj)]
    seen = set()
    def marker():
        while True:
            m = tuple(r.randrange(1, 256) for _ in range(8))
            if m not in seen: seen.add(m); return list(m)
    big = r.random() < .12
    for o in objs:
        names = ['.text', '.data'] + [s for s in ('.rodata', '.bss', '.init_array', '.fini_array', '.sec1', '.ro1') if r.random() < {'.rodata': .5, '.bss': .5, '.init_array': .2, '.fini_array': .1}.get(s, .06)]
        if r.random() < .2: names.remove('.text')
        for n in names:
            al = r.choice([1, 1, 2, 4, 8, 16, 32, 64]) if not n.endswith('_array') else 8
            if big and r.random() < .3 and not n.endswith('_array'): al = r.choice([256, 512, 4096, 8192])
            _, w, x = SECS[n]
            o['secs'].append(dict(name=n, align=al, w=w, x=x, pieces=[] if n == '.bss' else [dict(k='b', v=marker())], size=0, labs=[]))
    # what the names stand for
    pool = ['s%d' % k for k in range(r.choice([2, 4, 6, 9]))]
    if r.random() < .3: pool.append('a_rather_long_symbol_name_for_a_linker')
    risky = r.random() < .35
    for n in pool:
        kinds = ['one'] * 6 + ['sw', 'ww', 'cc', 'cs', 'cw', 'uw', 'csw', 'sw', 'cc'] + (['dup', 'undef', 'uw', 'dup'] if risky else [])
        kind = r.choice(kinds)
        d = {'one': 's', 'sw': 'sw', 'ww': 'www', 'cc': 'ccc', 'cs': 'cs', 'cw': 'cw', 'uw': '', 'csw': 'csw', 'dup': 'ss', 'undef': ''}[kind]
        d = list(d) + [r.choice('wc') for _ in range(r.choice([0, 0, 1]))] * (kind in ('sw', 'cc', 'csw'))
        r.shuffle(d)
        where = r.sample(range(nobj), min(len(d), nobj))
        for k, c in zip(where, d):
            o = objs[k]
            if c == 'c': o['syms'][n] = dict(name=n, bind='g', **{'def': -1}, off=0, size=r.choice([1, 4, 8, 24, 100]), al=r.choice([1, 2, 4, 8, 16, 32]))
            else:
                s = r.randrange(len(o['secs'])); o['secs'][s]['labs'].append(n)
                o['syms'][n] = dict(name=n, bind='g' if c == 's' else 'w', **{'def': s + 1}, off=0, size=0, al=1)
        refs = r.sample(range(nobj), r.choice([0, 1, min(2, nobj), nobj]))
        for k in refs:
            o = objs[k]
            if n not in o['syms']:
                if r.random() < .15 and kind != 'undef':          # one of its own
                    s = r.randrange(len(o['secs'])); o['secs'][s]['labs'].append(n)
                    o['syms'][n] = dict(name=n, bind='l', **{'def': s + 1}, off=0, size=0, al=1)
                else: o['syms'][n] = dict(name=n, bind='w' if kind == 'uw' or r.random() < .1 else 'g', **{'def': 0}, off=0, size=0, al=1)
            o['refs'] += [n] * r.choice([1, 1, 2])
    entry = '_start' if r.random() < .8 else r.choice(['main', 's0'])
    if entry not in pool:
        k = r.randrange(nobj)
        if not (risky and r.random() < .1):
            o = objs[k]; s = r.randrange(len(o['secs'])); o['secs'][s]['labs'].append(entry)
            o['syms'][entry] = dict(name=entry, bind=r.choice('gggw'), **{'def': s + 1}, off=0, size=0, al=1)
    for k, o in enumerate(objs):
        # static names, also the same in several objects
        for n in r.sample(['t0', 't1', 't2'], r.choice([0, 1, 2])):
            s = r.randrange(len(o['secs'])); o['secs'][s]['labs'].append(n)
            o['syms'][n] = dict(name=n, bind='l', **{'def': s + 1}, off=0, size=0, al=1); o['refs'] += [n] * r.choice([1, 2])
        if r.random() < .06 and not any(s['name'] == '.rodata' for s in o['secs']):
            o['secs'].append(dict(name='.rodata', align=1, w=False, x=False, pieces=[], size=0, labs=[], empty=True))
            o['syms']['E'] = dict(name='E', bind='l', **{'def': len(o['secs'])}, off=0, size=0, al=1)
        if any(s['name'] == '.bss' for s in o['secs']):
            s = [j for j, s in enumerate(o['secs']) if s['name'] == '.bss'][0]
            o['syms']['B'] = dict(name='B', bind='l', **{'def': s + 1}, off=0, size=0, al=1)
        for n in ('__init_array_start', '__init_array_end', '__fini_array_start', '__fini_array_end'):
            if r.random() < .05: o['syms'][n] = dict(name=n, bind='g', **{'def': 0}, off=0, size=0, al=1); o['refs'].append(n)
        # fill the sections
        for j, s in enumerate(o['secs']):
            items = [('lab', n) for n in s['labs']]
            if s.get('empty'): pass
            elif s['name'] == '.bss':
                items += [('z', r.choice([1, 4, 8, 50])) for _ in range(r.choice([1, 2, 3]))]
            elif s['name'].endswith('_array'): items += [('q', None)] * r.choice([0, 1, 2])
            else: items += [('b', None)] * r.choice([0, 1, 2, 4]) + [('z', r.choice([1, 3, 8, 30]))] * (r.random() < .3)
            r.shuffle(items)
            if s['name'] == '.bss' and items and items[0][0] == 'lab' and r.random() < .5: items.reverse()
            s['items'] = items
        datas = [s for s in o['secs'] if not s.get('empty') and s['name'] in ('.data', '.rodata', '.sec1', '.ro1')]
        texts = [s for s in o['secs'] if s['name'] == '.text']
        for n in o['refs']:
            s = r.choice(datas + texts)
            s['items'].insert(r.randrange(len(s['items']) + 1), ('pc' if s['name'] == '.text' else 'abs', n))
        asm(r, o)
    # the command line
    order = list(range(nobj)); r.shuffle(order)
    inputs, files, dirs = [], [], [[] for _ in range(r.choice([0, 0, 1, 2, 3]))]
    j = 0; na = 0
    while j < len(order):
        if r.random() < .5: inputs.append(dict(k='o', o=order[j] + 1, m=[], name='')); j += 1
        else:
            c = r.choice([1, 2, 3, 4]); ms = [x + 1 for x in order[j:j + c]]; j += c; na += 1
            if dirs and r.random() < .6:
                name = r.choice([f'l{na}', f'l{na}', f'lib{na}', 'x' * 130 if r.random() < .1 else f'm{na}'])
                ds = r.sample(range(len(dirs)), r.choice([1, 1, min(2, len(dirs))]))
                for q, di in enumerate(ds): dirs[di].append(dict(name=name, m=ms if q == 0 else ms[::-1][:r.randrange(len(ms) + 1)]))
                inputs.append(dict(k='l', o=0, m=[], name=name))
            else: inputs.append(dict(k='a', o=0, m=ms, name=''))
    if r.random() < .3: r.shuffle(inputs)
    else: inputs.sort(key=lambda x: x['k'] != 'o')
    if na and r.random() < .25: inputs.insert(r.randrange(len(inputs) + 1), dict(r.choice([x for x in inputs if x['k'] != 'o'])))
    if risky and r.random() < .2:
        st = [x for x in inputs if x['k'] == 'o' and any(s['bind'] == 'g' and s['def'] > 0 for s in objs[x['o'] - 1]['syms'].values())]
        if st: inputs.append(dict(r.choice(st)))
    if risky and r.random() < .15: inputs.insert(r.randrange(len(inputs) + 1), dict(k=r.choice('xl'), o=0, m=[], name='nowhere'))
    if r.random() < .08: inputs.insert(r.randrange(len(inputs) + 1), dict(k='a', o=0, m=[], name=''))
    return dict(objs=objs, inputs=inputs, dirs=dirs, entry=entry)

def asm(r, o):
    """lay the object out: offsets of the labels, pieces of the sections, and its text"""
    gas = o['gas'] = r.random() < .15
    t = []
    for n, s in o['syms'].items():
        if s['bind'] == 'g': t.append(f'\t.globl {n}')
        elif s['bind'] == 'w': t.append(f'\t.weak {n}')
    for n, s in o['syms'].items():
        if s['def'] == -1: t.append(f'\t.comm {n}, {s["size"]}, {s["al"]}')
    def off(): return r.choice([0, 0, 0, 4, -4, 100])
    for s in o['secs']:
        t.append('\t' + SECS[s['name']][0])
        if s['align'] > 1: t.append(f'\t.align {s["align"]}')
        pos = 0
        if s['name'] == '.bss': t.append('B:')
        elif s.get('empty'): t.append('E:'); continue
        else: t.append('\t.byte ' + ', '.join(map(str, s['pieces'][0]['v']))); pos = 8
        if s['name'] == '.data':
            for q in 'EB':
                if q in o['syms']: s['items'].insert(0, ('abs0', q))
        if s['name'] == '.bss' and sum(x[1] for x in s['items'] if x[0] == 'z') == 0: s['items'].append(('z', 8))
        for k, x in s['items']:
            p = None
            if k == 'lab':
                o['syms'][x]['off'] = pos; t.append(x + ':'); continue
            if k == 'z': p = [dict(k='z', n=x)]; t.append(f'\t.zero {x}'); pos += x
            elif k == 'b':
                v = [r.randrange(256) for _ in range(r.choice([1, 2, 5, 9]))]; p = [dict(k='b', v=v)]; t.append('\t.byte ' + ', '.join(map(str, v))); pos += len(v)
            elif k == 'q':
                v = [r.randrange(1, 256) for _ in range(8)]; p = [dict(k='b', v=v)]; t.append('\t.quad 0x%016x' % int.from_bytes(bytes(v), 'little') if v[7] < 128 else '\t.byte ' + ', '.join(map(str, v))); pos += 8
            elif k in ('abs', 'abs0'):
                f = off() if k == 'abs' else 0; p = [dict(k='abs', sym=x, off=f)]; t.append(f'\t.quad {x}' + (f'{f:+d}' if f else '')); pos += 8
            else:
                if r.random() < .5: p = [dict(k='b', v=[0xe8]), dict(k='pc', sym=x, off=0)]; t.append(f'\tcall {x}'); pos += 5
                else: f = off(); p = [dict(k='b', v=[0x48, 0x8d, 5]), dict(k='pc', sym=x, off=f)]; t.append(f'\tlea {x}' + (f'{f:+d}' if f else '') + '(%rip), %rax'); pos += 7
            if s['name'] != '.bss': s['pieces'] += p
        s['size'] = pos
    o['text'] = '\n'.join(t) + '\n'

def loc(o, image):
    """where the sections of an object are, -1: not there, -2: twice"""
    at = []
    for s in o['secs']:
        if s['name'] == '.bss' or s.get('empty'): at.append(-1); continue
        m = bytes(s['pieces'][0]['v']); found = []
        for a, b in image:
            p = b.find(m)
            while p >= 0: found.append(a + p); p = b.find(m, p + 1)
        at.append(-1 if not found else found[0] if len(found) == 1 else -2)
    p = 8
    for q in 'BE':
        if q not in o['syms']: continue
        j = [k for k, s in enumerate(o['secs']) if s['name'] == '.data'][0]
        k = o['syms'][q]['def'] - 1
        if at[j] >= 0:
            for a, b in image:
                if a <= at[j] < a + len(b): v = int.from_bytes(b[at[j] + p - a:at[j] + p + 8 - a], 'little'); at[k] = v if v < 2**31 else 0
        p += 8
    return at

def main(chk):
    d = H.build(); As, Ld = os.path.join(d, 'as'), os.path.join(d, 'ld')
    n = int(os.environ.get('VERIF_N', 0)) or (1200 if chk.quick() else 12000)
    def one(seed):
        r = chk.rng.__class__(seed[1]); k = seed[0]
        c = gen(r); wd = H.mkdir(f'c13-{k}'); cmds = []
        try:
            for j, o in enumerate(c['objs']):
                with open(f'{wd}/o{j + 1}.s', 'w') as fp: fp.write(o['text'])
                cmd = ['as' if o['gas'] else As, '-o', f'{wd}/o{j + 1}.o', f'{wd}/o{j + 1}.s']; rc, a, b = H.run(cmd)
                if rc != 0: return ('as', k, c, cmds, (a + b).decode('latin1'))
            def ar(f, ms):
                if not ms:
                    with open(f, 'w') as fp: fp.write('!<arch>\n')
                    return
                H.run(['ar', 'rcs', f] + [f'{wd}/o{m}.o' for m in ms])
            args = []
            for j, ds in enumerate(c['dirs']):
                os.mkdir(f'{wd}/d{j}'); args += ['-L', f'd{j}'] if r.random() < .5 else [f'-Ld{j}']
                for a in ds: ar(f'{wd}/d{j}/lib{a["name"]}.a', a['m'])
            for j, x in enumerate(c['inputs']):
                if x['k'] == 'o': args.append(f'o{x["o"]}.o')
                elif x['k'] == 'x': args.append('missing.o')
                elif x['k'] == 'l': args.append('-l' + x['name'])
                else: ar(f'{wd}/a{j}.a', x['m']); args.append(f'a{j}.a')
            if GLD: Ld_ = ['ld', '-static', '-z', 'separate-code', '-z', 'norelro', '-z', 'noexecstack']
            else: Ld_ = [Ld]
            cmd = Ld_ + ['-o', 'out'] + (['-e', c['entry']] if c['entry'] != '_start' else []) + ['-Map', 'map'] + args
            rc, a, b = H.run(cmd, cwd=wd)
            msg = (a + b).decode('latin1'); cmd = 'ld ' + ' '.join(cmd[1:])
            got = dict(ok=rc == 0, entry=0, at=[[-1] * len(o['secs']) for o in c['objs']], segs=[], map=[])
            if rc != 0 and not (isinstance(rc, int) and rc > 0): return ('crash', k, c, cmd, f'{rc} {msg}')
            if rc == 0:
                try:
                    with open(f'{wd}/out', 'rb') as fp: data = fp.read()
                    e = Elf(data)
                    image = []
                    for ty, fl, off, va, pa, fsz, msz, al in e.ph:
                        if ty != 1: continue
                        if off + fsz > len(data): raise ValueError('segment beyond the end of the file')
                        if fsz and (va - off) % 4096: raise ValueError('segment cannot be mapped')
                        if msz < fsz or va >= 2**30 or msz > 2**20: raise ValueError('segment')
                        image.append((va, data[off:off + fsz])); got['segs'].append(dict(addr=va, bytes=list(data[off:off + fsz]), memsz=msz, w=bool(fl & 2), x=bool(fl & 1)))
                    got['entry'] = min(e.entry, 2**31 - 1); got['at'] = [loc(o, image) for o in c['objs']]
                    if GLD: mp = ''.join(f"{z['val']:x}: G {z['name']}\n" for z in e.syms if z['bind'] == 1 or z['name'][:2] == '__')
                    else:
                        with open(f'{wd}/map') as fp: mp = fp.read()
                    got['map'] = [dict(name=m[1], addr=int(m[0], 16)) for m in re.findall(r'^ *([0-9a-f]+): G (\S+)', mp.split('### Entry')[0], re.M) if int(m[0], 16) < 2**31]
                except (ValueError, OSError, IndexError) as ex: return ('elf', k, c, cmd, repr(ex))
            case = dict(objs=[dict(secs=[{a: b for a, b in s.items() if a not in ('labs', 'items', 'empty')} for s in o['secs']], syms=list(o['syms'].values())) for o in c['objs']],
                        inputs=c['inputs'], dirs=c['dirs'], entry=c['entry'], got=got)
            return ('ok', k, c, cmd, case, msg)
        finally: shutil.rmtree(wd, ignore_errors=True)
    res = H.pmap(one, [(k, chk.rng.random()) for k in range(n)])
    def files(x): return dict({f'o{j + 1}.s': o['text'] for j, o in enumerate(x[2]['objs'])}, **{'command.txt': f'{x[3]}\ninputs: {x[2]["inputs"]}\ndirs: {x[2]["dirs"]}\n'})
    good = []
    for x in res:
        if x[0] == 'ok': good.append(x)
        elif x[0] == 'as': chk.violation('assembler', 'the assembler rejects an object: ' + x[4][:200], files(x))
        elif x[0] == 'crash': chk.violation('crash: ' + x[4].split()[0], f'the linker ends with {x[4][:300]}', files(x))
        else: chk.violation(x[4], f'the program is malformed: {x[4]}', files(x))
    B = 200; links = fails = 0
    for g in [good[j:j + B] for j in range(0, len(good), B)]:
        for x, reps in zip(g, H.spec_outcomes('CLink', [x[4] for x in g], chk)):
            links += 1; fails += not x[4]['got']['ok']
            if any(q['why'] == '' for q in reps): continue
            why = sorted({q['why'] for q in reps})[0]
            chk.violation(why, f'{why}: {x[3]}\n{x[5][:300]}', files(x))
    chk.add('links', links); chk.add('links that must fail', fails)
    for x in good[:2]: chk.sample(x[3] + '\n' + '\n'.join(o['text'] for o in x[2]['objs'])[:600])
