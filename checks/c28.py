"""C28: the system interface (spec/CPosix.tla): histories of file, descriptor and process calls and of the random
sequences, replayed by compiled programs in a scratch directory of an unprivileged user."""
import os, re, shutil, subprocess, tempfile
import harness as H, creplay, libdrv

USER = 65534
def nat(m): return sum(l << 15 * i for i, l in enumerate(m))
def limbs(v):
    l = []
    while v: l.append(v & 32767); v >>= 15
    return l

# ---------------------------------------------------------------- histories
NAMES = ['a', 'b', 'c', 'dd', 'e.x']
def path(r, wasm=False):
    if r.random() < .02: return []
    n = r.choice([1, 1, 1, 2, 2, 3])
    p = [r.choice(NAMES[:3] if k == 0 else NAMES) for k in range(n)]
    if not wasm and r.random() < .15: p.insert(r.randrange(len(p) + 1), r.choice(['.', '..']))
    if not wasm and r.random() < .1: p[-1] = f'#{r.randrange(3)}'
    return p

def op_(r, wasm, st):
    fd = lambda: r.choice(st['fds']) if r.random() < .93 else r.choice([7, 9, 12, -1] if wasm else [0, 7, 9, 12, -1, 15])
    mode = lambda: r.choice([0o755, 0o777, 0o700]) if wasm else r.choice([0o644, 0o600, 0o666, 0o755, 0o777, 0o700, 0o444, 0o200, 0o311, 0o555, 0])
    P = lambda: path(r, wasm)
    k = r.random()
    if k < .20:
        fl = [r.choice(['O_RDONLY', 'O_WRONLY', 'O_RDWR', 'O_RDWR'])]
        for f, pr in (('O_CREAT', .6), ('O_EXCL', .15), ('O_TRUNC', .2), ('O_APPEND', .2)):
            if r.random() < pr: fl.append(f)
        st['fds'] = (st['fds'] + [min(15, max(st['fds']) + 1)]) if max(st['fds']) < 9 else st['fds']
        return dict(o='open', p=P(), fl=fl, m=mode())
    if k < .32: return dict(o='write', fd=fd(), b=[r.randrange(256) for _ in range(r.choice([0, 1, 3, 10, 40]))])
    if k < .44: return dict(o='read', fd=fd(), n=r.choice([0, 1, 2, 5, 20, 100]))
    if k < .52: return dict(o='lseek', fd=fd(), off=r.choice([0, 0, 1, 3, 10, 60, -1, -3, -20]), w=r.choice([0, 1, 2, 2, 0, 1, 7]))
    if k < .53 and not wasm: return dict(o='far', fd=fd(), off=r.randrange(50))
    if k < .58: return dict(o='close', fd=fd())
    if k < .62: return dict(o='mkdir', p=P(), m=mode())
    if k < .65: return dict(o='unlink', p=P())
    if k < .67: return dict(o='rmdir', p=P())
    if k < .71: return dict(o='stat', p=P())
    if k < .73: return dict(o='lstat', p=P())
    if k < .76: return dict(o='fstat', fd=fd())
    if k < .78: return dict(o='same', fd=fd(), p=P())
    if k < .81: return dict(o='names', s=[r.choice('//ab.') for _ in range(r.randrange(8))])
    if k < .83: return r.choice([dict(o='srand48', v=limbs(r.getrandbits(r.choice([1, 16, 31, 32])))), dict(o='seed16', k=r.randrange(1, 4), v=limbs(r.getrandbits(48)))])
    if k < .87: return dict(o='rand48', g=r.choice(['own', 'own', 'lib']), k=r.randrange(1, 4), f=r.choice('ld'))
    if k < .88: return dict(o=r.choice(['randseq', 'time']), seed=r.choice([1, 1, 0, 5, 4000000000]), n=r.randrange(1, 9))
    if wasm: return op_(r, wasm, st)
    if k < .90: return dict(o='dup', fd=fd())
    if k < .915: return dict(o=r.choice(['pipe']))
    if k < .93: return dict(o='chdir', p=P())
    if k < .945: return dict(o='chmod', p=P(), m=mode())
    if k < .955: return dict(o='getcwd', k=r.choice([0, 1, 2, 3, 4, 5, 6, 8, 30, 200, 1000]))
    if k < .965: return dict(o='isatty', fd=fd())
    if k < .98 and not st.get('child'): return dict(o='mkstemp', x=r.choice([6, 6, 6, 5, 7, 0]), suf=r.choice(['', '', '.c', '.txt']))
    if k < .985: return dict(o=r.choice(['mkdirat', 'fstatat']), p=P(), m=mode())
    if k < .99: return dict(o='noexec', p=P())
    return dict(o='wait', f=r.choice(['wait', 'waitpid', 'wait4']))

def history(r, wasm, n, st=None, depth=0):
    st = st or dict(fds=[3, 4] if not wasm else [3])
    ops = []
    while len(ops) < n:
        if not wasm and depth < 2 and r.random() < .03:
            ops.append(dict(o='fork'))
            ops += history(r, wasm, r.randrange(1, 8), dict(fds=list(st['fds']), child=True), depth + 1)
            k = r.random()
            ops.append(dict(o='exit', c=r.choice([0, 1, 2, 127, 255])) if k < .6 else dict(o='kill') if k < .75 else
                       dict(o='exec', c=r.choice([0, 3, 200]), fd=r.choice(st['fds']), f=r.choice(['e', 'v'])))
        else: ops.append(op_(r, wasm, st))
    return ops

# ---------------------------------------------------------------- programs
HEAD = libdrv.PRELUDE + r'''
#include <stdio.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <stdlib.h>
#include <string.h>
#include <libgen.h>
#include <time.h>
static void R(int i, long r) { int e = errno; pi(i); ps(": "); pi(r); sp(); pi(r < 0 ? e : 0); }
static char tn_[8][40] = { "#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7" };
static char cb_[128];
static char *cat_(const char *a, const char *b, const char *c) { strcpy(cb_, a); strcat(cb_, b); strcat(cb_, c); return cb_; }
static void pst_(struct stat *s) {
  sp();
  if (S_ISREG(s->st_mode)) { pi(s->st_mode & MASK_); sp(); pi(s->st_size); sp(); pi(s->st_nlink); }
  else pi(s->st_mode & (S_ISDIR(s->st_mode) ? MASK_ : 0170000));
}
static unsigned long long bits_(double d, double k) { return d < 0 || d >= 1 ? ~0ULL : (unsigned long long)(d * k); }
static int seqv_[4][8], seqn_[4];
static int seq_(int w, unsigned seed, int n, int fresh) {
  int ok = 1;
  if (!fresh) srand(seed);
  for (int k = 0; k < n; ++k) {
    int v = rand();
    if (v < 0 || v > RAND_MAX) ok = 0;
    if (k < seqn_[w]) { if (seqv_[w][k] != v) ok = 0; } else { seqv_[w][k] = v; seqn_[w] = k + 1; }
  }
  return ok;
}
static int time_(void) {
  time_t t = 5, a = time(&t), b = time(NULL); struct timespec ts = { 0, -1 };
  return clock_gettime(CLOCK_REALTIME, &ts) == 0 && a == t && b >= a && b <= a + 5 && ts.tv_sec >= a && ts.tv_sec <= a + 5 && ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000 && a > 1600000000;
}
static int alnum_(const char *s, int n) { for (int k = 0; k < n; ++k) if (!((s[k] >= '0' && s[k] <= '9') || (s[k] >= 'A' && s[k] <= 'Z') || (s[k] >= 'a' && s[k] <= 'z'))) return 0; return 1; }
'''
NATIVE = r'''
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
static char *self_;
static char *ev_[] = { "K=v", NULL };
static int root_;
static char rdir_[4200];
static char *ready_(int i) { rdir_[root_] = '/'; rdir_[root_ + 1] = 'R'; rdir_[root_ + 2] = 'a' + i / 26 % 26; rdir_[root_ + 3] = 'a' + i % 26; return rdir_; }
'''
SEEDS = {1: 0, 0: 1, 5: 2, 4000000000: 3}

def source(ops, out, wasm, prefix):
    """the defined part of a history as a program"""
    def P(p):
        if not p: return '""'
        i = next((i for i, c in enumerate(p) if c[0] == '#'), None)
        if i is None: return '"' + prefix + '/'.join(p) + '"'
        a, c = ''.join(x + '/' for x in p[:i]), ''.join('/' + x for x in p[i + 1:])
        return f'cat_("{a}", tn_[{p[i][1:]}], "{c}")'
    F = (lambda f: f'F_[{f}]' if 0 <= f < 16 else '77') if wasm else str
    b, tmp, forks = [], 0, []
    for i, (op, x) in enumerate(zip(ops, out)):
        o = op['o']
        if not x: continue
        if o == 'fork':
            b.append(f'pi({i}); ps(": 1\\n"); flush_(); {{ pid_t p = fork(); if (p < 0) return 9; if (p == 0) {{'); continue
        if o in ('exit', 'kill', 'exec'):
            w = ['wait(&st)', 'waitpid(p, &st, 0)', 'wait4(p, &st, 0, NULL)', 'waitpid(-1, &st, 0)'][i % 4]
            if o == 'exit': b.append(f'pi({i}); ps(": "); flush_(); exit({op["c"]}); }}')
            elif o == 'kill': b.append(f'pi({i}); ps(": "); flush_(); mkdir(ready_({i}), 0700); for (;;) ; }} {{ struct stat s; while (stat(ready_({i}), &s) != 0) ; }} if (kill(p, SIGKILL) != 0) return 8;')
            else:
                call = 'execve(self_, av, ev_)' if op['f'] == 'e' else 'execvp(self_, av)'
                b.append(f'char *av[] = {{ self_, "{i}", "{op["c"]}", "{op["fd"]}", "{op["f"]}", NULL }}; flush_(); {call}; return 7; }}')
            b.append(f'int st = 77; pid_t q = {w}; pi(q == p); ps(" 0 "); pi(st); nl(); }}'); continue
        s = 'errno = 0; '
        if o == 'open':
            s += f'long r = open({P(op["p"])}, {" | ".join(op["fl"])}, 0{op["m"]:o}); '
            if wasm: s += (f'F_[{x[0]}] = r; if (r >= 0) r = {x[0]}; ' if x[0] >= 0 else '')
            s += f'R({i}, r);'
        elif o == 'read':
            s += f'unsigned char t[{op["n"] + 2}]; t[{op["n"]}] = 0x5a; long r = read({F(op["fd"])}, t, {op["n"]}); R({i}, r); for (int k = 0; k < r; ++k) {{ sp(); pi(t[k]); }} if (t[{op["n"]}] != 0x5a) ps(" overrun");'
        elif o == 'write':
            s += f'static const unsigned char t[] = {{ {",".join(map(str, op["b"] + [0]))} }}; R({i}, write({F(op["fd"])}, t, {len(op["b"])}));'
        elif o == 'lseek': s += f'R({i}, lseek({F(op["fd"])}, {op["off"]}, {op["w"]}));'
        elif o == 'far':
            s += f'int ok = lseek({op["fd"]}, {5000000000 + op["off"]}L, SEEK_SET) == {5000000000 + op["off"]}L; R({i}, lseek({op["fd"]}, -5000000000L, SEEK_CUR)); sp(); pi(ok);'
        elif o == 'close':
            s += f'long r = close({F(op["fd"])}); R({i}, r);' + (f' if (r == 0) F_[{op["fd"]}] = 77;' if wasm and 0 <= op['fd'] < 16 else '')
        elif o == 'dup': s += f'R({i}, dup({op["fd"]}));'
        elif o == 'pipe': s += f'int p[4] = {{ 77, 78, 79, 80 }}; R({i}, pipe(p)); sp(); pi(p[0]); sp(); pi(p[1]); if (p[2] != 79) ps(" overrun");'
        elif o in ('unlink', 'rmdir', 'chdir'): s += f'R({i}, {o}({P(op["p"])}));'
        elif o in ('mkdir', 'chmod'): s += f'R({i}, {o}({P(op["p"])}, 0{op["m"]:o}));'
        elif o == 'mkdirat': s += f'R({i}, mkdirat(AT_FDCWD, {P(op["p"])}, 0{op["m"]:o}));'
        elif o in ('stat', 'lstat', 'fstat', 'fstatat'):
            a = F(op['fd']) if o == 'fstat' else f'AT_FDCWD, {P(op["p"])}' if o == 'fstatat' else P(op['p'])
            z = ', 0' if o == 'fstatat' else ''
            s += f'struct stat t[2]; memset(t, 0x55, sizeof t); long r = {o}({a}, &t[0]{z}); R({i}, r); if (r == 0) pst_(&t[0]); for (int k = 0; k < (int)sizeof t[1]; ++k) if (((char*)&t[1])[k] != 0x55) {{ ps(" overrun"); break; }}'
        elif o == 'same':
            s += f'struct stat u, v; if (fstat({F(op["fd"])}, &u) != 0 || stat({P(op["p"])}, &v) != 0) R({i}, 7); else R({i}, u.st_ino == v.st_ino && u.st_dev == v.st_dev);'
        elif o == 'isatty': s += f'long r = isatty({op["fd"]}); int e = errno; pi({i}); ps(": "); pi(r); sp(); pi(e);'
        elif o == 'getcwd':
            s += f'static char t[8192]; memset(t, 1, sizeof t); char *g = getcwd(t, root_ + {op["k"]}); R({i}, g == NULL ? -1 : g == t ? 1 : 2); if (g != NULL) {{ for (char *c = g + root_; *c; ++c) pc(*c == \'/\' ? \' \' : *c); }} if (t[root_ + {op["k"]}] != 1) ps(" overrun");'
            if op['k'] == 1000: s += ' char *h = getcwd(NULL, 0); if (h == NULL || (g != NULL && strcmp(g, h) != 0)) ps(" other"); else free(h);'
        elif o == 'mkstemp':
            x6 = 'X' * op['x']; call = f'mkstemps(t, {len(op["suf"])})' if op['suf'] or i % 2 else 'mkstemp(t)'
            pre = 't' + (x6[6:]); lp = len(pre)
            s += f'static char t[40] = "t{x6}{op["suf"]}"; long r = {call}; R({i}, r); '
            if x[0] >= 0:
                s += f'int ok = strlen(t) == {lp + 6 + len(op["suf"])} && strncmp(t, "{pre}", {lp}) == 0 && alnum_(t + {lp}, 6) && strcmp(t + {lp + 6}, "{op["suf"]}") == 0; for (int k = 0; k < {tmp}; ++k) if (strcmp(t, tn_[k]) == 0) ok = 0; sp(); pi(ok); strcpy(tn_[{tmp}], t);'
                tmp += 1
        elif o == 'noexec': s += f'char *av[] = {{ "x", NULL }}; R({i}, execve({P(op["p"])}, av, ev_));'
        elif o == 'wait': s += f'int st; R({i}, ' + {'wait': 'wait(&st)', 'waitpid': 'waitpid(-1, &st, 0)', 'wait4': 'wait4(-1, &st, 0, NULL)'}[op['f']] + ');'
        elif o == 'srand48':
            v = nat(op['v']); s += f'srand48({v - (1 << 32) if v >> 31 else v}L); pi({i}); ps(": 0");'
        elif o == 'seed16':
            v = nat(op['v']); s += f'xs_[{op["k"]}][0] = {v & 65535}; xs_[{op["k"]}][1] = {v >> 16 & 65535}; xs_[{op["k"]}][2] = {v >> 32}; pi({i}); ps(": 0");'
        elif o == 'rand48':
            own = op['g'] == 'own'; a = f'xs_[{op["k"]}]' if own else ''
            f = ('nrand48' if own else 'lrand48') if op['f'] == 'l' else ('erand48' if own else 'drand48')
            s += f'pi({i}); ps(": "); ' + (f'pi({f}({a}));' if op['f'] == 'l' else f'pu(bits_({f}({a}), 2147483648.0));')
        elif o == 'names':
            t = ''.join(op['s']); n = len(t) + 1
            s += f'char u[{n + 1}] = "{t}", v[{n + 1}] = "{t}"; u[{n}] = v[{n}] = 7; pi({i}); ps(": "); ps(basename({"NULL" if not t and i % 2 else "u"})); sp(); ps(dirname({"NULL" if not t and i % 2 else "v"})); if (u[{n}] != 7 || v[{n}] != 7) ps(" overrun");'
        elif o == 'randseq': s += f'pi({i}); ps(": "); pi(seq_({SEEDS[op["seed"]]}, {op["seed"]}u, {op["n"]}, 0));'
        elif o == 'time': s += f'pi({i}); ps(": "); pi(time_());'
        b.append('{ ' + s + ' nl(); }')
    m = '''  if (argc == 5) { int fd = atoi(argv[3]); struct stat st; ps(argv[1]); ps(": "); ps(argv[2]); sp();
    pi(fstat(fd, &st) == 0 && S_ISREG(st.st_mode) ? lseek(fd, 0, SEEK_CUR) : -1); sp();
    const char *k = getenv("K"), *l = getenv("L"); if (*argv[4] == 'e' ? !k || strcmp(k, "v") || l : k || !l || strcmp(l, "w")) ps("environment ");
    flush_(); return atoi(argv[2]); }
  self_ = argv[0]; { char t[4096]; if (!getcwd(t, sizeof t)) return 6; root_ = strlen(t); strcpy(rdir_, t); }
''' if not wasm else ''
    return (f'#define MASK_ {"0170000" if wasm else "0177777"}\n' + HEAD + (NATIVE if not wasm else 'static int F_[16] = { 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77, 77 };\n') + 'static unsigned short xs_[4][3];\n'
            + 'int main(int argc, char *argv[]) {\n  (void)argc; (void)argv;\n' + m + '  if (!seq_(0, 1, 4, 1)) return 5;\n  ' + '\n  '.join(b) + '\n  flush_(); return 0;\n}\n')

def expected(ops, out, wasm):
    t = []
    for i, (op, x) in enumerate(zip(ops, out)):
        if not x: continue
        y = []
        for v in x:
            if isinstance(v, dict):
                y += [str(nat(v['big']))] if 'big' in v else [''.join(v['base']), ''.join(v['dir'])]
            else: y.append(str(v))
        if wasm and op['o'] in ('stat', 'lstat', 'fstat') and x[0] == 0: y[2] = str(x[2] // 4096 * 4096)
        t.append((i, [f'{i}:'] + y))
    return t

def norm(op, y, wasm):
    """error numbers are not part of what the WASI layer promises"""
    if wasm and len(y) > 2 and y[1] == '-1' and op['o'] not in ('names', 'rand48', 'randseq', 'time'): y = y[:2] + ['*'] + y[3:]
    return y

devnull = open('/dev/null', 'rb')
def replay(chk, d, names, hs, base):
    tgts = creplay.targets(d, names); wasm = tgts[0].tg == 'wasm'
    specs = H.spec_cases('CPosix', [dict(umask=h['umask'], ops=h['ops']) for h in hs], chk, timeout=600)
    for tgt in tgts:
        w = os.path.join(base, tgt.name); os.makedirs(w); os.chmod(w, 0o755)
        def one(i):
            h = hs[i]; cw = os.path.join(w, f'p{i}'); os.mkdir(cw); os.chmod(cw, 0o755)
            src = source(h['ops'], specs[i]['out'], wasm, f'/p{i}/' if wasm else '')
            c = os.path.join(w, f'p{i}.c'); exe = os.path.join(w, f'p{i}.' + ('wasm' if wasm else 'exe'))
            with open(c, 'w') as fp: fp.write(src)
            rc, o, e = H.run([tgt.cc, *tgt.flags, '-o', exe, c], timeout=30)
            if rc != 0: return ('compile', rc, e.decode('latin1')[-800:], src)
            if wasm: return ('wasm', exe, '', src)
            os.chown(cw, USER, USER); os.chmod(exe, 0o755)
            p = subprocess.Popen([exe], cwd=cw, stdin=devnull, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, user=USER, group=USER, extra_groups=[], umask=h['umask'], env={'L': 'w'}, start_new_session=True)
            try: out = p.communicate(timeout=20)[0]; rc = p.returncode
            except subprocess.TimeoutExpired: out = b''; rc = 'timeout'
            finally:
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.wait()
            os.unlink(exe)
            return ('ran', rc, out.decode('latin1'), src)
        res = list(H.pmap(one, range(len(hs))))
        if wasm:
            idx = [i for i, x in enumerate(res) if x[0] == 'wasm']
            for i, g in zip(idx, H.run_wasm_batch([res[i][1] for i in idx], workdir=w)): res[i] = ('ran', g[0], g[1].decode('latin1') if isinstance(g[1], bytes) else g[1], res[i][3])
        chk.add('traces_validated_against_impl', len(res))
        for i, x in enumerate(res):
            h = hs[i]
            if x[1] == 'skipped': continue
            files = {'t.c': x[3]}
            if x[0] != 'ran': chk.violation(f'{tgt.name} compile', f'{tgt.name}: compiler failed: {x[2]}', files); continue
            want = expected(h['ops'], specs[i]['out'], wasm)
            got = {}
            for l in x[2].split('\n'):
                t = l.split()
                if t: got.setdefault(t[0], t)
            chk.add('calls', len(want))
            for j, y in want:
                g = got.get(y[0], ['nothing']); op = h['ops'][j]
                if norm(op, y, wasm) != norm(op, g, wasm):
                    err = 'errno' if y[1:2] == g[1:2] == ['-1'] else 'result'
                    chk.violation(f'{tgt.tg} {op["o"]} {err}', f'{tgt.name}: call {j} {op}: specification {" ".join(y[1:])[:200]}, program {" ".join(g[1:])[:200]} (status {x[1]}, umask {h["umask"]:o})', files); break
            else:
                if x[1] != 0: chk.violation(f'{tgt.tg} status', f'{tgt.name}: ended with status {x[1]}', files)
        shutil.rmtree(w, ignore_errors=True)
    for h, s in list(zip(hs, specs))[:3]:
        for op, x in list(zip(h['ops'], s['out']))[:25]:
            if x: chk.sample(f'{op} -> {x}'[:200])

def main(chk):
    d = H.build(); r = chk.rng
    base = tempfile.mkdtemp(prefix='vf-posix-')
    os.chmod(base, 0o755)
    try:
        n = int(os.environ.get('VERIF_N', 0)) or (480 if chk.quick() else 4800)
        for k in range(0, n, 240):
            m = min(240, n - k)
            hs = [dict(umask=r.choice([0o22, 0o22, 0, 0o77, 0o27, 0o2]), ops=history(r, False, r.choice([20, 50, 90]))) for _ in range(m)]
            replay(chk, d, ['x64'] if k % 480 == 0 else ['x64-ssa'], hs, base)
            chk.log('x86-64')
            hs = [dict(umask=0o22, ops=history(r, True, r.choice([20, 50, 90]))) for _ in range(m // 3)]
            replay(chk, d, ['wasm'], hs, base)
            chk.log('wasm')
            if chk.viol: break
    finally: shutil.rmtree(base, ignore_errors=True)
