"""Common machinery: scratch builds of /repo's working tree, TLC runs, replay of
programs on the real tools, evidence and verdicts."""
import atexit, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CPUS = os.cpu_count() or 4
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    """The specification side failed (never a verdict about the code)."""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def mkdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d

# ---------------------------------------------------------------- building
_IGN_EXE = {'xcc', 'cpp', 'cc1', 'as', 'ld', 'wcc', 'cc.wasm'}
def source_files():
    out = []
    for top in ('Makefile', 'src', 'libsrc', 'include'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(top)
            continue
        for d, ds, fs in os.walk(p):
            rel = os.path.relpath(d, REPO)
            ds[:] = sorted(x for x in ds if not (rel == 'libsrc' and x == 'obj') and x != 'node_modules')
            for f in sorted(fs):
                if not f.endswith(('.o', '.a', '.wasm')):
                    out.append(os.path.join(rel, f))
    return out

def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        p = os.path.join(REPO, f)
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        h.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:20]

def _make(d, *args, cc=('CC=gcc',)):
    env = dict(PATH=os.environ.get('PATH', '/usr/bin:/bin'), HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8')
    r = subprocess.run(['make', f'-j{CPUS}', *cc, *args], cwd=d, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        sys.stdout.buffer.write(r.stdout[-3000:])
        raise RuntimeError('build failed: make ' + ' '.join(args))

def build(gen2=False):
    """Compile /repo's working tree in a scratch copy; returns the directory."""
    cache = os.environ.get('VERIF_CACHE')        # development only
    if cache:
        d = os.path.join(cache, tree_hash())
        if not os.path.exists(os.path.join(d, '.ok')):
            shutil.rmtree(d, ignore_errors=True)
            _build(d)
            open(os.path.join(d, '.ok'), 'w').close()
    else:
        d = os.path.join(scratch(), 'build')
        if not os.path.exists(os.path.join(d, '.ok')):
            _build(d)
            open(os.path.join(d, '.ok'), 'w').close()
    if gen2 and not os.path.exists(os.path.join(d, '.ok2')):
        _make(d, 'gen2', cc=())
        open(os.path.join(d, '.ok2'), 'w').close()
    return d

def _build(d):
    os.makedirs(d)
    for f in source_files():
        src = os.path.join(REPO, f)
        dst = os.path.join(d, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.isfile(src):
            shutil.copy2(src, dst)
    _make(d, 'exes')
    _make(d, 'libs')
    _make(d, 'wcc')
    _make(d, 'wcc-libs')

# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out):
        self.out = out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
    def json_lines(self):
        r = []
        for line in self.out.split('\n'):
            if line.startswith('"@@'):
                r.append(json.loads(json.loads(line)[2:]))
        return r

def tlc(module, cfg=None, env=None, workers=None, timeout=600, args=(), heap='6g', expect_violation=False):
    meta = tempfile.mkdtemp(prefix='meta-', dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss1g', '-Xmx' + heap, '-cp', CP, 'tlc2.TLC', '-workers', str(workers or CPUS),
           '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg', *args, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ModelError(f'TLC timed out on {module}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode('utf-8', 'replace')
    if r.returncode != 0 and not expect_violation:
        log = '\n'.join(l for l in out.split('\n') if not l.startswith(('Parsing', 'Semantic', 'Linting', '"@@')))
        raise ModelError(f'TLC failed on {module} ({r.returncode}):\n' + log[-4000:])
    t = Tlc(out)
    t.rc = r.returncode
    return t

def spec_cases(module, cases, chk=None, timeout=600, cfg=None, key='pid', heap='6g', env=None):
    """Runs a specification over a batch of cases (environment CASES); -> its final report per case, in order."""
    f = os.path.join(scratch(), f'cases-{module}-{id(cases)}.json')
    with open(f, 'w') as fp: json.dump(cases, fp)
    t = tlc(module, cfg=cfg, env={'CASES': f, **(env or {})}, timeout=timeout, heap=heap)
    os.unlink(f)
    res = {r[key]: r for r in t.json_lines()}
    if len(res) != len(cases):
        raise ModelError(f'{module} reported {len(res)} of {len(cases)} cases\n' + t.out[-3000:])
    if chk:
        chk.add('states', t.distinct)
        chk.add('transitions', t.generated)
    return [res[i + 1] for i in range(len(cases))]

def spec_outcomes(module, cases, chk=None, timeout=600):
    """Like spec_cases for a specification with choices: -> the list of permitted reports per case."""
    f = os.path.join(scratch(), f'cases-{module}-{id(cases)}.json')
    with open(f, 'w') as fp: json.dump(cases, fp)
    t = tlc(module, env={'CASES': f}, timeout=timeout)
    os.unlink(f)
    res = [[] for _ in cases]
    for r in t.json_lines(): res[r['pid'] - 1].append(r)
    if not all(res): raise ModelError(f'{module} reported nothing for case {res.index([])}\n' + t.out[-3000:])
    if chk:
        chk.add('states', t.distinct)
        chk.add('transitions', t.generated)
    return res

# ---------------------------------------------------------------- running
def run(cmd, timeout=20, cwd=None, stdin=None, env=None, limit_as=None):
    """-> (rc, stdout, stderr); rc = -signal, or 'timeout'"""
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    except OSError as ex:
        return ('oserror', b'', str(ex).encode())
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return (p.returncode, o, e)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return ('timeout', o, e)

def pmap(f, xs, n=None):
    xs = list(xs)
    if not xs:
        return []
    with concurrent.futures.ThreadPoolExecutor(n or CPUS) as ex:
        return list(ex.map(f, xs))

NODE_RUN = os.path.join(VERIF, 'lib', 'runwasm.js')
def run_wasm_batch(items, timeout=30, workdir=None):
    """items: list of wasm paths -> list of (rc, stdout) ; rc int, or 'trap: ...' / 'invalid: ...'"""
    items = list(items)
    if not items:
        return []
    chunks = [items[i::CPUS] for i in range(CPUS)]
    d = tempfile.mkdtemp(prefix='wasm-', dir=scratch())
    res = {}
    def one(ci):
        todo = list(chunks[ci])
        hangs = 0
        while todo:
            if hangs >= 3:
                for f in todo: res[f] = ('skipped', b'')
                break
            lst = os.path.join(d, f'l{ci}')
            open(lst, 'w').write('\n'.join(todo))
            outp = os.path.join(d, f'o{ci}')
            open(outp, 'w').close()
            rc, o, e = run(['node', '--no-warnings', NODE_RUN, lst, outp, os.path.join(d, f's{ci}'), workdir or d], timeout=timeout)
            got = [json.loads(l) for l in open(outp).read().split('\n') if l.strip()]
            for g in got:
                res[g['f']] = (g['rc'], bytes.fromhex(g['out']))
            n = len(got)
            if n < len(todo):                     # the host process died or hung on item n
                hangs += 1
                res[todo[n]] = ('host: ' + str(rc) + ' ' + e.decode('utf-8', 'replace')[-200:], b'')
                n += 1
            todo = todo[n:]
    pmap(one, [i for i in range(CPUS) if chunks[i]])
    return [res[f] for f in items]

# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, level, tier):
        self.prop, self.level, self.tier = prop, level, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random(f'{prop}-{self.seed}-{tier}')
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.findings = load_findings()
        print(f'[{prop}] tier={tier} seed={self.seed}', flush=True)
    def quick(self):
        return self.tier != 'thorough'
    def log(self, msg):
        print(f'[{self.prop} {time.time()-self.t0:6.1f}s] {msg}', flush=True)
    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(str(s)[:1500])
    def violation(self, key, text, files=None):
        """key: specific identity of the failing input (matched against known findings)."""
        for f in self.findings:
            if f.get('status') == 'known' and f['property'] == self.prop and re.search(f['match'], key):
                if f['id'] not in self.known:
                    self.known.append(f['id'])
                    print(f"KNOWN-FINDING: property={self.prop} {f['what']}", flush=True)
                return
        n = len(self.viol)
        if n < 20:
            d = os.path.join(VERIF, 'evidence', 'replay', self.prop, f'{n:02d}')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for name, data in (files or {}).items():
                with open(os.path.join(d, name), 'wb') as fp:
                    fp.write(data if isinstance(data, bytes) else data.encode())
            with open(os.path.join(d, 'README'), 'w') as fp:
                fp.write(key + '\n' + text + '\n')
            print(f'VIOLATION property={self.prop} replay={d}', flush=True)
            print('   ' + key + ': ' + text[:600].replace('\n', '\n   '), flush=True)
        self.viol.append(key)
    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.cov, samples=self.samples or ['-'], known_findings=self.known,
                                violations=len(self.viol)),
                  wall_s=round(time.time() - self.t0, 2))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        self.log(('VIOLATIONS: %d' % len(self.viol) if self.viol else 'held') + ' ' +
                 json.dumps({k: v for k, v in self.cov.items()}))
        sys.exit(1 if self.viol else 0)

def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []
