"""Orchestration shared by all checks: processes, TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
FAST = '/opt/venv/bin/python'
SLOW = '/opt/venv-slow/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'


class Machinery(Exception):
    """The check itself failed (never reported as a violation)."""


class Broken(Exception):
    """The implementation failed where it must not, and nothing more can be explored (a violation was recorded)."""


def env(extra=None):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PYMORPHY2_DICT_PATH', 'PYTEST_ADDOPTS'):
        e.pop(k, None)
    e.update(LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', HOME=e.get('HOME', '/root'))
    e.update(extra or {})
    return e


def run(cmd, timeout=600, extra_env=None, cwd=None, ok=(0,), stdin=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra_env),
                       timeout=timeout, cwd=cwd, input=stdin)
    if ok is not None and p.returncode not in ok:
        err = p.stderr.decode('utf8', 'replace')
        frames = re.findall(r'^  File "([^"]+)", line (\d+), in (\S+)', err, re.M)
        if p.returncode == 1 and frames and frames[-1][0].startswith('/repo/pymorphy2/') and 'MemoryError' not in err[-500:]:
            # an exception of the code under test where the harness asks for nothing that may fail
            raise Broken('the code under test failed: %s in %s' % (err.strip().split('\n')[-1][:200], frames[-1][2]), {'stderr': err[-4000:]})
        raise Machinery('%r exited with %d\n%s\n%s' % (cmd, p.returncode, p.stdout.decode('utf8', 'replace')[-3000:],
                                                       p.stderr.decode('utf8', 'replace')[-6000:]))
    return p


def parallel(thunks, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]


class Work:
    """scratch directory of one check run"""
    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix='vp_%s_' % name)
    def __call__(self, *p):
        return os.path.join(self.dir, *p)
    def close(self):
        if os.environ.get('VP_KEEP'):
            print('kept', self.dir, file=sys.stderr)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- drivers

def drive(work, job, out, interp=FAST, shards=4, timeout=700, script='drive.py'):
    """Run the implementation on a job file; merged list of observations by id.
    A driver that dies is machinery unless it leaves a crash record."""
    outs = ['%s.%d' % (out, i) for i in range(shards)]
    def one(i):
        return run([interp, os.path.join(HARN, script), job, outs[i], str(i), str(shards)], timeout=timeout)
    parallel([lambda i=i: one(i) for i in range(shards)], shards)
    res = {}
    for o in outs:
        with open(o, encoding='utf8', errors='surrogatepass') as f:
            for line in f:
                r = json.loads(line)
                res[r['id']] = r['obs']
    return res


_ASTRAL = re.compile('[\U00010000-\U0010ffff]')

def bmp(obj):
    """Replace characters outside the BMP by private-use ones, consistently inside obj (JSON value)."""
    text = json.dumps(obj, ensure_ascii=False)
    if not _ASTRAL.search(text):
        return text
    m = {}
    free = (chr(c) for c in range(0xE000, 0xF900) if chr(c) not in text)
    def sub(mo):
        if mo.group(0) not in m: m[mo.group(0)] = next(free)
        return m[mo.group(0)]
    return _ASTRAL.sub(sub, text)


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self):
        self.ok, self.bad, self.states, self.transitions = set(), {}, 0, 0
        self.out = ''
        self.lines = []


def tlc(work, module, env_files, cfg=None, workers=8, timeout=800, heap='8g', args=(), expect_ok=True, tag=''):
    meta = work('tlc_%s%s' % (module, tag))
    cmd = ['java', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JAR,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', os.path.join(SPEC, cfg or module + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
    p = run(cmd, timeout=timeout, extra_env=env_files, cwd=SPEC, ok=None)
    out = p.stdout.decode('utf8', 'replace')
    r = TLCResult()
    r.out = out
    r.rc = p.returncode
    for line in out.split('\n'):
        if line.startswith('"') and line.endswith('"'):
            s = line[1:-1]
            r.lines.append(s)
            if s.startswith('OK '):
                r.ok.add(int(s[3:]))
            elif s.startswith('BAD '):
                _, i, rest = s.split(' ', 2)
                m = re.match(r'\{([^}]*)\}', rest)
                cl = re.findall(r'\\?"([^"\\]+)\\?"', m.group(1))
                r.bad[int(i)] = (cl, rest)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        r.transitions, r.states = int(m[-1][0].replace(',', '')), int(m[-1][1])
    if expect_ok and (p.returncode != 0 or 'Model checking completed. No error has been found' not in out):
        if not args or '-simulate' not in args:
            raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, filter_out(out)))
    return r


def filter_out(out):
    keep = [l for l in out.split('\n') if not re.match(r'^(Parsing file|Semantic proc|Linting|"OK |"BAD )', l)]
    return '\n'.join(keep)[-6000:]


def validate(work, module, ctx, cases, cfg=None, tag='', timeout=800, workers=8):
    """Check recorded cases (dicts with id, obs) against a trace specification."""
    cf_, xf = work('cases%s.ndjson' % tag), work('ctx%s.json' % tag)
    with open(cf_, 'w', encoding='utf8') as f:
        for c in cases:
            f.write(bmp(c) + '\n')
    with open(xf, 'w', encoding='utf8') as f:
        json.dump(ctx, f, ensure_ascii=False)
    r = tlc(work, module, {'VP_CTX': xf, 'VP_CASES': cf_}, cfg=cfg, timeout=timeout, tag=tag, workers=workers)
    ids = {c['id'] for c in cases}
    if (r.ok | set(r.bad)) != ids:
        raise Machinery('verdicts missing for %d cases of %s' % (len(ids - r.ok - set(r.bad)), module))
    return r


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.known = load_known(pid)
        self.work = Work(pid)

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, key, info):
        """key: identifies the failing input/history (matched against known findings)"""
        for k in self.known:
            if k.get('key') == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                return
        self.violations.append((key, info))

    def judge(self, cases, r, clauses, describe):
        """Turn trace verdicts into violations of this property."""
        by = {c['id']: c for c in cases}
        for i in sorted(r.bad):
            cl = [x for x in r.bad[i][0] if clauses is None or x in clauses]
            if cl:
                c = by[i]
                self.violation(describe(c, cl), {'case': c, 'clauses': cl, 'spec': r.bad[i][1]})

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated, 'samples': self.samples[:6]}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        self.work.close()
        if self.violations:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + '.json')
            with open(path, 'w', encoding='utf8', errors='surrogatepass') as f:
                json.dump([{'key': k, 'info': i} for k, i in self.violations[:50]], f, ensure_ascii=False, indent=1, default=str)
            for k, i in self.violations[:5]:
                print('violation: %s' % (k,))
            print('%d violating cases' % len(self.violations))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s ok: %d states, %d traces validated, %.1fs' % (self.pid, self.states, self.validated, time.time() - self.t0))
        return 0


def load_known(pid):
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(fn):
        for line in open(fn, encoding='utf8'):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known':
                    res.append(k)
    return res
