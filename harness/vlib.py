"""Shared machinery: running TLC, evidence, verdicts, parallel replay with time limits."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.environ.get('PDFSYNTAX_REPO', '/repo'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar'
_cps = [JAR] + [os.path.join('/opt/veriftools/tla', x) for x in sorted(os.listdir('/opt/veriftools/tla'))
                if x.endswith('.jar') and x != 'tla2tools.jar']
CP = ':'.join(_cps)


class MachineryError(Exception):
    pass


class Raw(str):
    """A TLA+ expression given as text."""


def tla(v):
    """Python value -> TLA+ expression (for cfg constants and data modules)."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=str)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {tla(x)}' for k, x in v.items()) + ']'
    raise TypeError(v)


class TLCRun:
    def __init__(self):
        self.values, self.states, self.distinct, self.text, self.code = [], 0, 0, '', 0


def _cmd(workdir, module, extra, heap):
    return (['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', CP, 'tlc2.TLC',
             '-config', f'{module}_run.cfg', '-metadir', os.path.join(workdir, 'md'), '-noGenerateSpecTE'] + extra
            + [f'{module}_run.tla'])


def tlc(module, consts=None, spec='Spec', invariants=(), properties=(), post=None, simulate=None, depth=None,
        workers=8, seed=None, files=None, heap='4g', timeout=800, constraint=None, view=None, check=True,
        overrides=None):
    """Run TLC on spec/<module>.tla. Constants are given as Python values (defined in a wrapper module).

    simulate=(n, depth) uses random behaviours. files: {name: text} written beside the module.
    Returns a TLCRun with every value printed by PrintT(ToJson(..))."""
    d = tempfile.mkdtemp(prefix='tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), 'w') as h:
                h.write(t)
        consts = consts or {}
        with open(os.path.join(d, module + '_run.tla'), 'w') as h:
            h.write(f'---- MODULE {module}_run ----\nEXTENDS {module}\n')
            for k, v in consts.items():
                h.write(f'c_{k} == {tla(v)}\n')
            h.write('====\n')
        with open(os.path.join(d, module + '_run.cfg'), 'w') as h:
            h.write(f'SPECIFICATION {spec}\n')
            for k in consts:
                h.write(f'CONSTANT {k} <- c_{k}\n')
            for i in invariants:
                h.write(f'INVARIANT {i}\n')
            for i in properties:
                h.write(f'PROPERTY {i}\n')
            if post:
                h.write(f'POSTCONDITION {post}\n')
            if constraint:
                h.write(f'CONSTRAINT {constraint}\n')
            if view:
                h.write(f'VIEW {view}\n')
            h.write('CHECK_DEADLOCK FALSE\n')
        runs = []
        if simulate:
            n, dep = simulate
            k = max(1, min(workers, n // 20 or 1))
            for w in range(k):
                sd = (seed if seed is not None else SEED) * 1000 + w
                ex = ['-simulate', f'num={-(-n // k)}', '-depth', str(dep), '-seed', str(sd), '-workers', '1']
                wd = os.path.join(d, f'w{w}')
                os.mkdir(wd)
                runs.append((wd, _cmd(wd, module, ex, '1g')))
        else:
            runs.append((d, _cmd(d, module, ['-workers', str(workers)], heap)))
        procs = []
        for wd, c in runs:
            out = open(os.path.join(wd, 'stdout'), 'w+')
            procs.append((subprocess.Popen(c, cwd=d, stdout=out, stderr=subprocess.STDOUT), out))
        r = TLCRun()
        end = time.time() + timeout
        for p, out in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q, _ in procs:
                    q.kill()
                raise MachineryError(f'TLC timeout on {module}')
            out.seek(0)
            text = out.read()
            out.close()
            r.text += text
            r.code = max(r.code, p.returncode)
            ms = list(re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct', text))
            if ms:
                r.states += int(ms[-1].group(1).replace(',', ''))
                r.distinct += int(ms[-1].group(2).replace(',', ''))
            else:
                mm = re.findall(r'([\d,]+) states checked', text)
                if mm:
                    r.states += int(mm[-1].replace(',', ''))
        for line in r.text.split('\n'):
            if line.startswith('"') and line.endswith('"'):
                try:
                    r.values.append(json.loads(json.loads(line)))
                except ValueError:
                    pass
        if check and (r.code != 0 or 'Error:' in r.text):
            tail = '\n'.join(l for l in r.text.split('\n') if not l.startswith('"'))
            k = tail.find('Error:')
            tail = tail[k:k + 2500] if k >= 0 else tail[-3000:]
            raise MachineryError(f'TLC failed on {module} (code {r.code}):\n{tail}')
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang('time limit')


_hangs = None     # cases without answer so far, shared by the workers
MAX_HANGS = 16


def _guard(job):
    fun, case, limit = job
    if _hangs.value >= MAX_HANGS:
        return {'crash': 'not run: too many cases without answer', 'kind': 'hang'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fun(case)
    except Hang:
        with _hangs.get_lock():
            _hangs.value += 1
        return {'crash': f'no answer within {limit} s', 'kind': 'hang'}
    except MachineryError as e:
        return {'machinery': str(e)}
    except Exception as e:
        return {'crash': traceback.format_exc()[-1500:], 'kind': type(e).__name__}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def pmap(fun, cases, limit=30, procs=8, chunk=None):
    """Ordered results of fun over cases in forked workers. A result {'crash': ..} stands for an exception."""
    global _hangs
    import multiprocessing as mp
    if _hangs is None:
        _hangs = mp.get_context('fork').Value('i', 0)
    cases = list(cases)
    if not cases:
        return []
    jobs = [(fun, c, limit) for c in cases]
    if len(cases) < 16:
        procs = min(procs, len(cases))
    with mp.get_context('fork').Pool(procs) as pool:
        res = pool.map(_guard, jobs, chunksize=chunk or max(1, min(50, len(cases) // (procs * 4) or 1)))
    for r in res:
        if isinstance(r, dict) and 'machinery' in r:
            raise MachineryError(r['machinery'])
    return res


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


class Check:
    """Verdict and evidence of one property's check."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.cov = {'samples': []}
        self.violations, self.assumptions, self.findings = [], [], []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def tlc(self, *a, **kw):
        r = tlc(*a, **kw)
        n = r.distinct or r.states or len(r.values)
        self.add(states=n, transitions=(r.states - (0 if r.distinct else len(r.values))) if r.states else n)
        return r

    def sample(self, x, n=4):
        if len(self.cov['samples']) < n:
            s = x if isinstance(x, (str, dict, list)) else repr(x)
            if len(json.dumps(s, default=repr)) > 3000:
                s = json.dumps(s, default=repr)[:3000] + '...'
            self.cov['samples'].append(s)

    def violation(self, key, detail):
        """key: short identification of the failing input; detail: what happened (JSON-able)."""
        for f in known_findings():
            if f.get('status') == 'open' and f.get('property') == self.pid and f.get('key') == key:
                if key not in self.findings:
                    self.findings.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {f.get('what')}")
                return
        self.violations.append((key, detail))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        cov = self.cov
        cov.setdefault('states', 0)
        cov.setdefault('transitions', 0)
        cov.setdefault('traces_validated_against_impl', 0)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=repr)
        if self.violations:
            path = os.path.join(VERIF, 'out', f'{self.pid}-replay.json')
            with open(path, 'w') as h:
                json.dump([{'key': k, 'detail': d} for k, d in self.violations[:20]], h, indent=1, default=repr)
            k, d = self.violations[0]
            print(f'{len(self.violations)} mismatches; first: {k}: {json.dumps(d, default=repr)[:1500]}')
            print(f'VIOLATION property={self.pid} replay={path}')
            sys.exit(1)
        print(f'{self.pid} held: {json.dumps({k: v for k, v in cov.items() if k != "samples"})} in {ev["wall_s"]} s')
        sys.exit(0)


def main(pid, fun):
    try:
        c = Check(pid)
        fun(c)
        c.finish()
    except MachineryError as e:
        print(f'MACHINERY ERROR: {e}', file=sys.stderr)
        sys.exit(3)
