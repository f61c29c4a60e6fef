"""Machinery shared by every check: TLC, the harness workers, evidence.

Pipeline of a check (see DESIGN.md):
  model()     TLC explores the specification and checks its invariants
  generate()  TLC produces behaviours of the specification (scripts)
  harness()   the scripts are executed by the real code, which records traces
  validate()  TLC replays the traces against the specification
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, copy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class CheckError(Exception):
    """The machinery itself failed: the check gives no answer."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


class TLCResult:
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
        self.cls = os.path.join(self.scratch, 'cls')
        os.mkdir(self.cls)
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.n = 0
        self._javac()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def _javac(self):
        r = subprocess.run(['javac', '-cp', TLA.split(':')[0], '-d', self.cls,
                            os.path.join(VERIF, 'specs', 'lib', 'BigRat.java')],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('javac: ' + r.stdout[-500:])

    def specdir(self):
        self.n += 1
        d = os.path.join(self.scratch, 'spec%d' % self.n)
        os.mkdir(d)
        for sub in ('', 'lib'):
            src = os.path.join(VERIF, 'specs', sub)
            for f in os.listdir(src):
                if f.endswith('.tla'):
                    shutil.copy(os.path.join(src, f), d)
        return d

    def tlc(self, module, cfg, files=None, args=(), workers=None, timeout=600, mem='6g'):
        """Run TLC on specs/<module>.tla with configuration text cfg."""
        d = self.specdir()
        for name, obj in (files or {}).items():
            with open(os.path.join(d, name), 'w') as f:
                if isinstance(obj, str):
                    f.write(obj)
                else:
                    json.dump(obj, f)
        with open(os.path.join(d, 'C.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-cp', TLA + ':' + self.cls,
               'tlc2.TLC', '-workers', str(workers or NPROC), '-deadlock', '-noGenerateSpecTE',
               '-metadir', os.path.join(d, 'states'), '-config', 'C.cfg'] + list(args) + [module + '.tla']
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
        res = TLCResult()
        res.out = r.stdout
        res.wall = time.time() - t
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.stdout):
            pass
        if m:
            res.states = int(m.group(2).replace(',', ''))
            res.transitions = int(m.group(1).replace(',', ''))
        else:
            m = re.search(r'The number of states generated: ([\d,]+)', r.stdout)
            res.states = res.transitions = int(m.group(1).replace(',', '')) if m else 0
        res.ok = ('Model checking completed. No error has been found' in r.stdout
                  or ('-simulate' in cmd and 'Error:' not in r.stdout))
        res.printed = [json.loads(l) for l in r.stdout.splitlines()
                       if l.startswith('"') and l.endswith('"')]
        keep = os.environ.get('VERIF_KEEP')
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        return res

    def model(self, module, cfg, expect_actions=(), **kw):
        """Exhaustive exploration of the specification; its invariants must hold."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            tail = [l for l in r.out.splitlines() if not l.startswith('Loading')]
            i = next((k for k, l in enumerate(tail) if 'Error' in l), 0)
            raise CheckError('model %s: %s' % (module, '\n'.join(tail[i:i + 60])))
        self.cov['states'] += r.states
        self.cov['transitions'] += r.transitions
        self.log('model %s: %d states, %d transitions (%.1fs)' % (module, r.states, r.transitions, r.wall))
        return r

    def simulate(self, module, cfg, num, depth, **kw):
        """Random exploration of the specification; its invariants must hold."""
        r = self.tlc(module, cfg, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed)],
                     **dict({'workers': 4}, **kw))
        if not r.ok:
            i = r.out.find('Error:')
            raise CheckError('simulate %s: %s' % (module, r.out[i:i + 3000]))
        self.cov['states'] += r.states
        self.cov['transitions'] += r.transitions
        self.log('simulate %s: %d states (%.1fs)' % (module, r.states, r.wall))
        return r

    def generate(self, module, cfg, num, depth, seed=None, files=None, timeout=300):
        """Behaviours of the specification: the JSON it prints with tag GEN."""
        r = self.tlc(module, cfg, files=files, workers=1, timeout=timeout,
                     args=['-simulate', 'num=%d' % num, '-depth', str(depth),
                           '-seed', str(self.seed if seed is None else seed)])
        out = [json.loads(l[4:]) for l in r.printed if l.startswith('GEN ')]
        if not r.ok or not out:
            tail = [l for l in r.out.splitlines() if not l.startswith('Loading')]
            raise CheckError('generate %s: %s' % (module, '\n'.join(tail[-40:])))
        seen, uniq = set(), []
        for o in out:
            k = json.dumps(o, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(o)
        self.cov['transitions'] += r.transitions
        self.log('generate %s: %d behaviours (%d distinct, %.1fs)' % (module, len(out), len(uniq), r.wall))
        return uniq

    # -------------------------------------------------------------- harness
    def harness(self, module, jobs, job_timeout=30, total=600, procs=None, env=None, partial=False, hangs=2):
        """Run harness/<module>.py:run(job) for every job on the code in /repo.
        Returns one result per job; a job that kills or hangs the interpreter
        yields {'harness': 'hang' | 'crash ...'}; after `hangs` of them a worker gives
        up its remaining jobs ('late')."""
        procs = min(procs or NPROC, len(jobs)) or 1
        d = os.path.join(self.scratch, 'h%d' % self.n)
        self.n += 1
        os.mkdir(d)
        pending = [[(i, jobs[i]) for i in range(p, len(jobs), procs)] for p in range(procs)]
        results = {}
        t0 = time.time()
        active = {}
        serial = 0

        def launch(p):
            nonlocal serial
            serial += 1
            w = os.path.join(d, 'w%d' % serial)
            os.mkdir(w)
            with open(os.path.join(w, 'jobs.json'), 'w') as f:
                json.dump(pending[p], f)
            e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': w, 'LANG': 'C.UTF-8',
                 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
                 'OMP_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore', 'PYTHONDONTWRITEBYTECODE': '1',
                 'PYTHONPYCACHEPREFIX': os.path.join(w, 'pyc'), 'PYTHONPATH': REPO,
                 'TMPDIR': w, 'VERIF_SCRATCH': w, 'VERIF_REPO': REPO,
                 'VERIF_JOB_TIMEOUT': str(job_timeout), 'VERIF_HANGS': str(hangs)}
            e.update(env or {})
            err = open(os.path.join(w, 'err'), 'w')
            pr = subprocess.Popen([PY, os.path.join(VERIF, 'harness', 'worker.py'), module],
                                  cwd=w, env=e, stdin=subprocess.DEVNULL,
                                  stdout=err, stderr=err, start_new_session=True)
            active[p] = (pr, w, err)

        def collect(w):
            got, started = {}, None
            last = None
            path = os.path.join(w, 'out.ndjson')
            if os.path.exists(path):
                with open(path) as f:
                    for l in f:
                        try:
                            o = json.loads(l)
                        except ValueError:
                            continue
                        if 'start' in o:
                            started = o['start']
                        else:
                            got[o['i']] = o['r']
                            started = None
                last = os.path.getmtime(path)
            return got, started, last

        for p in range(procs):
            if pending[p]:
                launch(p)
        while active:
            time.sleep(0.05)
            for p in list(active):
                pr, w, err = active[p]
                rc = pr.poll()
                kill = False
                if rc is None:
                    if time.time() - t0 > total:
                        kill = 'total time'
                    else:
                        path = os.path.join(w, 'out.ndjson')
                        if os.path.exists(path) and time.time() - os.path.getmtime(path) > job_timeout + 20:
                            kill = 'hang'
                    if not kill:
                        continue
                    try:
                        os.killpg(pr.pid, 9)
                    except OSError:
                        pass
                    pr.wait()
                err.close()
                got, started, _ = collect(w)
                results.update(got)
                rest = [(i, j) for i, j in pending[p] if i not in got]
                msg = open(os.path.join(w, 'err')).read()[-800:]
                del active[p]
                if rest:
                    if started is None and not got:
                        # the worker could not even start (import of the code fails)
                        for i, j in rest:
                            results[i] = {'harness': 'startup: ' + msg}
                        rest = []
                    elif started is not None:
                        results[started] = {'harness': 'hang' if kill else 'crash rc=%s %s' % (rc, msg[-200:])}
                        rest = [(i, j) for i, j in rest if i != started]
                    if rest and time.time() - t0 > total and partial:
                        for i, j in rest:
                            results[i] = {'harness': 'late'}
                        rest = []
                    if rest and time.time() - t0 > total:
                        raise CheckError('harness %s: %d jobs not run within %ds' % (module, len(rest), total))
                    if rest:
                        pending[p] = rest
                        launch(p)
                shutil.rmtree(w, ignore_errors=True)
        self.log('harness %s: %d jobs (%.1fs)' % (module, len(jobs), time.time() - t0))
        return [results.get(i, {'harness': 'lost'}) for i in range(len(jobs))]

    # ------------------------------------------------------------- validate
    def validate(self, module, cfg, traces, timeout=600, quiet=False, shards=None):
        """TLC replays the traces (TraceFile 'traces.json'); for every trace the
        specification prints  VERDICT tid ok|<clause> step .  Returns the list
        of (clause, step) or None per trace."""
        if not traces:
            raise CheckError('no traces to validate')
        verdict = {}
        r = self.tlc(module, cfg, files={'traces.json': traces}, timeout=timeout, mem='12g')
        for l in r.printed:
            if l.startswith('VERDICT '):
                _, tid, clause, step = l.split(' ', 3)
                tid = int(tid) - 1
                if clause != 'ok' or tid not in verdict:
                    if verdict.get(tid, ('ok', 0))[0] == 'ok':
                        verdict[tid] = (clause, step)
        if not r.ok or len(verdict) != len(traces):
            tail = [l for l in r.out.splitlines() if not l.startswith('Loading') and not l.startswith('"')]
            raise CheckError('validate %s: %d verdicts for %d traces\n%s' % (
                module, len(verdict), len(traces), '\n'.join(tail[-60:])[-6000:]))
        if not quiet:
            self.cov['traces_validated_against_impl'] += len(traces)
            self.cov['transitions'] += r.transitions
            self.log('validate %s: %d traces, %d rejected (%.1fs)' % (
                module, len(traces), sum(v[0] != 'ok' for v in verdict.values()), r.wall))
        return [None if verdict[i][0] == 'ok' else verdict[i] for i in range(len(traces))]

    # -------------------------------------------------------------- results
    def known_findings(self):
        path = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
        out = []
        if os.path.exists(path):
            for l in open(path):
                l = l.strip()
                if l.startswith('{'):
                    o = json.loads(l)
                    if o.get('property') == self.prop and o.get('status') == 'known':
                        out.append(o)
        return out

    def violation(self, what, data, key=None):
        """Record a violation, unless it is exactly a listed known finding."""
        for k in self.known_findings():
            if key is not None and k.get('key') == key:
                line = 'KNOWN-FINDING: property=%s %s' % (self.prop, k['what'])
                if line not in self.known:
                    self.known.append(line)
                return
        self.violations.append((what, data))

    def sample(self, obj, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(obj)

    def finish(self, level='model_checking'):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        doc = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
               'coverage': self.cov, 'assumptions': self.assumptions,
               'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        for l in self.known:
            print(l)
        if self.violations:
            rp = os.path.join(ev, 'replay_%s.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump([{'what': w, 'data': d} for w, d in self.violations[:int(os.environ.get("VERIF_DUMP", "10"))]], f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print('  violated:', str(w)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp), flush=True)
            return 1
        self.log('held: %s' % json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0

    def close(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.scratch, ignore_errors=True)


def corrupt_selftest(ctx, module, cfg, traces, corruptions):
    """Binding self-test: each corrupted copy of a good trace must be rejected.
    corruptions: list of (name, function(trace) -> corrupted trace or None)."""
    bad, names = [], []
    for name, fn in corruptions:
        for t in traces:
            c = fn(copy.deepcopy(t))
            if c is not None:
                bad.append(c)
                names.append(name)
                break
    if not bad:
        raise CheckError('self-test has no applicable corruption')
    v = ctx.validate(module, cfg, bad, quiet=True)
    missed = [n for n, x in zip(names, v) if x is None]
    if missed:
        raise CheckError('self-test: corrupted traces accepted: %s %s' % (missed, [str(b)[:1500] for b, x in zip(bad, v) if x is None]))
    ctx.cov['binding_selftests'] = ctx.cov.get('binding_selftests', 0) + len(bad)
    ctx.log('self-test: %d corrupted traces rejected' % len(bad))
