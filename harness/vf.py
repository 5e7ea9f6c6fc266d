"""Shared machinery of the checks: run TLC, drive the code under test, validate the traces, report.

Every verdict about the code is TLC's: the drivers only execute public API calls of /repo's working tree and
project what they observe to integers, strings and sequences; the trace specifications in /verif/spec accept or
reject each event and name the clause that failed.
"""
import collections, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MAXINT = 2 ** 31 - 1


class Machinery(Exception):
    """The machinery itself failed: an error exit, never a verdict."""


def plain(x):
    """Checks that x is what TLC's JSON reader can represent."""
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int):
        if abs(x) > MAXINT:
            raise Machinery('integer out of range for TLC: %r' % x)
        return x
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    raise Machinery('value TLC cannot read: %r' % (x,))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.found = [], [], []
        self.actions = collections.Counter()
        self.assumptions = []
        self.hung = 0
        self.extra = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- TLC -------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers='1', args=(), timeout=800, heap='4g'):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-metadir', meta,
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg] + list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode('utf8', 'replace')

    def model(self, module, cfg=None, workers='4', args=(), timeout=800, expect_actions=(), env=None):
        """Model-check a design specification; its invariants must hold, or the machinery is wrong."""
        cfg = cfg or module + '.cfg'
        t = time.time()
        rc, out = self.tlc(module, cfg, env=env, workers=workers, args=('-coverage', '60') + tuple(args), timeout=timeout)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise Machinery('model %s/%s: TLC exit %d\n%s' % (module, cfg, rc, out[-3000:]))
        gen, dist = map(int, m[-1])
        cov = dict((a, int(g)) for a, g in re.findall(r'<(\w+) line [^>]*>: \d+:(\d+)', out))
        for a in expect_actions:
            if not cov.get(a):
                raise Machinery('model %s/%s: action %s never taken' % (module, cfg, a))
        self.states += dist
        self.transitions += gen
        self.models.append(dict(model=module, cfg=cfg, distinct_states=dist, transitions=gen,
                                actions_taken=cov, seconds=round(time.time() - t, 1)))
        return out

    def behaviours(self, module, cfg, num, depth, seed=None, timeout=300):
        """Behaviours of a specification (TLC simulation), printed by the spec as JSON lines starting with @@."""
        rc, out = self.tlc(module, cfg, args=('-simulate', 'num=%d' % num, '-depth', str(depth), '-seed',
                                              str(seed if seed is not None else self.seed)), timeout=timeout)
        res = [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')]
        if not res:
            raise Machinery('no behaviours from %s\n%s' % (module, out[-2000:]))
        return res

    def validate(self, module, traces, cfg=None, timeout=800, sample=1, batch=400, env=None):
        """Validate recorded traces; every rejected trace is a violation with the name of the failing clause.
        Returns the verdict records (after the known findings were taken out)."""
        cfg = cfg or module + '.cfg'
        traces = [t for t in traces if t is not None]
        if not traces:
            raise Machinery('no traces to validate with %s' % module)
        new = []
        chunks = [traces[k:k + batch] for k in range(0, len(traces), batch)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            results = list(ex.map(lambda c: self._validate(module, cfg, c, timeout, env), chunks))
        for chunk, v in zip(chunks, results):
            self.traces += len(chunk)
            for t in chunk:
                self.events += len(t['ev'])
                self.actions.update(e.get('a', '?') for e in t['ev'])
            for b in v['bad']:
                t = chunk[b['tr'] - 1]
                ev = t['ev'][b['pos'] - 1] if b['pos'] <= len(t['ev']) else None
                new.append(dict(property=self.pid, spec=module, clauses=sorted(b['why']), position=b['pos'],
                                event=ev, trace=t))
        for t in traces[:sample]:
            self.samples.append(dict(spec=module, meta=t['meta'], events=t['ev'][:4]))
        self.found += new
        return new

    def _validate(self, module, cfg, chunk, timeout, env=None):
        d = tempfile.mkdtemp(prefix='tr-', dir=self.work)
        tf, vfile = os.path.join(d, 'trace.json'), os.path.join(d, 'verdict.json')
        with open(tf, 'w') as f:
            json.dump([plain(t) for t in chunk], f)
        rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=tf, VERDICT=vfile), timeout=timeout)
        if rc != 0 and re.search(r'[Oo]verflow|[Aa]ttempted to|evaluating|CHOOSE', out) and 'OutOfMemory' not in out:
            # some event lies outside the domain of the specification (TLC cannot even evaluate it): find which
            if len(chunk) == 1:
                return dict(traces=1, bad=[dict(tr=1, pos=self._reach(module, cfg, chunk[0], timeout, env), why=['WithinTheDomainOfTheSpecification'])])
            h = len(chunk) // 2
            a = self._validate(module, cfg, chunk[:h], timeout, env)
            if len(chunk) > 8 and any('WithinTheDomainOfTheSpecification' in b['why'] for b in a['bad']):
                return dict(traces=len(chunk), bad=a['bad'])
            b = self._validate(module, cfg, chunk[h:], timeout, env)
            return dict(traces=len(chunk), bad=a['bad'] + [dict(x, tr=x['tr'] + h) for x in b['bad']])
        if rc != 0 or not os.path.exists(vfile):
            keep = '/tmp/vf-last-failure.json'
            try:
                shutil.copy(tf, keep)
            except OSError:
                pass
            raise Machinery('trace spec %s: TLC exit %d (traces kept in %s)\n%s' % (module, rc, keep, out[-3500:]))
        with open(vfile) as f:
            v = json.load(f)
        if isinstance(v, list):
            v = v[0]
        if v['traces'] != len(chunk):
            raise Machinery('trace spec %s consumed %r of %d traces' % (module, v['traces'], len(chunk)))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        shutil.rmtree(d, ignore_errors=True)
        return v

    def _reach(self, module, cfg, trace, timeout, env):
        """The first event TLC fails on."""
        lo, hi = 0, len(trace['ev'])
        while hi - lo > 1:
            m = (lo + hi) // 2
            d = tempfile.mkdtemp(prefix='tr-', dir=self.work)
            tf = os.path.join(d, 'trace.json')
            with open(tf, 'w') as f:
                json.dump([plain(dict(trace, ev=trace['ev'][:m]))], f)
            rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE=tf, VERDICT=os.path.join(d, 'v.json')), timeout=timeout)
            lo, hi = (lo, m) if rc != 0 else (m, hi)
        return max(1, hi)

    # ---- driving the code under test ---------------------------------------------------------------------------
    def drive(self, driver, scenarios, limit=60, procs=8, total=600, hashing=0):
        """Run scenarios of harness/drv/<driver>.py against /repo; returns one trace per scenario."""
        scenarios = list(scenarios)
        out = [None] * len(scenarios)
        if self.hung:
            limit = min(limit, 10)               # the code hangs: do not wait long for it again
        k = max(1, min(procs, len(scenarios)))
        import concurrent.futures as cf
        deadline = time.time() + total

        def work(j):
            idx = list(range(j, len(scenarios), k))
            broken = 0
            while idx:
                done, status = self._spawn(driver, [scenarios[i] for i in idx], limit, deadline, hashing)
                for i, t in zip(idx, done):
                    out[i] = t
                if len(done) == len(idx):
                    return
                if status == 'deadline' and len(done) > 0 or status == 'Hung':
                    return                       # out of time, but what was driven was fine; or it hung twice
                i = idx[len(done)]
                out[i] = dict(meta=dict(scenarios[i].get('meta', {}), sc=short(scenarios[i])),
                              ev=[dict(a='died', err=status)])
                idx = idx[len(done) + 1:]
                broken += 1
                if broken >= 2 or self.hung or time.time() > deadline:
                    return
        with cf.ThreadPoolExecutor(max_workers=k) as ex:
            list(ex.map(work, range(k)))
        bad = [t.pop('harness_error') for t in out if t and t.get('harness_error')]
        if bad and len(bad) == len([t for t in out if t]):      # not one scenario worked: the driver itself is broken
            raise Machinery('driver %s: %s' % (driver, bad[0]))
        return out

    def _spawn(self, driver, scs, limit, deadline, hashing=0):
        d = tempfile.mkdtemp(prefix='drv-', dir=self.work)
        fin, fout = os.path.join(d, 'in.json'), os.path.join(d, 'out.ndjson')
        os.mkdir(os.path.join(d, 'cwd'))
        with open(fin, 'w') as f:
            json.dump(scs, f)
        e = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                 PYTHONHASHSEED=str((self.seed + hashing) % 1000), PYTHONPYCACHEPREFIX=os.path.join(self.work, 'pyc'),
                 MPLCONFIGDIR=os.path.join(self.work, 'mpl'), VERIF_REPO=REPO, TMPDIR=d)
        e.pop('PYTHONPATH', None)
        with open(os.path.join(d, 'err.txt'), 'wb') as err:
            p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'drive.py'), driver, fin, fout,
                                  str(limit)], cwd=os.path.join(d, 'cwd'), env=e, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                                 start_new_session=True)
            last, n, status = time.time(), 0, ''
            while p.poll() is None:
                time.sleep(0.05)
                c = count_lines(fout)
                if c > n:
                    n, last = c, time.time()
                if time.time() - last > limit + 20:
                    status = 'Hang'
                    break
                if time.time() > deadline:
                    status = 'deadline'
                    break
            rc = p.poll()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        done = []
        if os.path.exists(fout):
            with open(fout) as f:
                for l in f:
                    if l.endswith('\n'):
                        done.append(json.loads(l))
        done = done[:len(scs)]
        if rc == 77 and not status:
            status = 'Hung'
        self.hung += sum(1 for t in done if any(e.get('err') == 'Hang' and e.get('a') == 'died' for e in t.get('ev', []))) + (status == 'Hang')
        if len(done) < len(scs) and not status:
            status = 'Died(%s)' % rc
            with open(os.path.join(d, 'err.txt'), 'rb') as f:
                self.extra['last_stderr'] = f.read()[-1500:].decode('utf8', 'replace')
        shutil.rmtree(d, ignore_errors=True)
        return done, status

    # ---- reporting ---------------------------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        new, listed = [], collections.Counter()
        for v in self.found:
            k = next((k for k in known if matches(k, v)), None)
            if k is None:
                new.append(v)
            else:
                listed[k['what']] += 1
        for w in sorted(k['what'] for k in known):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        ev = os.path.join(VERIF, 'evidence')
        rp = os.path.join(ev, 'replay')
        os.makedirs(rp, exist_ok=True)
        for f in os.listdir(rp):
            if f.startswith(self.pid + '-'):
                os.unlink(os.path.join(rp, f))
        for i, v in enumerate(new[:10]):
            path = os.path.join(rp, '%s-%d.json' % (self.pid, i))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s rejects event %s: clauses %s' % (v['spec'], v['position'], ', '.join(v['clauses'])))
            print('  event: %s' % json.dumps(v['event'])[:600])
        if len(new) > 10:
            print('  (%d further rejected traces)' % (len(new) - 10))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_events=self.events, trace_events_by_action=dict(self.actions), models=self.models,
                   samples=json.loads(json.dumps(self.samples))[:12])
        cov.update({k: v for k, v in self.extra.items()})
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                           assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new)),
                      f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %d model states, %d traces (%d events) validated, %d violation(s), %.1f s' % (
            self.pid, self.tier, self.states, self.traces, self.events, len(new), time.time() - self.t0))
        return 1 if new else 0


def short(sc):
    s = json.dumps(sc)
    return s if len(s) < 1500 else s[:1500] + '...'


def count_lines(f):
    try:
        with open(f, 'rb') as h:
            return h.read().count(b'\n')
    except OSError:
        return 0


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [k for k in json.load(h)['findings'] if k['property'] == pid]


def matches(k, v):
    """A listed finding covers a violation only if spec, clauses and the identifying input all agree."""
    return (k['spec'] == v['spec'] and set(v['clauses']) <= set(k['clauses'])
            and all(v['trace']['meta'].get(a) == b for a, b in k.get('meta', {}).items())
            and all((v['event'] or {}).get(a) == b for a, b in k.get('event', {}).items()))
