"""Shared machinery: run TLC, replay scenarios on the real dill, validate traces, write evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
PY = os.environ.get('VT_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
SPECS = os.path.join(VERIF, 'specs')
DRIVERS = os.path.join(VERIF, 'drivers')
REPLAYS = os.path.join(VERIF, 'replays')
NCPU = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


def driver_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VT_SCN'))}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VT_VERIF=VERIF, VT_REPO=REPO,
               LC_ALL='C.UTF-8', PYTHONIOENCODING='utf-8')
    env.update(extra)
    return env


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.out = ''
        self.records = []
        self.violated = None
        self.coverage = {}


def run_tlc(module, *, constants=None, spec='Spec', init=None, next=None, invariants=(), properties=(),
            constraint=None, action_constraints=(), view=None, symmetry=None, postcondition=None,
            simulate=None, depth=None, seed=None, workers=None, env=None, timeout=600, deadlock=False,
            files=None, extra_constants=None, expect_violation=False, heap='8g', extra_cfg='', keep_records=True, alias=None):
    """Run TLC on specs/<module>.tla.  Records written through VT!EmitRec are returned parsed."""
    real = module
    work = tempfile.mkdtemp(prefix='vt_tlc_')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                fh.write(text)
        cfg = []
        if extra_constants:
            # values TLC's configuration language cannot write (records): a wrapper module defines them
            with open(os.path.join(work, 'MCW.tla'), 'w') as fh:
                fh.write('---- MODULE MCW ----\nEXTENDS %s\n%s\n====\n' % (module, '\n'.join(
                    'vtc_%s == %s' % (k, '{' + ', '.join(tla(x) for x in v) + '}' if isinstance(v, list) else tla(v)) for k, v in extra_constants.items())))
            constants = dict(constants or {}, **{k: '<- vtc_' + k for k in extra_constants})
            module = 'MCW'
        if init:
            cfg += ['INIT ' + init, 'NEXT ' + next]
        else:
            cfg += ['SPECIFICATION ' + spec]
        if constants:
            cfg.append('CONSTANTS')
            for k, v in constants.items():
                cfg.append('  %s = %s' % (k, tla(v)) if not (isinstance(v, str) and v.startswith('<-')) else '  %s %s' % (k, v))
        for i in invariants: cfg.append('INVARIANT ' + i)
        for p in properties: cfg.append('PROPERTY ' + p)
        if constraint: cfg.append('CONSTRAINT ' + constraint)
        for a in action_constraints: cfg.append('ACTION_CONSTRAINT ' + a)
        if view: cfg.append('VIEW ' + view)
        if symmetry: cfg.append('SYMMETRY ' + symmetry)
        if postcondition: cfg.append('POSTCONDITION ' + postcondition)
        if alias: cfg.append('ALIAS ' + alias)
        cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        if extra_cfg: cfg.append(extra_cfg)
        with open(os.path.join(work, 'MC.cfg'), 'w') as fh:
            fh.write('\n'.join(cfg) + '\n')
        out = os.path.join(work, 'emit.ndjson')
        e = dict(os.environ)
        e.update(VT_OUT=out, VT_DIR=work)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xmx%s -Xss64m -Djava.io.tmpdir=%s' % (heap, work)).strip()
        cmd = ['tlc', '-workers', str(workers or (1 if simulate else NCPU))  # (one: the same seed gives the same behaviours)
               , '-config', 'MC.cfg', '-metadir', os.path.join(work, 'md'),
               '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100)]
            if seed is not None: cmd += ['-seed', str(seed)]
        cmd.append(module + '.tla')
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timeout on %s' % module)
        module = real
        r = TLCResult()
        r.out = p.stdout
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states', p.stdout):
            r.states, r.distinct = (int(x.replace(',', '')) for x in m.groups())
        m = re.search(r'The number of states generated: ([\d,]+)', p.stdout)
        if m:
            r.states = int(m.group(1).replace(',', ''))
            r.distinct = r.distinct or r.states
        if os.path.exists(out) and keep_records:
            with open(out) as fh: lines = fh.read().splitlines()
            if not simulate: lines.sort()   # (the order in which the workers write is not fixed)
            for line in lines:
                line = line.strip()
                if line:
                    x = json.loads(line)
                    r.records.append(json.loads(x) if isinstance(x, str) else x)
        if p.returncode != 0:
            r.violated = p.stdout
            if not expect_violation:
                tail = '\n'.join(l for l in p.stdout.splitlines() if not l.startswith(('Parsing file', 'Semantic processing')))[-4000:]
                raise MachineryError('TLC failed on %s (rc=%s):\n%s' % (module, p.returncode, tail))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return json.dumps(v)
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


class Worker:
    """one worker process over a list of (index, scenario)"""
    def __init__(self, driver, items, workdir, k, env, per=30):
        self.driver, self.items, self.dir, self.k, self.per = driver, items, workdir, k, per
        self.env = env
        self.pos = 0
        self.results = {}
        self.proc = None
        self.gen = 0
        self.restarts = 0

    def start(self):
        self.gen += 1
        base = os.path.join(self.dir, 'w%d_%d' % (self.k, self.gen))
        with open(base + '.in', 'w') as fh:
            for i, sc in self.items[self.pos:]:
                fh.write(json.dumps([i, sc]) + '\n')
        self.out = base + '.out'
        self.scratch = base + '.d'
        os.mkdir(self.scratch)
        open(self.out, 'w').close()
        self.read_off = 0
        self.err = open(base + '.err', 'w')
        self.proc = subprocess.Popen([PY, '-B', os.path.join(VERIF, 'lib', 'worker.py'), self.driver, base + '.in', self.out, str(self.per)],
                                     cwd=self.scratch, env=self.env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                     start_new_session=True)
        self.last = time.time()

    def poll(self):
        """returns True when finished"""
        with open(self.out) as fh:
            fh.seek(self.read_off)
            while True:
                at = fh.tell()
                line = fh.readline()
                if not line.endswith('\n'):
                    self.read_off = at
                    break
                i, res = json.loads(line)
                self.results[i] = res
                self.pos += 1
                self.last = time.time()
        rc = self.proc.poll()
        if rc is None and time.time() - self.last > self.per * 2 + 30:
            self.kill()
            rc = 'hang'
        if rc is None: return False
        self.kill()
        # read the rest
        with open(self.out) as fh:
            fh.seek(self.read_off)
            for line in fh:
                if line.endswith('\n'):
                    i, res = json.loads(line)
                    self.results[i] = res
                    self.pos += 1
        if self.pos >= len(self.items):
            return True
        i, sc = self.items[self.pos]
        self.err.flush()
        try:
            with open(self.err.name, errors='replace') as fh: tail = fh.read()[-1500:]
        except OSError: tail = ''
        self.results[i] = {'bad': 'worker ended (%s) while running this scenario' % rc, 'err': tail}
        self.pos += 1
        self.restarts += 1
        if self.restarts > 20:
            for i, sc in self.items[self.pos:]:
                self.results[i] = {'skipped': True}
            return True
        if self.pos >= len(self.items): return True
        self.start()
        return False

    def kill(self):
        try: os.killpg(self.proc.pid, signal.SIGKILL)
        except (OSError, ProcessLookupError): pass
        try: self.proc.wait(5)
        except Exception: pass
        self.err.close() if not self.err.closed and self.proc.poll() is not None and False else None


def replay(driver, scenarios, *, jobs=None, per=30, env=None, stop_after=40, single_order=False, chunks=None):
    """run every scenario with drivers/<driver>.py; returns list of result dicts ({'bad': reason} when wrong)"""
    n = len(scenarios)
    if n == 0: return []
    jobs = min(jobs or NCPU, n)
    workdir = tempfile.mkdtemp(prefix='vt_run_')
    e = driver_env(**(env or {}))
    parts = chunks or [[(i, scenarios[i]) for i in range(k, n, jobs)] for k in range(jobs)]
    ws = [Worker(driver, part, workdir, k, e, per) for k, part in enumerate(parts) if part]
    try:
        for w in ws: w.start()
        live = list(ws)
        while live:
            time.sleep(0.02)
            live = [w for w in live if not w.poll()]
            bad = sum(1 for w in ws for r in w.results.values() if r.get('bad'))
            if bad >= stop_after:
                break
    finally:
        for w in ws:
            w.kill()
            try: w.err.close()
            except Exception: pass
        shutil.rmtree(workdir, ignore_errors=True)
    res = [None] * n
    for w in ws:
        for i, r in w.results.items(): res[i] = r
    return [r if r is not None else {'skipped': True} for r in res]


class Ctx:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known = []
        self.unreproduced = []
        self.assumptions = []
        self.distinct = set()
        self.exhaustive = None
        kf = os.path.join(VERIF, 'known_findings.json')
        self.findings = []
        if os.path.exists(kf):
            with open(kf) as fh:
                self.findings = [f for f in json.load(fh).get('findings', []) if f['property'] == pid]

    @property
    def thorough(self): return self.tier == 'thorough'

    def pick(self, quick, thorough): return thorough if self.thorough else quick

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def tlc(self, module, label=None, **kw):
        t = time.time()
        r = run_tlc(module, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append(dict(part=label or module, kind='simulate' if kw.get('simulate') else 'model check', spec=module,
                               states=r.distinct, transitions=r.states, emitted=len(r.records), wall_s=round(time.time() - t, 2)))
        self.log('TLC %s%s: %d distinct / %d generated states, %d behaviours emitted' %
                 (module, ' (%s)' % label if label else '', r.distinct, r.states, len(r.records)))
        return r.records

    def subset(self, recs, n):
        """deterministic sample of at most n records"""
        if len(recs) <= n: return recs
        rng = random.Random(self.seed * 7919 + len(recs))
        idx = sorted(rng.sample(range(len(recs)), n))
        return [recs[i] for i in idx]

    def replay(self, driver, scenarios, label=None, confirm=True, **kw):
        t = time.time()
        res = replay(driver, scenarios, **kw)
        done = [r for r in res if not r.get('skipped')]
        self.traces += len(done)
        for s in scenarios[:2]:
            if len(self.samples) < 6: self.samples.append(s)
        bad = [i for i, r in enumerate(res) if r.get('bad')]
        self.parts.append(dict(part=label or driver, kind='replay', driver=driver, scenarios=len(scenarios), run=len(done),
                               mismatches=len(bad), wall_s=round(time.time() - t, 2)))
        self.log('replayed %d/%d scenarios on dill with %s: %d mismatches' % (len(done), len(scenarios), driver, len(bad)))
        if confirm:
            self.judge(driver, scenarios, res, bad, kw)
        return res

    def is_known(self, driver, sc, bad):
        for f in self.findings:
            if f.get('status') == 'fixed': continue
            if f.get('driver') and f['driver'] != driver: continue
            if f.get('bad_regex') and not re.search(f['bad_regex'], str(bad), re.S): continue
            if any(k not in sc or sc[k] != v for k, v in f.get('match', {}).items()): continue
            if f.get('scenario_regex') and not re.search(f['scenario_regex'], json.dumps(sc, sort_keys=True)): continue
            return f
        return None

    def judge(self, driver, scenarios, res, bad, kw):
        kw = {k: v for k, v in kw.items() if k in ('per', 'env')}
        confirmed = 0
        for i in bad:
            why = res[i]['bad']
            f = self.is_known(driver, scenarios[i], why)
            if f:
                if f not in self.known: self.known.append(f)
                continue
            if confirmed >= 3: break
            again = replay(driver, [scenarios[i]], jobs=1, stop_after=10, **kw)[0]
            hist = [scenarios[i]]
            if not again.get('bad'):
                n = len(scenarios); jobs = min(NCPU, n)
                hist = [scenarios[j] for j in range(i % jobs, i + 1, jobs)]
                rr = replay(driver, hist, jobs=1, stop_after=1 << 30, **kw)
                again = rr[-1]
                # the same worker must fail on that same scenario again
            if not again.get('bad'):
                self.unreproduced.append(dict(scenario=scenarios[i], why=why))
                self.log('not reproducible, not reported: %s' % str(why)[:300])
                continue
            confirmed += 1
            self.violation(driver, hist, again['bad'], again)

    def violation(self, driver, hist, why, detail=None, extra=None):
        os.makedirs(REPLAYS, exist_ok=True)
        body = dict(property=self.pid, driver=driver, scenarios=hist, why=why, detail=detail, **(extra or {}))
        h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, '%s-%s.json' % (self.pid, h))
        with open(path, 'w') as fh: json.dump(body, fh, indent=1, default=str)
        self.violations.append(dict(why=why, replay=path))
        self.log('MISMATCH %s' % str(why)[:2000])
        self.log('  scenario: %s' % json.dumps(hist[-1], sort_keys=True)[:2000])

    def finish(self, level='model_checking', exhaustive=None, explanation=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6] or ['none'], parts=self.parts)
        if exhaustive is not None: cov['exhaustive'] = exhaustive
        if explanation: cov['explanation'] = explanation
        if self.unreproduced: cov['unreproduced'] = self.unreproduced[:5]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        for v in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, v['replay']))
        sys.stdout.flush()
        return 1 if self.violations else 0

    # -- trace validation ------------------------------------------------------------------
    def validate(self, module, traces, label=None, driver=None, scenarios=None, constants=None, confirm=None, **kw):
        """check recorded traces (list of lists of events) against specs/<module>.tla.

        The trace spec reads IOEnv.VT_DIR/traces.ndjson (one trace per line), and emits {tid, l, clause} for each
        trace it rejects and {tid, ok:true} for each it accepts."""
        t = time.time()
        text = '\n'.join(json.dumps(tr) for tr in traces) + '\n'
        r = run_tlc(module, constants=constants, files={'traces.ndjson': text}, **kw)
        self.states += r.distinct
        self.transitions += r.states
        rej = {}
        acc = set()
        for x in r.records:
            if x.get('ok'): acc.add(x['tid'])
            else: rej.setdefault(x['tid'], x)
        lost = [k for k in range(1, len(traces) + 1) if k not in acc and k not in rej]
        for k in lost: rej[k] = dict(tid=k, clause='trace neither accepted nor rejected (stuck)')
        for k in acc:
            if k in rej and not rej[k].get('hard'): rej.pop(k)
        self.traces += len(traces)
        self.parts.append(dict(part=label or module, kind='trace validation', spec=module, traces=len(traces),
                               events=sum(len(tr) if isinstance(tr, list) else 1 for tr in traces), rejected=len(rej), states=r.distinct,
                               wall_s=round(time.time() - t, 2)))
        self.log('TLC %s: %d recorded traces validated (%d states), %d rejected' % (module, len(traces), r.distinct, len(rej)))
        return rej


def main(run, pid):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--tier')
    ap.add_argument('--seed')
    a = ap.parse_args(sys.argv[2:])
    if a.replay:
        with open(a.replay) as fh: b = json.load(fh)
        rr = replay(b['driver'], b['scenarios'], jobs=1, stop_after=1 << 30)
        print(json.dumps(rr[-1], indent=1)[:4000])
        if b.get('validate') and not rr[-1].get('bad'):
            rej = Ctx(pid).validate(b['validate'], rr[-1].get('trace') or [], 'replay', invariants=['Emit'], constants=b.get('constants'))
            if rej: rr[-1]['bad'] = rej
        if rr[-1].get('bad'):
            print('VIOLATION property=%s replay=%s' % (b['property'], a.replay)); return 1
        return 0
    ctx = Ctx(pid, a.tier, a.seed)
    return run(ctx)
