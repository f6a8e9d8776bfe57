import json, os
TECHNIQUE = 'TLA+ spec of threads, operations with windows on process-wide state and a scheduler (Threads.tla); TLC checks it and generates schedules, which a controlled scheduler replays on real threads line by line'
NOTE = '50 operations (pickling, loading, sessions, inspection, and users of streams, warnings and imports) in pairs and triples; schedules stop a thread at any line of the library; every stop inside a stretch that changes something of the process, both ways.'
def run(ctx):
    import vt
    names = json.loads(vt.subprocess.run([vt.PY, '-B', '-c', 'import threads, json; print("\\n" + json.dumps(threads.names()))'], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    prof = [r['trace'] for r in ctx.replay('threads', [dict(profile=n) for n in names], 'profiles of the operations')]
    P = dict(zip(names, prof))
    n = {k: p[0] for k, p in P.items()}; win = {k: set(thin(p[1], 40)) for k, p in P.items()}; lines = {k: set(p[2]) | set(thin(range(1, p[0] + 1), 30)) for k, p in P.items()}
    def go(label, tuples, cands, threads, switches, keep, rnd=None):
        used = sorted({o for t in tuples for o in t})
        pick = lambda d: {k: d[k] for k in used}
        recs = ctx.tlc('Threads', label, constants=dict(NThreads=threads, MaxSwitches=switches, Private=True, Random=bool(rnd)), extra_constants=dict(Tuples=sorted(tuples), Ops=pick(n), Windows=pick(win), Cands=pick(cands)), invariants=['Alone', 'Restored', 'Emit'], **(dict(simulate=rnd, depth=30, seed=ctx.seed) if rnd else {}))
        ctx.replay('threads', ctx.subset(recs, keep), label)
    # the design: with windows of their own no operation notices another one; with shared ones it does
    small = dict(Ops={'a': 4, 'b': 4}, Windows={'a': {2, 3}, 'b': {2, 3}}, Cands={'a': {1, 2, 3, 4}, 'b': {1, 2, 3, 4}})
    for private in (True, False):
        for t, sw in ((2, 4), (3, 3)):
            ctx.tlc('Threads', 'design, %s windows, %d threads' % ('private' if private else 'shared', t), constants=dict(NThreads=t, MaxSwitches=sw, Private=private, Random=False), extra_constants=dict(small, Tuples=[('a', 'b', 'a')[:t]]), invariants=['Alone', 'Restored'], expect_violation=not private, keep_records=False)
    dirty = [k for k in names if win[k]]
    if dirty:
        pairs = {(a, b) for a in dirty for b in dirty + ['x_print', 'x_warn', 'x_import', 'x_settings']}
        go('stops inside the windows', set(thin(sorted(pairs), 60)), {k: set(thin(win[k] or lines[k], 9)) for k in names}, 2, 2, ctx.pick(1500, 20000))
        if ctx.violations: return ctx.finish()
    other = ('x_import', 'x_warn', 'x_print', 'd_fn', 'l_cls', 'u_import')
    go('one stop at any line', {(a, b) for a in names for b in other}, {k: lines[k] if k[0] != 'x' else {1} for k in names}, 2, 1, ctx.pick(2500, 40000))
    if ctx.violations: return ctx.finish()
    go('imports while sessions are saved', {(a, b) for a in ('s_dumpref', 's_dump') for b in ('x_import', 'u_import', 's_load')}, dict(lines, s_dumpref=set(thin(range(1, n['s_dumpref'] + 1), 60)), x_import={1}), 2, 1, ctx.pick(160, 2000))
    if ctx.violations: return ctx.finish()
    go('garbage collected at any line', {(a, 'x_gc') for a in names if n[a] < 6000}, dict(lines, x_gc={1}), 2, 1, ctx.pick(1000, 20000))
    if ctx.violations: return ctx.finish()
    for t in (2, 3):
        tup = {tuple(ctx.rng.choice(names) for _ in range(t)) for _ in range(ctx.pick(300, 3000))}
        go('several stops, %d threads' % t, tup, lines, t, 5, ctx.pick(1500, 40000), rnd=ctx.pick(1500, 30000))
        if ctx.violations: break
    return ctx.finish()
def thin(x, k):
    x = sorted(x); return x if len(x) <= k else [x[i * len(x) // k] for i in range(k)]
