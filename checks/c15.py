import copy, json, os
TECHNIQUE = 'TLA+ spec of tracing scopes and destinations (Tracing.tla) with every history replayed; recorded trace logs validated by TLC against TraceTree.tla'
NOTE = 'Scopes: every history of 4 steps, random ones of 10 (thorough 20), over levels, handlers, nested contexts on streams and files, errors, picklings inside picklings. Logs: 142 driver objects and the catalogue, failing and nested picklings; bytes and errors compared with and without tracing. Trees are judged for dill\'s own picklers.'
INV = ['Requested', 'Emit']
def run(ctx):
    import vt
    base = dict(MaxDepth=3, Random=False)
    a = ctx.tlc('Tracing', 'short histories', constants=dict(base, MaxOps=4, Levels={0, 20, 40}, Places={'stream1'}), invariants=INV, properties=['Restored'])
    r = ctx.tlc('Tracing', 'random histories', constants=dict(base, MaxOps=ctx.pick(10, 20), Levels={0, 10, 20, 30, 40}, Places={'stream1', 'stream2', 'file1', 'file2'}, Random=True), invariants=INV, simulate=ctx.pick(3000, 40000), depth=22, seed=ctx.seed)
    ctx.replay('tracelog', ctx.subset(a, ctx.pick(2500, 60000)), 'short histories')
    ctx.replay('tracelog', ctx.subset(r, ctx.pick(2500, 10**9)), 'random histories')
    if ctx.violations: return ctx.finish()
    kinds = json.loads(vt.subprocess.run([vt.PY, '-B', '-c', 'import streams, json; from dill import _objects; print("\\n" + json.dumps([streams.kinds(), sorted("cat:" + k for k in _objects.succeeds) + sorted("cat:" + k for k in _objects.failures)]))'], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    kinds[0] = [k for k in kinds[0] if not k.startswith('lib:')] + [k for k in kinds[0] if k.startswith('lib:')][::ctx.pick(8, 1)]
    nasty = {'fail:deep', 'fail:func', 'nest:ok', 'nest:fail'}
    base = dict(Modes={'fresh'}, Single=True, Protos=set(range(6)), Options={'plain', 'recurse', 'byref', 'fmode'})
    b = ctx.tlc('Streams', 'every kind', constants=dict(base, MaxOps=1, Objs=set(kinds[0]) | set(kinds[1]) | nasty, Random=False), invariants=['Emit'])
    c = ctx.tlc('Streams', 'failing and nested picklings', constants=dict(base, MaxOps=3, Objs=nasty | {'mutual', 'Derived', 'AB'}, Protos={2, 4}, Options={'plain', 'recurse'}, Random=False), invariants=['Emit'])
    recs = ctx.subset(b, ctx.pick(1800, 10**9)) + ctx.subset(c, ctx.pick(400, 10**9))
    res = ctx.replay('tracelog', recs, 'logs')
    if ctx.violations: return ctx.finish()
    traces, owner = [], []
    for sc, r in zip(recs, res):
        for t in r.get('trace') or []: traces.append(t); owner.append(sc)
    rej = ctx.validate('TraceTree', traces, 'logs', invariants=['Emit'])
    for k, x in sorted(rej.items())[:3]:
        again = vt.replay('tracelog', [owner[k - 1]], jobs=1)[0].get('trace') or []
        r2 = ctx.validate('TraceTree', again, 'again', invariants=['Emit']) if again else {}
        if r2: ctx.violation('tracelog', [owner[k - 1]], 'malformed trace: %s (event %s)' % (list(r2.values())[0].get('clause'), list(r2.values())[0].get('pc')), again, extra=dict(validate='TraceTree'))
    if ctx.violations: return ctx.finish()
    bad = []
    for t in traces:
        i = [i for i, e in enumerate(t) if e[0] == 'close']
        if len(i) > 2 and len(bad) < 60: bad += [t[:i[0]] + t[i[0] + 1:], t[:i[-1]] + [['close', t[i[-1]][1] + 1, t[i[-1]][2]]] + t[i[-1] + 1:]]
    rej = ctx.validate('TraceTree', bad, 'corrupted logs (all must be rejected)', invariants=['Emit'])
    if len(rej) != len(bad): raise vt.MachineryError('the specification accepted corrupted logs')
    return ctx.finish()
