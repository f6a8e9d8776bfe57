import copy, json, os
TECHNIQUE = 'TLA+ spec of the pickle machine (PickleVM.tla): TLC validates recorded opcode streams of the real code; the writes and reads are generated by TLC from Streams.tla and replayed'
NOTE = '142 object kinds of the driver and the library\'s own catalogue x six protocols x four option sets, sequences of writes and reads (separate calls, one pickler) on files and buffers; each recorded program executed by the specification opcode by opcode. Corrupted recordings must be rejected in every run.'
OPTS = {'plain', 'recurse', 'byref', 'fmode'}
def corrupt(tr):
    """recordings with one defect each, which the specification must reject"""
    out = []
    def var(f):
        t = copy.deepcopy(tr); p = t['progs'][-1]
        if f(t, p): out.append(t)
    def drop(t, p):
        i = [i for i, o in enumerate(p['ops']) if o[0] in ('REDUCE', 'TUPLE2', 'MARK', 'APPENDS')]
        if i: p['ops'].pop(i[0]); return True
    def memo(t, p):
        i = [o for o in p['ops'] if 'GET' in o[0]]
        if i: i[0][1] = 99999; return True
    def trail(t, p): p['size'] += 1; return True
    def proto(t, p):
        if p['ops'][0][0] == 'PROTO': p['ops'][0][1] += 1; return True
    def old(t, p): p['ops'].insert(1, ['BYTEARRAY8', 0, 2]); return t['proto'] < 5
    for f in (drop, memo, trail, proto, old): var(f)
    return out
def run(ctx):
    import vt
    kinds = json.loads(vt.subprocess.run([vt.PY, '-B', '-c', 'import streams, json; from dill import _objects; print("\\n" + json.dumps([streams.kinds(), sorted("cat:" + k for k in _objects.succeeds)]))'], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    mine, cat = map(set, kinds); lib = {k for k in mine if k[:4] == 'lib:'}; mine -= lib
    def go(recs, label):
        res = ctx.replay('streams', recs, label)
        traces = []; owner = []
        for sc, r in zip(recs, res):
            for t in r.get('trace') or []: traces.append(t); owner.append(sc)
        ctx.log(label, '%d recordings, %d scenarios whose objects cannot be stored that way' % (len(traces), sum('skip' in r for r in res)))
        return traces, owner
    def check(traces, owner, label):
        rej = ctx.validate('PickleVM', traces, label, invariants=['Emit'])
        for k, x in sorted(rej.items())[:3]:
            sc = owner[k - 1]
            again = vt.replay('streams', [sc], jobs=1)[0].get('trace') or []
            r2 = ctx.validate('PickleVM', again, 'again', invariants=['Emit']) if again else {}
            if r2:
                x2 = list(r2.values())[0]
                ctx.violation('streams', [sc], 'malformed stream: %s (program %s, operation %s)' % (x2.get('clause'), x2.get('prog'), x2.get('pc')), x2, extra=dict(validate='PickleVM'))
    base = dict(MaxOps=1, Protos=set(range(6)), Modes={'fresh'}, Single=True, Random=False)
    a = ctx.tlc('Streams', 'every kind', constants=dict(base, Objs=mine, Options=OPTS), invariants=['InOrder', 'Emit'])
    b = ctx.tlc('Streams', 'the catalogue', constants=dict(base, Objs=cat, Options={'plain', 'recurse'}), invariants=['InOrder', 'Emit'])
    l = ctx.tlc('Streams', 'objects of the standard library', constants=dict(base, Objs=lib, Options={'plain', 'recurse'}), invariants=['InOrder', 'Emit'])
    t, o = go(ctx.subset(a, ctx.pick(1400, 10**9)) + (l if ctx.thorough else sorted(l, key=lambda r: (r['hist'][0]['o'], r['opt'], r['proto']))[ctx.seed % 2::2]) + ctx.subset(b, ctx.pick(600, 10**9)), 'single objects')
    check(t, o, 'single objects')
    if ctx.violations: return ctx.finish()
    deep = ctx.tlc('Graph', 'heaps of functions, classes and cells', constants=dict(Kinds=set('X1 Fc Fcc Cm Ia L1 Fg T1 C0'.split()), MaxN=4, MinEmit=4), invariants=['StackEmpty', 'Emit'])
    big = ctx.tlc('Graph', 'random heaps of up to 8 nodes', constants=dict(Kinds=set('V0 L1 D1 D2 T1 T2 X0 X1 F0 Fc Fcc Fd Fk Fa Fca Fcd Fg Fgg C0 Ca Cm Cb Cbm Ia M P1 PR MP VK W LC OD DD FS'.split()), MaxN=8, MinEmit=4), invariants=['StackEmpty', 'Emit'], simulate=ctx.pick(1500, 20000), depth=30, seed=ctx.seed)
    heaps = [dict(h=r['h'], runs=[dict(protocol=(i * 5 + 3 * j) % 6, recurse=bool((i + j) % 2)) for j in range(ctx.pick(1, 3))]) for i, r in enumerate(ctx.subset(deep, ctx.pick(2500, 10**9)) + ctx.subset(big, ctx.pick(1200, 10**9)))]
    t, o = go(heaps, 'object heaps')
    check(t, o, 'object heaps')
    if ctx.violations: return ctx.finish()
    few = {'mainf', 'Self', 'closure', 'mutual', 'shared', 'inst', 'AB', 'verylong', 'moddict', 'dcfield', 'many', 'rcell', 'odd', 'tnone', 'frame'}
    some = {'mainf', 'inst', 'mutual'}
    c = ctx.tlc('Streams', 'two writes and two reads', constants=dict(MaxOps=4, Objs=some, Protos={1, 4}, Options={'plain'}, Modes={'fresh', 'session'}, Single=False, Random=False), invariants=['InOrder', 'Emit'])
    d = ctx.tlc('Streams', 'long histories', constants=dict(MaxOps=ctx.pick(12, 24), Objs=few | mine, Protos=set(range(6)), Options=OPTS, Modes={'fresh', 'session'}, Single=False, Random=True), invariants=['InOrder', 'Emit'], simulate=ctx.pick(1500, 7000), depth=26, seed=ctx.seed)
    for recs, label in ((ctx.subset(c, ctx.pick(700, 60000)), 'two writes and two reads'), (ctx.subset(d, ctx.pick(700, 10**9)), 'long histories')):
        t, o = go(recs, label)
        if ctx.violations: return ctx.finish()
        if not ctx.thorough and len(t) > 700: idx = sorted(ctx.rng.sample(range(len(t)), 700)); t, o = [t[i] for i in idx], [o[i] for i in idx]
        check(t, o, label)
        if ctx.violations: return ctx.finish()
    bad = [x for tr in t[:40] for x in corrupt(tr)]
    rej = ctx.validate('PickleVM', bad, 'corrupted recordings (all must be rejected)', invariants=['Emit'])
    if len(rej) != len(bad): raise vt.MachineryError('the specification accepted %d corrupted recordings' % (len(bad) - len(rej)))
    return ctx.finish()
