import json, os
TECHNIQUE = 'TLA+ spec of pickles, worlds of copies and what they share (Pure.tla); TLC enumerates and generates histories of pickling, failing, loading and changing, replayed with full observation of objects and process before and after every step'
NOTE = '75 kinds of changeable objects, alone in every history of 4 steps and up to 4 together in random histories of 10 (thorough 16); 142 object kinds and the catalogue pickled repeatedly, with and without failure, under four option sets.'
VAL = {}
PROPS = ['OnlyMutations', 'Independent', 'BlobsKeep']
def run(ctx):
    import vt
    def ask(code): return json.loads(vt.subprocess.run([vt.PY, '-B', '-c', code], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    val, noref, live = map(set, ask('import pure, json; print("\\n" + json.dumps([sorted(pure.VAL), sorted(pure.BYVALCLASS), sorted(pure.LIVE)]))'))
    mine, cat = ask('import streams, json; from dill import _objects; print("\\n" + json.dumps([streams.kinds(), sorted("cat:" + k for k in _objects.succeeds) + sorted("cat:" + k for k in _objects.failures)]))')
    fails = {'reduce', 'type', 'interrupt', 'closure', 'class', 'globals', 'file0', 'file40', 'file300'}
    opts = {'plain', 'recurse', 'byref', 'recbyref'}
    a = ctx.tlc('Pure', 'one object', constants=dict(ValKinds=val, NoRef=noref, LiveKinds=live, Pairs=False, MaxObjs=1, MaxOps=ctx.pick(3, 4), MaxWorlds=2, MaxBlobs=1, Options={'plain', 'recbyref'}, Failures={'reduce'}, Random=False), invariants=['Emit'], properties=PROPS)
    ctx.replay('pure', ctx.subset(a, ctx.pick(4000, 100000)), 'one object')
    if ctx.violations: return ctx.finish()
    for n, label in ((1, 'long histories of one object'), (4, 'several objects')):
        r = ctx.tlc('Pure', label, constants=dict(ValKinds=val, NoRef=noref, LiveKinds=live, Pairs=False, MaxObjs=n, MaxOps=ctx.pick(10, 16), MaxWorlds=4, MaxBlobs=3, Options=opts, Failures=fails | {'deep'} if ctx.thorough else fails, Random=True), invariants=['Emit'], properties=PROPS, simulate=ctx.pick(2500, 30000), depth=20, seed=ctx.seed)
        ctx.replay('pure', ctx.subset(r, ctx.pick(2500, 10**9)), label)
        if ctx.violations: return ctx.finish()
    ctx.replay('pure', [dict(objs=[k], protos=[2, 4] if ctx.thorough else [2 + i % 4], load=True) for i, k in enumerate(mine + cat)], 'objects of every kind')
    return ctx.finish()
