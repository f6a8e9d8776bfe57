TECHNIQUE = 'TLA+ spec of the verdict, the copy and the cross-process check as a machine over what the object does (Verdict.tla); TLC enumerates every path of every call and generates sequences of calls, replayed with objects that behave as told'
NOTE = 'Every path through one call: 18 errors when pickled and when loaded, 4 type relations, 22 outcomes of all(), 30 of the comparison, exact, safe, bare and in containers, 3 warning filter states; random sequences of 6 calls.'
INV = ['True', 'Failed', 'Safe', 'Emit']
def run(ctx):
    W = {'bare', 'list', 'tuple', 'dict'}; F = {'default', 'error', 'ignore'}
    a = ctx.tlc('Verdict', 'one call', constants=dict(Ops={'pickles', 'copy'}, Wraps={'bare', 'list'}, MaxCalls=1, Filters=F, Random=False), invariants=INV, properties=['Stays'])
    ctx.replay('verdict', ctx.subset(a, ctx.pick(8000, 10**9)), 'one call')
    c = ctx.tlc('Verdict', 'checks in another process', constants=dict(Ops={'check'}, Wraps=W, MaxCalls=1, Filters={'error'}, Random=False), invariants=INV, properties=['Stays'])
    ctx.replay('verdict', ctx.subset(c, ctx.pick(300, 3000)), 'checks in another process')
    if ctx.violations: return ctx.finish()
    import json, os, vt
    names = json.loads(vt.subprocess.run([vt.PY, '-B', '-c', 'import verdict, json; print("\\n" + json.dumps(verdict.values()))'], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    opts = [{}, dict(recurse=True), dict(byref=True), dict(ignore=False), dict(protocol=2), dict(protocol=5, fmode=2)]
    ctx.replay('verdict', [dict(value=k, exact=e, safe=s, opt=o) for k in names for e in (False, True) for s in (False, True) for o in opts], 'values with known verdicts')
    if ctx.violations: return ctx.finish()
    r = ctx.tlc('Verdict', 'sequences of calls', constants=dict(Ops={'pickles', 'copy'}, Wraps=W, MaxCalls=6, Filters=F, Random=True), invariants=INV, properties=['Stays'], simulate=ctx.pick(4000, 60000), depth=90, seed=ctx.seed)
    ctx.replay('verdict', ctx.subset(r, ctx.pick(4000, 10**9)), 'sequences of calls')
    return ctx.finish()
