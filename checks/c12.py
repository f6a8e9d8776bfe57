TECHNIQUE = 'TLA+ spec of files, handles and the three file modes (Files.tla), TLC enumeration, every history replayed on dill with real files'
NOTE = 'Text and binary, buffered and unbuffered handles of 16 modes on files of up to 8 characters; up to 3 (thorough 4) uses before pickling, 2 changes of the file after, 2 uses of the loaded handle.'
INV = ['Content', 'Emit']
def M(k, plus, bin): return dict(k=k, plus=plus, bin=bin)
ALL = [M(k, p, b) for k in 'rwax' for p in (False, True) for b in (False, True)]
def run(ctx):
    S = [(99,), (), (1, 2, 3, 4)]
    a = ctx.tlc('Files', 'one use', constants=dict(FModes={'handle', 'contents', 'file'}, Strict={False}, MaxOps=1, MaxChanges=1, MaxAfter=1, MaxPos=3), extra_constants=dict(OpenModes=ALL, Starts=S), invariants=INV)
    ctx.replay('files', ctx.subset(a, ctx.pick(9000, 10**9)), 'one use')
    if ctx.violations: return ctx.finish()
    r = ctx.tlc('Files', 'random histories', constants=dict(FModes={'handle', 'contents', 'file'}, Strict={False}, MaxOps=ctx.pick(4, 6), MaxChanges=3, MaxAfter=3, MaxPos=6), extra_constants=dict(OpenModes=ALL, Starts=S), invariants=INV,
                simulate=ctx.pick(6000, 60000), depth=20, seed=ctx.seed)
    ctx.replay('files', [dict(special='std')], 'standard streams')
    ctx.replay('files', ctx.subset(r, ctx.pick(8000, 10**9)), 'random histories')
    if ctx.violations: return ctx.finish()
    t = ctx.tlc('Descr', 'files opened by descriptor', constants=dict(MaxOps=ctx.pick(6, 7), FModes={'handle', 'contents', 'file'}), invariants=['Emit'], properties=['Unaffected'])
    ctx.replay('descr', ctx.subset(t, ctx.pick(2500, 100000)), 'files opened by descriptor')
    return ctx.finish()
