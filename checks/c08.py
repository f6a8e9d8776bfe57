TECHNIQUE = 'TLA+ spec of namespaces saved with imported objects by reference (Session.tla), TLC enumeration, every history replayed on dill and the restored namespace unified with the specified heap'
NOTE = ('All histories of two changes before and one after the save over two names with own, aliased and re-bound imports in four kinds of module; random ones with four names, eight changes before, '
        'five after and three loads, in the same and a fresh process.')
INV = ['Kept', 'Emit']
V = {'list', 'func', 'class', 'inst', 'clos', 'self', 'ns', 'std', 'ifun', 'const', 'int'}
I = {'iobj', 'iobjas', 'ilam', 'ilamas'}
MK = {'main', 'file', 'sub', 'runtime', 'namesake'}
def run(ctx):
    a = ctx.tlc('Session', 'two changes before', constants=dict(ModKinds=MK, Names={'a', 'b'}, Vals=I | {'list', 'func', 'self', 'std', 'ifun'}, RefOpts={True}, MaxPre=2, MaxPost=1, MaxLoads=1, AsDict=False, Plain=True, Restarts=True), invariants=INV)
    r = ctx.tlc('Session', 'random histories', constants=dict(ModKinds=MK, Names={'a', 'b', 'c', 'd'}, Vals=V | I, RefOpts={True}, MaxPre=8, MaxPost=5, MaxLoads=3, AsDict=False, Plain=True, Restarts=True), invariants=INV,
                simulate=ctx.pick(2500, 40000), depth=30, seed=ctx.seed)
    ctx.replay('sessions', ctx.subset(a, ctx.pick(6000, 10**9)), 'two changes before')
    if not ctx.violations: ctx.replay('sessions', ctx.subset(r, ctx.pick(5000, 10**9)), 'random histories')
    return ctx.finish()
