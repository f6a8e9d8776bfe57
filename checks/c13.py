TECHNIQUE = 'TLA+ spec of the type registry and of the extension of the standard pickler (Registry.tla), TLC enumeration and random histories, every history replayed on dill with pickling observed after each step'
NOTE = 'Seven types (plain, subclass, with metaclass, a metaclass, property, list, function), two functions each; all histories of 3 steps, random ones of 8; pickling through 8 dill and 3 standard entry points.'
INV = ['OffIsStandard', 'OnIsDill', 'Emit']
T = {'A', 'B', 'C', 'M', 'property', 'list', 'lambda'}
def run(ctx):
    a = ctx.tlc('Registry', 'all histories of 3 steps', constants=dict(Types=T, Funs={'f1', 'f2'}, MaxOps=3, AtImport=True), invariants=INV, properties=['Unaffected'])
    ctx.replay('registry', ctx.subset(a, ctx.pick(4000, 10**9)), 'all histories of 3 steps')
    if ctx.violations: return ctx.finish()
    r = ctx.tlc('Registry', 'random histories', constants=dict(Types=T, Funs={'f1', 'f2'}, MaxOps=ctx.pick(8, 16), AtImport=True), invariants=INV, simulate=ctx.pick(1500, 20000), depth=20, seed=ctx.seed)
    ctx.replay('registry', ctx.subset(r, ctx.pick(1500, 10**9)), 'random histories')
    return ctx.finish()
