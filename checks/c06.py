TECHNIQUE = 'TLA+ spec of the classes of the main module around dump and load (MainClass.tla), TLC enumeration, every history replayed on dill'
NOTE = ('All histories with up to two changes before the dump, one after and one load (two in the deep part), seven class layouts, six object shapes, by name or by value, ignore by argument '
        'and by setting; random longer ones.')
INV = ['Honest', 'Emit']
L = {'plain', 'frozen', 'slots', 'int', 'dict', 'meta', 'sub'}
S = {'inst', 'attr', 'list', 'tuple', 'class', 'dict'}
def run(ctx):
    a = ctx.tlc('MainClass', 'all layouts and shapes', constants=dict(MaxPre=1, MaxPost=1, MaxLoads=1, Layouts=L, Shapes=S), invariants=INV)
    b = ctx.tlc('MainClass', 'two changes before and after', constants=dict(MaxPre=2, MaxPost=1, MaxLoads=1, Layouts={'plain', 'slots'}, Shapes={'inst', 'attr'}), invariants=INV)
    r = ctx.tlc('MainClass', 'random histories', constants=dict(MaxPre=3, MaxPost=4, MaxLoads=3, Layouts=L, Shapes=S), invariants=INV, simulate=ctx.pick(400, 20000), depth=14, seed=ctx.seed)
    ctx.replay('mainclass', ctx.subset(a, ctx.pick(30000, 10**9)), 'one change')
    if not ctx.violations: ctx.replay('mainclass', ctx.subset(b, ctx.pick(25000, 10**9)), 'two changes')
    if not ctx.violations: ctx.replay('mainclass', ctx.subset(r, ctx.pick(25000, 10**9)), 'random histories')
    return ctx.finish()
