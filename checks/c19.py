TECHNIQUE = 'TLA+ spec of nested scopes, name resolution and closures (Scopes.tla) giving what every inspection must and may report; TLC enumerates and generates programs, each compiled, its functions built with the chosen cells and inspected'
NOTE = '6 kinds of scope, 34 ways to use a name, every program of 2 scopes with up to 2 statements over few names, random programs of up to 7 scopes (thorough 10); plain, crossed, empty and partly empty cells.'
OPS = set('read aug call nested sub write for exc with import from ann match star tuple del dead param kwonly vararg kwarg posonly default iter base deco annot attr string kw walrus target global nonlocal super early maybe'.split())
KINDS = set('def async class lambda genexp listcomp dictcomp'.split())
INV = ['Sound', 'Homed', 'Order', 'Emit']
def run(ctx):
    base = dict(Bound0={'x', 'd', 'v_GLOBAL', '__p', 'len', '__name__'}, Kinds=KINDS, Rebind=set())
    a = ctx.tlc('Scopes', 'one or two scopes', constants=dict(base, Names={'x'}, Ops=OPS, MaxScopes=2, MaxStm=1, Cells={'natural'}, Random=False), invariants=INV)
    ctx.replay('scopes', ctx.subset(a, ctx.pick(4000, 10**9)), 'one or two scopes')
    if not ctx.violations:
        b = ctx.tlc('Scopes', 'resolution', constants=dict(base, Names={'x'}, Ops={'read', 'write', 'global', 'nonlocal', 'param', 'del'}, Kinds={'def', 'class', 'lambda', 'listcomp'}, MaxScopes=3, MaxStm=1 , Cells={'natural'}, Random=False), invariants=INV)
        ctx.replay('scopes', ctx.subset(b, ctx.pick(4000, 10**9)), 'resolution')
    if not ctx.violations:
        c = ctx.tlc('Scopes', 'names of functions', constants=dict(base, Names={'x', 's1', 's2'}, Ops={'read'}, Kinds={'def', 'lambda'}, MaxScopes=2, MaxStm=1, Cells={'natural', 'cross', 'mixed'}, Rebind={'x', 's1', 's2'}, Random=False), invariants=INV)
        ctx.replay('scopes', ctx.subset(c, ctx.pick(4000, 10**9)), 'names of functions')
    if not ctx.violations:
        e = ctx.tlc('Scopes', 'closures with and without values', constants=dict(base, Names={'x', 'y'}, Ops={'read', 'param'}, Kinds={'def', 'lambda'}, MaxScopes=2, MaxStm=2, Cells={'mixed'}, Random=False), invariants=INV)
        q = ctx.tlc('Scopes', 'random closures', constants=dict(base, Names={'x', 'y', 'd', 'zz'}, Ops={'read', 'write', 'param', 'call', 'nested'}, Kinds={'def', 'lambda', 'async'}, MaxScopes=4, MaxStm=5, Cells={'mixed', 'cross'}, Random=True), invariants=INV, simulate=ctx.pick(600, 10000), depth=50, seed=ctx.seed)
        ctx.replay('scopes', ctx.subset(e, ctx.pick(2000, 10**9)) + q, 'closures with and without values')
    if not ctx.violations:
        r = ctx.tlc('Scopes', 'random programs', constants=dict(base, Names={'x', 'y', 'd', 'len', 'zz', 'v_GLOBAL', '__p', 's1', 's2', 's3', 't2'}, Ops=OPS, MaxScopes=ctx.pick(6, 10), MaxStm=ctx.pick(5, 6), Cells={'natural', 'cross', 'empty', 'mixed'}, Rebind={'x', 'd', 'len', 'zz', 's1', 's2', 's3'}, Random=True), invariants=INV, simulate=ctx.pick(2600, 60000), depth=60, seed=ctx.seed)
        ctx.replay('scopes', ctx.subset(r, ctx.pick(6000, 10**9)), 'random programs')
    return ctx.finish()
