TECHNIQUE = 'TLA+ spec of a source file written definition by definition, which knows the lines of each (Source.tla); TLC enumerates and generates files, written, imported and taken apart with the real dill.source, the pieces executed'
NOTE = 'Functions, coroutines, classes and lambdas, up to 7 (thorough 10) a file and 3 deep, names shared, decorators, comments, strings that look like definitions; the same as an interactive history.'
INV = ['Nested', 'Within', 'Own', 'Outer', 'OneLive', 'Emit']
K = {'def', 'async', 'class', 'lambda'}
DECOS = set('none one two split lam gap'.split()); HEADS = set('plain note default hint tight split short'.split())
FILL = set('stmt comment low blank doc cont cond'.split()); CLOSE = set('ret retdoc retsplit tailnote tailblank'.split())
LAMS = set('plain tight paren typed chain split note arg listed'.split())
def run(ctx):
    a = ctx.tlc('Source', 'pairs', constants=dict(Names={'foo', 'bar'}, Kinds=K, Decos={'none', 'one'}, Heads={'plain'}, Fillers=set(), Closers={'ret'}, LamStyles={'plain'}, MaxDefs=2, MaxDepth=2, MaxFill=0, Twins={False, True}, MaxMade=0, Random=False), invariants=INV)
    ctx.replay('source', a, 'pairs')
    b = ctx.tlc('Source', 'every form', constants=dict(Names={'foo'}, Kinds=K, Decos=DECOS, Heads=HEADS, Fillers=FILL, Closers=CLOSE, LamStyles=LAMS, MaxDefs=1, MaxDepth=1, MaxFill=1, Twins={False}, MaxMade=0, Random=False), invariants=INV)
    ctx.replay('source', ctx.subset(b, ctx.pick(6000, 60000)), 'every form')
    c = ctx.tlc('Source', 'closures', constants=dict(Names={'foo'}, Kinds={'def'}, Decos={'none'}, Heads={'short'}, Fillers=set(), Closers={'ret'}, LamStyles={'plain'}, MaxDefs=1, MaxDepth=0, MaxFill=0, Twins={False}, MaxMade=2, Random=False), invariants=INV)
    ctx.replay('source', ctx.subset(c, ctx.pick(4000, 40000)), 'closures')
    if not ctx.violations:
        r = ctx.tlc('Source', 'random files', constants=dict(Names={'foo', 'bar', 'fo'}, Kinds=K, Decos=DECOS, Heads=HEADS, Fillers=FILL, Closers=CLOSE, LamStyles=LAMS, MaxDefs=ctx.pick(7, 10), MaxDepth=3, MaxFill=8, Twins={False, True}, MaxMade=3, Random=True), invariants=INV, simulate=ctx.pick(3000, 40000), depth=60, seed=ctx.seed)
        ctx.replay('source', r, 'random files')
        h = ctx.tlc('Source', 'histories', constants=dict(Names={'foo', 'bar', 'fo'}, Kinds=K, Decos={'none', 'one', 'two'}, Heads=HEADS - {'note'}, Fillers=FILL - {'doc', 'comment', 'low'}, Closers={'ret', 'retsplit'}, LamStyles={'plain', 'paren', 'note'} - {'note'}, MaxDefs=5, MaxDepth=2, MaxFill=3, Twins={False, True}, MaxMade=0, Random=True), invariants=INV, simulate=ctx.pick(2000, 20000), depth=60, seed=ctx.seed)
        for s in h: s['history'] = True
        ctx.replay('source', h, 'histories')
    return ctx.finish()
