TECHNIQUE = 'TLA+ spec of objects with internal state as state machines (Live.tla); TLC enumerates and generates histories before, between and after pickling and loading, replayed on real objects'
NOTE = '23 kinds of stateful objects alone (every short history) and up to 5 of them referring to each other (random histories of 6+3+8 operations), two loads of one pickle, every protocol from 2.'
KINDS = set('lock rlock event sem barrier fifo lifo prio sio bio deque list seqit V lru ctx rand thread gen'.split())
REFS = set('lock rlock sem cond meth list liter riter V weak wset box'.split())
INV = ['Shared', 'Emit']; PROPS = ['Untouched', 'Apart']
def run(ctx):
    base = dict(Random=False, Hide=False, MaxLoads=1, Ops2=0)
    rnd = dict(Random=True, Hide=True, MaxLoads=2)
    a = ctx.tlc('Live', 'one object', constants=dict(base, Kinds=KINDS, MaxCells=1, Ops1=ctx.pick(2, 3), Ops3=1), invariants=INV, properties=PROPS)
    ctx.replay('live', ctx.subset(a, ctx.pick(6000, 200000)), 'one object')
    b = ctx.tlc('Live', 'two objects', constants=dict(base, Kinds=REFS - {'list', 'liter', 'riter', 'sem'}, MaxCells=2, Ops1=1, Ops3=1, Hide=True), invariants=INV, properties=PROPS)
    ctx.replay('live', ctx.subset(b, ctx.pick(4000, 100000)), 'two objects')
    if ctx.violations: return ctx.finish()
    for kinds, n, label in ((KINDS, 1, 'long histories of one object'), (REFS, 4, 'objects referring to each other'), (KINDS | REFS, 5, 'objects of all kinds')):
        r = ctx.tlc('Live', label, constants=dict(rnd, Kinds=kinds, MaxCells=n, Ops1=6, Ops2=3, Ops3=ctx.pick(8, 12)), invariants=INV, properties=PROPS, simulate=ctx.pick(4000, 80000), depth=40, seed=ctx.seed)
        ctx.replay('live', ctx.subset(r, ctx.pick(6000, 10**9)), label)
        if ctx.violations: break
    return ctx.finish()
