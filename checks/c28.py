TECHNIQUE = 'TLA+ spec of object graphs and layered search (Chains.tla), exhaustive TLC enumeration for small graphs and random ones for larger, every search replayed on real objects'
NOTE = ('All graphs of three objects up to the edge bound x depth x direction x ignored objects, random graphs of 2 to 8 objects of seven kinds; length, ends and every link of the reported chain are checked.')
INV = ['Shortest', 'Emit']
def run(ctx):
    a = ctx.tlc('Chains', 'graphs of 3', constants=dict(N=3, Kinds={'list', 'K1', 'K2'} if not ctx.thorough else {'list', 'dict', 'K1', 'K2'}, Targets={'K1', 'K2', 'list'}, MaxEdges=ctx.pick(4, 6), MaxDepth=3, Ignores={0, 1}, Ordered=True, Random=False), invariants=INV)
    ctx.replay('chains', ctx.subset(a, ctx.pick(16000, 10**9)), 'graphs of 3')
    for n, e in ((2, 4), (4, 7), (5, 10), (6, 12), (8, 14)):
        if ctx.violations: break
        s = ctx.tlc('Chains', 'random graphs of %d' % n, constants=dict(N=n, Kinds={'list', 'dict', 'cell', 'deque', 'K1', 'K2', 'K3'}, Targets={'K1', 'K2', 'K3', 'list', 'dict'}, MaxEdges=e, MaxDepth=min(n + 1, 6), Ignores={0, 1, 2} if n > 2 else {0, 1}, Ordered=False, Random=True), invariants=INV,
                    simulate=ctx.pick(4000, 60000), depth=n + 4, seed=ctx.seed)
        ctx.replay('chains', s, 'random graphs of %d' % n)
    return ctx.finish()
