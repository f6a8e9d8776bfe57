TECHNIQUE = 'TLA+ spec of recorded and current state of object graphs (Diff.tla), TLC enumeration and random histories, every history replayed on dill.__diff with every report compared'
NOTE = 'Graphs of 1 to 6 objects of seven kinds, objects as items, attributes and keys, with sharing and cycles; after every record/force/change step the full report of every object is compared (on a cycle, which of the parts leading around it are named is left open).'
P = ('change',) * 4 + ('record', 'change', 'change', 'any', 'change', 'any', 'record')
INV = ['Exact', 'QuietAfterRecord', 'Cause', 'Emit']
def run(ctx):
    a = ctx.tlc('Diff', 'all histories', constants=dict(MaxOps=4, MaxLen=2, Cyclic=False), extra_constants=dict(Kind=('obj', 'list'), Plan=()), invariants=INV)
    ctx.replay('difftrack', ctx.subset(a, ctx.pick(8000, 10**9)), 'all histories')
    shapes = [('obj', 'obj', 'obj'), ('obj', 'list', 'obj'), ('list', 'list', 'list'), ('dict', 'dict', 'list'), ('obj', 'dict', 'set', 'obj'), ('sub', 'dsub', 'tuple', 'list', 'obj'),
              ('set', 'obj', 'obj'), ('dsub', 'set', 'sub', 'obj', 'obj'), ('obj', 'obj', 'list', 'dict', 'sub', 'obj'), ('tuple', 'list', 'tuple', 'dict', 'obj', 'set'), ('set',), ('list', 'set'), ('dict', 'obj'), ('dict', 'dict', 'obj'), ('dsub', 'dict', 'sub', 'dsub', 'obj')]
    c = ctx.tlc('Diff', 'all histories with cycles', constants=dict(MaxOps=4, MaxLen=2, Cyclic=True), extra_constants=dict(Kind=('obj', 'list'), Plan=('change', 'any', 'any', 'change')), invariants=INV)
    ctx.replay('difftrack', ctx.subset(c, ctx.pick(6000, 10**9)), 'all histories with cycles')
    for s, cyc in [(s, False) for s in shapes] + [(s, True) for s in shapes if len(s) > 1]:
        if ctx.violations: break
        r = ctx.tlc('Diff', 'random histories of %s%s' % (s, ', cyclic' if cyc else ''), constants=dict(MaxOps=13, MaxLen=3, Cyclic=cyc), extra_constants=dict(Kind=s, Plan=P), invariants=INV, simulate=ctx.pick(16, 400), depth=14, seed=ctx.seed)
        ctx.replay('difftrack', ctx.subset(r, ctx.pick(400, 10**9)), 'random histories of %s%s' % (s, ', cyclic' if cyc else ''))
    ctx.replay('difftrack', [dict(special=x) for x in ('import', 'kinds', 'cycle', 'numpy')], 'other kinds')
    return ctx.finish()
