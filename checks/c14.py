TECHNIQUE = 'TLA+ spec of settings, explicit options and nested calls (Options.tla), TLC enumeration and random histories, every history replayed on dill with the options in force read off the results'
NOTE = 'Five options with all their values, None and absent; six entry points; calls nested in calls, failing calls, settings changed during a call. All pairs of steps for each option alone, random histories of 6 (thorough 12) steps for all together.'
INV = ['ExplicitWins', 'Emit']
W = {'dumps', 'dump', 'pickler', 'temp', 'copy', 'pickles'}
def run(ctx):
    for o in ('protocol', 'byref', 'fmode', 'recurse', 'ignore'):
        a = ctx.tlc('Options', 'two steps, ' + o, constants=dict(MaxOps=2, Entries={'dumps'} if o == 'protocol' else {'dumps', 'copy'}, Random=False, Only={o}), invariants=INV, properties=['OnlySettingChanges'])
        ctx.replay('options', ctx.subset(a, ctx.pick(1500, 10**9)), 'two steps, ' + o)
        if ctx.violations: return ctx.finish()
    r = ctx.tlc('Options', 'random histories', constants=dict(MaxOps=ctx.pick(6, 12), Entries=W, Random=True, Only={'protocol', 'byref', 'fmode', 'recurse', 'ignore'}), invariants=INV, simulate=ctx.pick(3000, 40000), depth=14, seed=ctx.seed)
    ctx.replay('options', ctx.subset(r, ctx.pick(3000, 10**9)), 'random histories')
    return ctx.finish()
