TECHNIQUE = 'TLA+ spec of namespace histories around dump and load (Locate.tla), TLC enumeration, every history replayed on dill'
NOTE = ('All histories with up to two namespace changes before and one after the dump (three and two in thorough, random beyond) for functions, classes and '
        'instances at three kinds of path and four kinds of module, with and without byref; the identity of what is loaded is compared with the specification.')
# names that lead to no module
MISSING = ['vt_no_such_module', '', '.', '.a', 'vt_locfile.F', 'a..b', 'sys.path', 'vt no/such', 'vt_n\u00f6', 'json.', '<locals>', '__main__.x']
INV = ['RefOnlyIfFound', 'NoRebindStored', 'Emit']
def run(ctx):
    full = dict(Kinds={'func', 'class', 'inst'}, Places={'module', 'main', 'file', 'dotted'}, Paths={'top', 'nested', 'locals'})
    recs = ctx.tlc('Locate', 'two changes before, one after', constants=dict(full, MaxPre=2, MaxPost=1), invariants=INV)
    rnd = ctx.tlc('Locate', 'random histories', constants=dict(full, MaxPre=5, MaxPost=3), invariants=INV, simulate=ctx.pick(8000, 60000), depth=12, seed=ctx.seed)
    if ctx.thorough:
        deep = ctx.tlc('Locate', 'three before, two after', constants=dict(full, MaxPre=3, MaxPost=2, Places={'module', 'file'}, Paths={'top', 'nested'}), invariants=INV, heap='20g')
    base = [r for r in recs if len(r['hist']) <= 1]
    for i, r in enumerate(base): r['protos'] = [0, 1, 2, 3, 5, 4]
    rest = [r for r in recs if len(r['hist']) > 1]
    for i, r in enumerate(rest): r['protos'] = [(0, 2, 4, 5)[i % 4]]
    for i, r in enumerate(base + rest + rnd): r['look'] = ('plain', 'samecode', 'wrapped', 'equal', 'derived', 'partial')[i % 6]
    for i, r in enumerate(base + rest + rnd): r['miss'] = MISSING[i // 6 % len(MISSING)]
    base = base + [dict(r, miss=x) for r in base if ['module', 'missing'] in r['hist'] for x in MISSING]
    base = base + [dict(r, look=l) for r in base for l in ('samecode', 'wrapped', 'derived') if r['look'] != l]
    ctx.replay('locate', base, 'at most one change')
    if not ctx.violations: ctx.replay('locate', ctx.subset(rest, ctx.pick(40000, 10**9)), 'two before, one after')
    if not ctx.violations: ctx.replay('locate', ctx.subset(rnd, ctx.pick(20000, 200000)), 'random histories')
    if ctx.thorough and not ctx.violations: ctx.replay('locate', ctx.subset(deep, 400000), 'three before, two after')
    return ctx.finish(exhaustive=False)
