TECHNIQUE = 'TLA+ spec of class families, members and options (ClassSpec.tla), TLC enumeration, every class built, copied by value and compared in the same and in fresh processes'
NOTE = ('All classes with up to two members over 25 families and 44 kinds of member (single members under the full protocol/option/process matrix), random ones up to seven; '
        'class dictionary, layout, metaclass, mro, abstract methods, virtual subclasses and the behaviour of instances compared.')
INV = ['Sane', 'Emit']
F = {'plain', 'one', 'diamond', 'mixin', 'slotbase', 'dict', 'int', 'list', 'tuple', 'exc', 'abc', 'abcmix', 'generic', 'genmix', 'protocol', 'meta', 'impmeta', 'ntuple',
     'NT', 'dataclass', 'frozen', 'dcslots', 'userdict', 'stdabc', 'subgen', 'subgen2', 'subgeni'}
HARD = {'enum', 'pep695'}
def rows(): return [dict(protocol=p, recurse=r) for p in range(6) for r in (False, True)]
def group(recs, per, rng, spread=None):
    by = {}
    for r in recs: by.setdefault((r['fam'], tuple(sorted(r['mem']))), []).append(r)
    out = []
    for k in sorted(by):
        g = by[k]
        if per and len(g) > per: g = rng.sample(g, per)
        x = {a: b for a, b in g[0].items() if a not in ('opt', 'where')}
        out.append(dict(x, mem=sorted(x['mem']), opts=[dict(opt=rng.choice(spread) if spread else y['opt'], where=y['where']) for y in g]))
    return out
def run(ctx):
    one = ctx.tlc('ClassSpec', 'one member, all options', constants=dict(MaxM=1, Families=F | HARD), extra_constants=dict(Opts=rows()), invariants=INV)
    two = ctx.tlc('ClassSpec', 'two members', constants=dict(MaxM=2, Families=F), extra_constants=dict(Opts=rows()[:1]), invariants=INV)
    big = ctx.tlc('ClassSpec', 'up to seven members', constants=dict(MaxM=7, Families=F), extra_constants=dict(Opts=rows()[:1]), invariants=INV, simulate=ctx.pick(500, 20000), depth=10, seed=ctx.seed)
    ctx.replay('classes', group(one, ctx.pick(5, None), ctx.rng), 'one member, option matrix')
    if not ctx.violations: ctx.replay('classes', ctx.subset(group(two, 1 if not ctx.thorough else None, ctx.rng, rows()), ctx.pick(9000, 10**9)), 'two members')
    if not ctx.violations: ctx.replay('classes', ctx.subset(group(big, 2, ctx.rng, rows()), ctx.pick(3000, 10**9)), 'up to seven members')
    return ctx.finish()
