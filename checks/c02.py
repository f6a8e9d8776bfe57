TECHNIQUE = 'TLA+ spec of function features and options (FuncSpec.tla), TLC enumeration, every behaviour replayed on dill in the same and in fresh processes'
NOTE = ('All functions with up to two features over 8 kinds and 3 places (all single features under the full protocol/option/process matrix), '
        'random ones with up to six; every observable attribute, code field and call result compared. PEP 695 type parameters are outside the specification.')
INV = ['Sane', 'Emit']
def rows():
    return [dict(protocol=p, recurse=r, byref=b) for p in range(6) for r in (False, True) for b in (False, True)]
def pick(recs, per, rng):
    """group option rows of one function; keep `per` of them"""
    by = {}
    for r in recs: by.setdefault(str(r['f']), []).append(r)
    out = []
    for k in sorted(by):
        g = by[k]
        g = g if per is None or len(g) <= per else rng.sample(g, per)
        out.append(dict(f=g[0]['f'], obs=g[0]['obs'], opts=[dict(opt=x['opt'], where=x['where']) for x in g]))
    return out
def run(ctx):
    one = ctx.tlc('FuncSpec', 'one feature, all options', constants=dict(MaxF=1), files=None, invariants=INV, **opts(rows()))
    two = ctx.tlc('FuncSpec', 'two features', constants=dict(MaxF=2), invariants=INV, **opts(rows()[8:10] + rows()[17:20:2]))
    big = ctx.tlc('FuncSpec', 'up to six features', constants=dict(MaxF=6), invariants=INV, simulate=ctx.pick(2500, 60000), depth=12, seed=ctx.seed, **opts(rows()[:1]))
    ctx.replay('funcs', pick(one, ctx.pick(10, None), ctx.rng), 'one feature, option matrix')
    if not ctx.violations: ctx.replay('funcs', ctx.subset(pick(two, ctx.pick(2, None), ctx.rng), ctx.pick(12000, 10**9)), 'two features')
    if not ctx.violations: ctx.replay('funcs', more(ctx, pick(big, None, ctx.rng)), 'up to six features')
    ctx.assumptions = ['features are combined up to two exhaustively and six at random', 'fresh processes run the same interpreter']
    return ctx.finish(exhaustive=False)
def opts(rs):
    return dict(extra_constants=dict(Opts=rs))
def more(ctx, recs):
    """the specification's transition is the same for every option row: give each random function one"""
    recs = ctx.subset(recs, ctx.pick(10000, 200000))
    rs = rows()
    for r in recs:
        for o in r['opts']: o['opt'] = ctx.rng.choice(rs)
    return recs
