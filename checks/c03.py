TECHNIQUE = 'TLA+ spec of name-reference graphs and versioned namespaces (Globals.tla), TLC enumeration, every program generated and replayed on dill'
NOTE = ('All programs with up to two references over 3 functions x 15+ ways of referring x spellings of the names x rebinding histories x options x kinds of module '
        '(sampled in quick), random ones up to seven references; carried names, bindings and results compared with the specification.')
INV = ['PrivateStable', 'LiveFollows', 'Emit']
T = {'root', 'g', 'h', 'd1', 'd2', 'K', 'math', 'len', 'zz'}
V = {'direct', 'nested', 'lambda', 'comp', 'gen', 'clsbody', 'method', 'default', 'deep', 'attr', 'shadow', 'kwname', 'string', 'store', 'closure', 'try', 'fstr', 'kwdef'}
P = {'detached', 'main', 'module'}
O = [dict(recurse=r, protocol=p) for r in (False, True) for p in (0, 2, 4)]
def run(ctx):
    c = dict(Places=P)
    one = ctx.tlc('Globals', 'one reference', constants=dict(c, Targets=T, Vias=V, MaxRefs=1), extra_constants=dict(Opts=O), invariants=INV)
    two = ctx.tlc('Globals', 'two references', constants=dict(c, Targets=T - {'len', 'math'}, Vias=V - {'fstr', 'gen', 'string', 'try'}, MaxRefs=2), extra_constants=dict(Opts=O[1::3]), invariants=INV)
    three = ctx.tlc('Globals', 'three references, function graph', constants=dict(c, Targets={'root', 'g', 'h', 'd1'}, Vias={'direct', 'nested', 'closure', 'kwdef'}, MaxRefs=3), extra_constants=dict(Opts=O[1::3]), invariants=INV)
    big = ctx.tlc('Globals', 'up to seven references', constants=dict(c, Targets=T, Vias=V, MaxRefs=7), extra_constants=dict(Opts=O), invariants=INV,
                  simulate=ctx.pick(2500, 60000), depth=14, seed=ctx.seed)
    for label, recs, n in (('one reference', one, 8000), ('two references', two, 10000), ('three references', three, 8000), ('random', big, 8000)):
        if not ctx.violations: ctx.replay('globs', ctx.subset(recs, ctx.pick(n, 300000)), label)
    ctx.assumptions = ['names are static references; names computed at run time are outside the property']
    return ctx.finish()
