import json, os
TECHNIQUE = 'TLA+ spec of the algebra of supported values (Terms.tla): TLC enumerates and generates sorted terms with shared parts, protocol and options; each is built, copied and recognised; catalogue entries likewise'
NOTE = '150 atoms and 49 constructors, every atom under every protocol, every constructor over a few atoms, random terms of up to 9 (thorough 14) nodes; the library\'s catalogue of supported and unsupported objects, also nested.'
OPTS = {'plain', 'recurse', 'byref', 'fmode'}
def run(ctx):
    import vt
    x = json.loads(vt.subprocess.run([vt.PY, '-B', '-c', 'import terms as t, json; from dill import _objects as o; print("\\n" + json.dumps(dict(lib=list(t.LIB), Unique=list(t.UNIQUE), Types=list(t.TYPES), Funcs=list(t.FUNCS), Hashable=list(t.HASHABLE), Plain=list(t.PLAIN), cat=sorted(o.succeeds) + sorted(o.failures))))'], env=vt.driver_env(PYTHONPATH=vt.REPO + os.pathsep + vt.DRIVERS), text=True, capture_output=True, cwd='/tmp').stdout.splitlines()[-1])
    cat = x.pop('cat'); lib = set(x.pop('lib'))
    sets = {k: set(v) for k, v in x.items()}
    cons = set('list tuple deque set fset dict odict ddict slice partial partialkw pmeth mproxy keys values items okeys ovalues oitems chainmap igetter agetter mcaller inst slotinst simplens exc cell dci nt prop static classm cprop meth cmeth super super2 bmeth mwrap glist gdict gtuple List Dict Union Optional Call CallE Tuple union TypeOf ClassVar Annot'.split())
    inv = ['WellFormed', 'Emit']
    base = dict(sets, Classes=set(), Protos=set(range(6)), Options=OPTS)
    a = ctx.tlc('Terms', 'atoms', constants=dict(base, Cons=set(), MaxNodes=1, Random=False, Nested=False), invariants=inv)
    ctx.replay('terms', ctx.subset(a, ctx.pick(4000, 10**9)), 'atoms')
    l = ctx.tlc('Terms', 'classes and functions of the library', constants=dict(base, Unique=lib, Types=set(), Funcs=set(), Hashable=set(), Plain=set(), Cons=set(), MaxNodes=1, Random=False, Nested=False), invariants=inv)
    ctx.replay('terms', ctx.subset(l, ctx.pick(60000, 10**9)), 'classes and functions of the library')
    base2 = dict(base, Unique={'none', 'ell'}, Types={'int', 'outer', 'tnone'}, Funcs={'len', 'top'}, Hashable={'i1', 's'}, Plain={'barr'})
    b = ctx.tlc('Terms', 'constructors', constants=dict(base2, Cons=cons, MaxNodes=3, Protos={0, 2, 4}, Options={'plain'}, Random=False, Nested=False), invariants=inv)
    ctx.replay('terms', ctx.subset(b, ctx.pick(6000, 200000)), 'constructors')
    if ctx.violations: return ctx.finish()
    r = ctx.tlc('Terms', 'random terms', constants=dict(base, Cons=cons, MaxNodes=ctx.pick(9, 14), Random=True, Nested=True), invariants=inv, simulate=ctx.pick(5000, 100000), depth=20, seed=ctx.seed)
    ctx.replay('terms', ctx.subset(r, ctx.pick(8000, 10**9)), 'random terms')
    if ctx.violations: return ctx.finish()
    ctx.replay('terms', [dict(cat=k, proto=p, opt=o) for k in cat for p in range(2, 6) for o in ('plain', 'recurse')], 'catalogue')
    return ctx.finish()
