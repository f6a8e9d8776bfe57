TECHNIQUE = 'TLA+ spec of object heaps and the serialiser/loader machine (Graph.tla), TLC enumeration, replay of every heap on dill'
NOTE = ('TLC proves the never-silently-different and success invariants on the specified machine for every heap within the bounds; '
        'every enumerated heap (sampled in quick above 2 nodes) is rebuilt with real objects, pickled and compared by a parallel walk. '
        'Assumes CPython semantics of the driver-built objects; beyond the bounds only random heaps.')
ALL = set("V0 L1 L2 D1 D2 T1 T2 X0 X1 F0 Fc Fcc Fd Fk Fa Fca Fcd Fg Fgg C0 Ca Cm Cb Cbm Caa I0 Ia Iaa M P0 P1 PR SM CM MP VK W "
          "LC PK OD DD S1 FS".split())
CORE = set("V0 L1 T1 X1 Fc Fd Fa Fg Ca Cm C0 Ia M".split())
DEEP = set("X1 Fc Fcc Cm Ia L1 Fg T1 C0".split())
INV = ['NeverWrong', 'SoftSucceeds', 'StackEmpty', 'Emit']

def combos(i, full):
    """option rows for heap number i"""
    base = [dict(protocol=p, recurse=r) for p in (4, 5, 2, 0, 3, 1) for r in (False, True)]
    if full:
        rows = [(kw, 'vt_nomod') for kw in base] + [(dict(protocol=4, byref=True), 'vt_nomod'), (dict(), 'vt_nomod'),
                (dict(), '__main__'), (dict(recurse=True), '__main__'), (dict(byref=True), '__main__')]
        return rows
    rows = [(base[i % 12], 'vt_nomod'), (base[(i * 5 + 3) % 12], 'vt_nomod')]
    if i % 4 == 0: rows.append((dict(recurse=bool(i % 8)), '__main__'))
    if i % 6 == 0: rows.append((dict(byref=True), 'vt_nomod' if i % 12 else '__main__'))
    return rows

def run(ctx):
    small = ctx.tlc('Graph', 'all kinds, 2 nodes', constants=dict(Kinds=ALL, MaxN=2, MinEmit=1), invariants=INV)
    three = ctx.tlc('Graph', 'all kinds, 3 nodes', constants=dict(Kinds=ALL, MaxN=3, MinEmit=3), invariants=INV)
    four = ctx.tlc('Graph', 'core kinds, 4 nodes', constants=dict(Kinds=CORE, MaxN=4, MinEmit=4), invariants=INV)
    deep = ctx.tlc('Graph', 'closure kinds, %d nodes' % ctx.pick(4, 5), constants=dict(Kinds=DEEP, MaxN=ctx.pick(4, 5), MinEmit=4), invariants=INV, heap='16g')
    big = ctx.tlc('Graph', 'all kinds, up to 8 nodes, random', constants=dict(Kinds=ALL, MaxN=8, MinEmit=4), invariants=INV,
                  simulate=ctx.pick(6000, 60000), depth=30, seed=ctx.seed)
    for r in small: r['runs'] = combos(0, True)
    ctx.replay('graph', small, 'all heaps of <=2 nodes, full option matrix')
    for label, recs, n in (('heaps of 3 nodes', three, ctx.pick(25000, 10**9)), ('heaps of 4 nodes (core kinds)', four, ctx.pick(12000, 10**9)),
                           ('heaps of 4-5 nodes (closure kinds)', deep, ctx.pick(8000, 150000)), ('random heaps', big, 10**9)):
        recs = ctx.subset(recs, n)
        for i, r in enumerate(recs): r['runs'] = combos(i, ctx.thorough and len(recs) < 60000)
        if not ctx.violations: ctx.replay('graph', recs, label)
    ctx.assumptions = ['bounds: every heap of <=3 nodes over %d node kinds, <=4 nodes over %d core kinds, random heaps to 8 nodes' % (len(ALL), len(CORE)),
                       'quick replays a seeded sample of the enumerated 3-5-node heaps; thorough replays all']
    return ctx.finish(exhaustive=ctx.thorough)
