TECHNIQUE = 'TLA+ spec of copying trees of parts and of the reports on them (Diagnose.tla), TLC enumerates and generates trees and calls; each tree is built from objects copied as told, and every diagnosis compared with its report'
NOTE = '14 ways of copying, parts held, computed or unreadable, every tree of up to 2 (thorough 3) parts, random ones of up to 8, depths 0 to 3, both flags, 11 shapes of containers; 18 kinds of ordinary objects attribute by attribute.'
KINDS = {'ok', 'dumpT', 'dumpP', 'dumpV', 'dumpA', 'loadT', 'loadU', 'loadK', 'loadR', 'neq', 'othertype', 'othereq', 'looks', 'ok2'}
CALLS = {'errors', 'badobjects', 'badtypes', 'baditems'}
SHAPES = {'object', 'list', 'tuple', 'dict', 'gen', 'odict', 'deque', 'iter', 'values', 'twice', 'mixed', 'arrays'}
INV = ['Agree', 'Spreads', 'Emit']
OBJ = 'prop slots slotclass func gen frame module ns int type abc exc lambda method thread partial file array'.split()
def run(ctx):
    base = dict(Vias={'held', 'computed', 'raises'}, Calls=CALLS, Shapes=SHAPES)
    a = ctx.tlc('Diagnose', 'small trees', constants=dict(base, Kinds=KINDS, MaxNodes=2, MaxDepth=2, Random=False), invariants=INV)
    ctx.replay('diagnose', ctx.subset(a, ctx.pick(12000, 10**9)), 'small trees')
    if not ctx.violations:
        r = ctx.tlc('Diagnose', 'random trees', constants=dict(base, Kinds=KINDS, MaxNodes=ctx.pick(6, 8), MaxDepth=3, Random=True), invariants=INV, simulate=ctx.pick(4000, 60000), depth=20, seed=ctx.seed)
        ctx.replay('diagnose', r, 'random trees')
        q = ctx.tlc('Diagnose', 'mostly sound trees', constants=dict(base, Kinds={'ok', 'ok2', 'ok3', 'neq', 'dumpT'}, MaxNodes=ctx.pick(7, 9), MaxDepth=3, Random=True), invariants=INV, simulate=ctx.pick(3000, 40000), depth=20, seed=ctx.seed + 1)
        ctx.replay('diagnose', q, 'mostly sound trees')
        if ctx.thorough:
            t = ctx.tlc('Diagnose', 'three parts', constants=dict(base, Kinds={'ok', 'dumpT', 'dumpV', 'loadK', 'neq', 'othertype'}, MaxNodes=3, MaxDepth=3, Random=False), invariants=INV)
            ctx.replay('diagnose', t, 'three parts')
        ctx.replay('diagnose', [dict(obj=o, exact=e, safe=s) for o in OBJ for e in (False, True) for s in (False, True)], 'ordinary objects')
    return ctx.finish()
