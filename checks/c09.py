import os, sys
TECHNIQUE = 'TLA+ spec of namespaces loaded into dictionaries (Session.tla), TLC enumeration, every history replayed on dill'
NOTE = ('All histories of two changes before and one after the save over two names, with and without update; random ones with four names and three loads; loads of every kind of module, imported or not, from damaged streams, with failures and interrupts while loading.')
INV = ['Kept', 'Emit']
V = {'list', 'func', 'class', 'inst', 'clos', 'self', 'ns', 'std', 'ifun', 'const', 'int', 'iobj', 'ilamas'}
MK = {'main', 'file', 'sub', 'runtime', 'namesake'}
def run(ctx):
    a = ctx.tlc('Session', 'two changes before', constants=dict(ModKinds=MK, Names={'a', 'b'}, Vals={'list', 'func', 'class', 'inst', 'self', 'ns', 'std', 'iobj'}, RefOpts={False, True}, MaxPre=2, MaxPost=1, MaxLoads=1, AsDict=True, Plain=False, Restarts=True), invariants=INV)
    r = ctx.tlc('Session', 'random histories', constants=dict(ModKinds=MK, Names={'a', 'b', 'c', 'd'}, Vals=V, RefOpts={False, True}, MaxPre=7, MaxPost=5, MaxLoads=3, AsDict=True, Plain=True, Restarts=True), invariants=INV,
                simulate=ctx.pick(2500, 40000), depth=30, seed=ctx.seed)
    ctx.replay('sessions', ctx.subset(a, ctx.pick(6000, 10**9)), 'two changes before')
    if not ctx.violations: ctx.replay('sessions', ctx.subset(r, ctx.pick(5000, 10**9)), 'random histories')
    if not ctx.violations:
        # (failures of every kind at every point; see C10)
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        from c10 import K, ST, D
        b = ctx.tlc('Refuse', 'failures', constants=dict(Streams=ST, Damages=D | {'cutall'}, Cuts=set(range(0, 1001, 90)), MaxAttempts=1, Entries={'asdict', 'update'}, Presence={True, False}), extra_constants=dict(Mods=K), invariants=['Emit'])
        ctx.replay('refuse', [r for r in b if r['hist'][0]['damage'] != 'cutall' or r['hist'][0]['stream'] == 'bytesio'], 'failures')
    return ctx.finish()
