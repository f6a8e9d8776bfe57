TECHNIQUE = 'TLA+ spec of the matching of saved sessions and targets (Refuse.tla), TLC enumeration, every attempt (and sequence of attempts) replayed on dill'
NOTE = ('All combinations of nine modules as saved and as target (object, name, none), six kinds of stream and nine kinds of damage, truncation at every byte, and random sequences of attempts; '
        'modules and table of modules compared before and after.')
INV = ['OnlyMatching', 'Emit']
K = [dict(kind='main', name='__main__'), dict(kind='file', name='vt_sessmod'), dict(kind='file', name='vt_sessmod2'), dict(kind='sub', name='vt_sesspkg.sub'),
     dict(kind='runtime', name='vt_rt1'), dict(kind='runtime', name='vt_rt2'), dict(kind='runtime', name='vt_sessmod'), dict(kind='runtime', name='__main__'),
     dict(kind='runtime', name='vt_sesspkg.sub'), dict(kind='stale', name='vt_sessmod')]
ST = {'bytesio', 'path', 'file', 'raw', 'buffered', 'unseekable'}
D = {'ok', 'notpickle', 'other', 'otherobj', 'empty', 'module', 'cut', 'poison', 'poisonexit'}
EN = {'load', 'asdict', 'update'}
def run(ctx):
    a = ctx.tlc('Refuse', 'single attempts', constants=dict(Streams=ST, Damages=D | {'cutall'}, Cuts=set(range(0, 1001, 90)), MaxAttempts=1, Entries=EN, Presence={True, False}), extra_constants=dict(Mods=K), invariants=INV)
    a = [r for r in a if r['hist'][0]['damage'] != 'cutall' or (r['hist'][0]['stream'] in ('bytesio', 'raw') and (ctx.thorough or r['hist'][0]['entry'] != 'update'))]
    r = ctx.tlc('Refuse', 'sequences', constants=dict(Streams=ST, Damages=D, Cuts={0, 500}, MaxAttempts=5, Entries=EN, Presence={True, False}), extra_constants=dict(Mods=K), invariants=INV, simulate=ctx.pick(12, 400), depth=6, seed=ctx.seed)
    ctx.replay('refuse', a, 'single attempts')
    if not ctx.violations: ctx.replay('refuse', ctx.subset(r, ctx.pick(6000, 10**9)), 'sequences of attempts')
    return ctx.finish()
