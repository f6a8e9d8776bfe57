TECHNIQUE = 'TLA+ spec of opening a session file while another process changes the path (SafeOpen.tla), TLC over all interleavings, every schedule replayed on dill by acting before its file-system calls'
NOTE = 'Path naming 9 kinds of thing, up to two changes by another process before any of the first four file-system calls of the save or load (three changes in the thorough tier).'
INV = ['NeverFollows', 'OutcomeAllowed', 'Determined', 'Emit']
ST = {'absent', 'mine', 'shared', 'other', 'link', 'linknew', 'linkdir', 'linkloop', 'linkown', 'dir'}
def run(ctx):
    base = dict(Modes={'write', 'read', 'asdict'}, States=ST)
    a = ctx.tlc('SafeOpen', 'one change', constants=dict(base, MaxActs=1, Instants=5, Contents={'good', 'bad'}), invariants=INV)
    ctx.replay('safeopen', a, 'one change')
    if not ctx.violations:
        b = ctx.tlc('SafeOpen', 'several changes', constants=dict(base, MaxActs=ctx.pick(2, 3), Instants=5, Contents={'good'}), invariants=INV)
        ctx.replay('safeopen', ctx.subset(b, ctx.pick(3000, 40000)), 'several changes')
    return ctx.finish()
