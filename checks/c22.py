TECHNIQUE = 'TLA+ spec of handles, their files and nested captures (Temp.tla); TLC enumerates and generates histories, replayed with the real helpers in a scratch folder, looking at values, files and streams after every step'
NOTE = 'Four kinds of handles, 13 values and 15 objects with source (importable or of the main program), every history of 4 steps over few values, random ones of 14 (thorough 24) with up to 5 handles and 3 captures.'
VALUES = set('int list dict str bytes none inst lambda big empty ellipsis float module'.split())
NAMED = set('func lam class uni multi glob rec tagged taggedclass oneline blank tagtext instance number plainlist'.split())
INV = ['Lives', 'Once', 'Emit']
STORE, CAP = {'dump', 'dumpbad', 'load', 'change', 'drop'}, {'enter', 'write', 'leave', 'swap'}
def run(ctx):
    a = ctx.tlc('Temp', 'handles', constants=dict(Values={'list'}, Named={'uni'}, Bad={'gen'}, MaxHandles=2, MaxCaptures=0, MaxSteps=ctx.pick(3, 4), Doing=STORE, Random=False), invariants=INV)
    ctx.replay('temp', ctx.subset(a, ctx.pick(8000, 60000)), 'handles')
    b = ctx.tlc('Temp', 'captures', constants=dict(Values={'list'}, Named={'uni'}, Bad=set(), MaxHandles=0, MaxCaptures=3, MaxSteps=ctx.pick(4, 5), Doing=CAP, Random=False), invariants=INV)
    ctx.replay('temp', ctx.subset(b, ctx.pick(12000, 120000)), 'captures')
    if not ctx.violations:
        c = ctx.tlc('Temp', 'every value', constants=dict(Values=VALUES, Named=NAMED, Bad=set(), MaxHandles=1, MaxCaptures=0, MaxSteps=2, Doing={'dump', 'load'}, Random=False), invariants=INV)
        ctx.replay('temp', c, 'every value')
        r = ctx.tlc('Temp', 'random histories', constants=dict(Values=VALUES, Named=NAMED, Bad={'gen', 'frame', 'nested'}, MaxHandles=5, MaxCaptures=3, MaxSteps=ctx.pick(14, 24), Doing=STORE | CAP, Random=True), invariants=INV, simulate=ctx.pick(3000, 40000), depth=30, seed=ctx.seed)
        ctx.replay('temp', r, 'random histories')
    return ctx.finish()
