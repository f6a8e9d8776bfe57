"""C19: render a program of nested scopes, compile it, make its functions with chosen cells, inspect everything."""
import sys, types, gc, builtins
import dill
from dill import detect
NAMED = ('def', 'async', 'class'); COMP = ('genexp', 'listcomp', 'dictcomp'); FUNS = ('def', 'async', 'lambda')
class R:
    def __init__(self, sc):
        self.sc = sc; self.out = []; self.line = {}
        self.kids = lambda i: [j for j in range(1, len(sc['par']) + 1) if sc['par'][j-1] == i]
    def of(self, i, *ops): return [n for o, n in self.sc['stm'][i-1] if o in ops]
    def put(self, ind, text): self.out.append(' ' * ind + text); return len(self.out)
    def params(self, i):
        o = self.of
        a = o(i, 'posonly') + (['/'] if o(i, 'posonly') else []) + o(i, 'param')
        kw = [n for n in o(i, 'kwonly')] + ['k_%d=%s' % x for x in enumerate(o(i, 'default'))]
        v = o(i, 'vararg')
        if v: a.append('*' + v[0])
        elif kw: a.append('*')
        return ', '.join(a + kw + ['**' + n for n in o(i, 'kwarg')])
    def exprs(self, i, ind, out):
        """the parts of an expression scope, each on its own line"""
        for o, n in self.sc['stm'][i-1]:
            e = {'read': n, 'call': n + '()', 'sub': '().qq[%s]' % n, 'nested': '[[%s.qq]]' % n, 'attr': '().' + n, 'kw': '().qq(%s=0)' % n, 'string': "().qq('_GLOBAL (%s)')" % n, 'walrus': '(%s := 0)' % n}.get(o)
            if e: self.put(ind, e + ',')
        for j in self.kids(i): self.scope(j, ind, ',')
    def scope(self, i, ind, tail=''):
        k = self.sc['kind'][i-1]; nm = 's%d' % i
        if k == 'lambda':
            self.line[i] = self.put(ind, 'lambda %s: (' % self.params(i)); self.exprs(i, ind + 1, None); self.put(ind, ')' + tail); return
        if k in COMP:
            op, cl = {'genexp': '()', 'listcomp': '[]', 'dictcomp': '{}'}[k]
            self.line[i] = self.put(ind, op + ('0: (' if k == 'dictcomp' else '('))
            self.exprs(i, ind + 1, None); self.put(ind + 1, 't%d,' % i)
            it = self.of(i, 'iter')
            self.put(ind, ') for t%d in (%s)%s%s%s' % (i, ''.join(x + ', ' for x in it), ''.join(' for %s in ()' % x for x in self.of(i, 'target')), cl, tail)); return
        first = len(self.out) + 1
        for n in self.of(i, 'deco'): self.put(ind, '@' + n)
        ann = self.of(i, 'annot')
        if k == 'class': self.put(ind, 'class %s(%s):' % (nm, ', '.join(self.of(i, 'base'))))
        else: self.put(ind, '%sdef %s(%s)%s:' % ('async ' if k == 'async' else '', nm, self.params(i), ' -> (%s,)' % ', '.join(ann) if ann else ''))
        self.line[i] = first
        ind += 1
        for o in ('global', 'nonlocal'):
            for n in self.of(i, o): self.put(ind, '%s %s' % (o, n))
        for o, n in self.sc['stm'][i-1]:
            t = {'read': '{n}', 'call': '{n}()', 'sub': '().qq[{n}]', 'nested': '[[{n}.qq]]', 'attr': '().{n}', 'kw': '().qq({n}=0)', 'string': "().qq('_GLOBAL ({n})')", 'walrus': '({n} := 0)', 'write': '{n} = 0', 'aug': '{n} += 0', 'for': 'for {n} in (): pass', 'exc': 'try: ().qq\n{i}except () as {n}: pass', 'with': 'with () as {n}: pass', 'import': 'import d as {n}', 'from': 'from d import d as {n}', 'ann': '{n}: 0', 'match': 'match 0:\n{i} case {n}: pass', 'star': '*{n}, = ()', 'tuple': '{n}, _q = 0, 0', 'del': 'del {n}', 'dead': 'if 0: {n}', 'super': 'super().qq', 'early': '().qq({n}); {n} = 0', 'maybe': 'if ().qq: {n} = 0\n{i}().qq({n})'}.get(o)
            if t: 
                for x in t.format(n=n, i=' ' * ind).split('\n'): self.out.append(x if x.startswith(' ' * ind) else ' ' * ind + x)
        for j in self.kids(i): self.scope(j, ind)
        self.put(ind, 'pass')
    def render(self):
        for j in self.kids(0): self.scope(j, 0)
        return '\n'.join(self.out) + '\n'
class Guard:
    def write(self, *a): raise AssertionError('wrote to a standard stream')
    def flush(self): raise AssertionError('flushed a standard stream')
def walk(co):
    for c in co.co_consts:
        if isinstance(c, types.CodeType): yield c; yield from walk(c)
AUX = lambda n: n.startswith('k_') or n == '_q'
def run(sc):
    r = R(sc); src = r.render()
    try: mod = compile(src, '<vt>', 'exec', dont_inherit=True)
    except SyntaxError as e: return {'bad': 'the model allows a program that python does not: %s\n%s' % (e, src)}
    n = len(sc['par']); at = {v: k for k, v in r.line.items()}
    codes = {at[c.co_firstlineno]: c for c in walk(mod) if c.co_firstlineno in at}
    ns = {k: object() for k in ('x', 'd', 'v_GLOBAL', '__p')}; ns['__name__'] = 'vt_scopes'; ns['len'] = len
    cells, funs, rep = {}, {}, sc['rep']
    dead = set(sc['dead'])
    def fun(i):
        if i in funs: return funs[i]
        homes = rep[i-1]['home']; homes = homes if isinstance(homes, dict) else {}
        if set(homes) != set(codes[i].co_freevars): raise AssertionError('free variables of scope %d: model %s python %s\n%s' % (i, sorted(homes), codes[i].co_freevars, src))
        cs = tuple(cells.setdefault((homes[v], v), types.CellType()) for v in codes[i].co_freevars)
        funs[i] = types.FunctionType(codes[i], ns, 's%d' % i, None, cs)
        for v, c in zip(codes[i].co_freevars, cs):
            w = rep[i-1]['cellmap'][v]
            if w == -1: continue
            try: c.cell_contents
            except ValueError: c.cell_contents = 'value of %s' % v; c.cell_contents = fun(w) if w else 'value of %s' % v
        return funs[i]
    for i in range(1, n + 1):
        k = sc['kind'][i-1]
        if k in FUNS and i in codes and i not in dead: fun(i)
        if sc['par'][i-1] == 0: ns['s%d' % i] = funs[i] if k in FUNS else type('s%d' % i, (), {})
    ns.update((k, fun(i)) for k, i in dict(sc['bind']).items())
    out, bad = (sys.stdout, sys.stderr), []
    guards = sys.stdout, sys.stderr = Guard(), Guard()
    def tr(f, e, a):
        if (sys.stdout, sys.stderr) != guards: bad.append('a standard stream is replaced during inspection'); sys.settrace(None); return
        return tr
    def say(what, i, got, *want):
        bad.append('%s of scope %d: %s, expected %s\n%s' % (what, i, sorted(map(str, got)), ' .. '.join(str(sorted(map(str, w))) for w in want), src))
    def between(what, i, got, mm, f=lambda s: s):
        got = list(got); lo, hi = f(set(mm[0])), f(set(mm[1]))
        if len(set(got)) != len(got): say(what + ' (repeated)', i, got, lo)
        got = {g for g in got if not (isinstance(g, str) and AUX(g))}
        if not (lo <= got <= hi): say(what, i, got, lo, hi)
    ids = lambda l: [at.get(c.co_firstlineno, 'line %d' % c.co_firstlineno) for c in l]
    if len(src) % 16 == 0: sys.settrace(tr)
    try:
        for i in sorted(codes):
            p = rep[i-1]; views = [codes[i]]
            if i in funs: views += [funs[i], types.MethodType(funs[i], 7)]
            for v in views:
                if detect.code(v) is not codes[i]: bad.append('code of scope %d is another' % i)
                a, b = detect.varnames(v)
                between('local variables', i, a, (set(p['locals'][0]), set(p['locals'][1])))
                between('cell variables', i, b, p['cells'])
                between('nested code', i, ids(detect.nestedcode(v)), p['code'])
                between('direct nested code', i, ids(detect.nestedcode(v, recurse=False)), p['code1'])
                between('global names', i, detect.nestedglobals(v), p['names'])
                between('own global names', i, detect.nestedglobals(v, recurse=False), p['names1'])
                fv = detect.freevars(v)
                if v is codes[i]:
                    if fv != {}: say('closure of code', i, fv, {})
                else:
                    if set(fv) != set(p['freevars']): say('closure variables', i, fv, p['freevars'])
                    for k, c in zip(codes[i].co_freevars, funs[i].__closure__ or ()):
                        if k in fv and fv[k] is not c.cell_contents: bad.append('closure variable %s of scope %d has the wrong value\n%s' % (k, i, src))
                for rec in (True, False):
                    for bi in (False, True):
                        got = detect.globalvars(v, rec, bi)
                        pool = dict(vars(builtins)) if bi else {}
                        if v is not codes[i]: pool.update(ns)
                        want = p['names' if rec else 'names1'] if v is codes[i] else p['globs' if rec else 'globs1']
                        between('globals (recurse=%s, builtin=%s)' % (rec, bi), i, got, want, lambda s: s & set(pool))
                        for k in got:
                            if got[k] is not pool[k]: bad.append('global %s of scope %d is not the object of that name\n%s' % (k, i, src))
                        if set(detect.referredglobals(v, rec, bi)) != set(got): bad.append('referredglobals and globalvars disagree on scope %d\n%s' % (i, src))
            if i == 1 or i == max(codes):
                gc.collect(0)
                for rec, key in ((True, 'alive'), (False, 'alive1')):
                    got = detect.referrednested(views[-1], rec)
                    want = [funs[j] for j in p[key] if j in funs]
                    if not rec and any(k in ('listcomp', 'dictcomp') for k in sc['kind']): continue
                    if len(got) != len(want) or {id(g) for g in got} != {id(g) for g in want}: say('nested functions (recurse=%s)' % rec, i, got, want)
    except RecursionError as e: bad.append('inspection does not end: %s\n%s' % (e, src))
    except Exception as e: bad.append('inspection fails: %s: %s\n%s' % (type(e).__name__, e, src))
    finally:
        sys.settrace(None)
        if (sys.stdout, sys.stderr) != guards: bad.append('a standard stream is replaced after inspection')
        sys.stdout, sys.stderr = out
    return {'bad': bad[0]} if bad else None
