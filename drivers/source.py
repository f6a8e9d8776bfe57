"""C21: write the source file, import it, take the sources of what it defines"""
import sys, os, types, linecache, inspect, tempfile, shutil, warnings
import dill
from dill import source as S
import vt_srcmod as V
FORK = False
count = 0
HEAD = 'from vt_srcmod import deco, decoarg, _reg, _r\n'
def key(sc, d):
    e = sc['defs'][d - 1]; return repr(e['name']) if e['twin'] else str(d)
def render(sc, l):
    k, d = l['k'], l['d']; pad = '    ' * l['ind']; e = sc['defs'][d - 1] if d else None
    n = e['name'] if e else ''; R = '_r(%s, len(a))' % key(sc, d) if d else ''
    kw = {'def': 'def', 'async': 'async def'}.get(e['kind']) if e else ''
    if k == 'head':
        if e['kind'] == 'class': return pad + 'class %s:' % n
        return pad + {'note': '%s %s(*a):  # def %s(): lambda x: 0', 'default': '%s %s(*a, key=lambda q: q, **kw): # %s', 'hint': '%s %s(*a) -> "def x(): pass": # %s', 'tight': '%s  %s ( *a ) : #%s'}.get(e['head'], '%s %s(*a): #%s') % (kw, n, n)
    if k == 'headopen': return pad + ('class %s(' % n if e['kind'] == 'class' else '%s %s(' % (kw, n))
    if k == 'headarg': return pad + ('object,' if e['kind'] == 'class' else '    *a,  # first')
    if k == 'headend': return pad + ('):')
    if k == 'short': return pad + ('class %s: attr = %s' % (n, key(sc, d)) if e['kind'] == 'class' else '%s %s(*a): return %s' % (kw, n, R))
    if k in ('ret', 'retopen', 'retparen', 'retend', 'retclose'):
        v = 'attr = ' if e['kind'] == 'class' else 'return '; x = key(sc, d) if e['kind'] == 'class' else R
        return pad + {'ret': v + x, 'retopen': v + '(%s, """' % x, 'retend': 'x""")', 'retparen': v + '(%s,' % x, 'retclose': '  "%s")' % n}[k]
    if k == 'reg': return pad + ('_reg(%d, %s%s)' % (d, n, '[0]' if e['style'] == 'listed' else '') if e['style'] != 'arg' else 'pass')
    if k == 'lam': return pad + {'plain': '%s = lambda *a: %s', 'tight': '%s = lambda*a:%s', 'paren': '%s = (lambda *a: %s)', 'typed': '%s: object = lambda *a: %s', 'chain': '%s = other = lambda *a: %s', 'arg': '_reg(' + str(d) + ', lambda *a: %.0s%s)', 'note': '%s = lambda *a: %s # def foo(): lambda'}[e['style']] % (n, R)
    return pad + {'deco': '@deco', 'decocall': '@decoarg(1, x="@")', 'decolam': '@(lambda f: f)', 'decoopen': '@decoarg(1,', 'decoarg': '    "def foo(): pass",', 'decoend': ')', 'note': '# class foo: @deco',
        'comment': '# def foo(*a): class foo:', 'stmt': 'x = 1', 'contopen': 'x = [1,', 'contend': '    2]', 'if': 'if 1:', 'then': '    x = 3', 'lamopen': n + ' = (lambda *a:', 'lamend': '    %s)' % R, 'listopen': n + ' = [', 'listed': '    lambda *a: %s,' % R, 'listend': ']',
        'docopen': 'x = """', 'doctext': '    def foo(*a): return 0', 'docend': '"""', 'strcont': 'x = 1'}.get(k, '') if k not in ('low', 'blank', 'doclow') else {'low': '# low', 'blank': '', 'doclow': 'class foo: attr = 0'}[k]
MAKERS = """
def mk_inner(n):
    def inner(x): return ('inner', x, n)
    return inner
def mk_twice(n, *, m=2):
    "def inner(x): return 0"
    def inner(x):
        return ('twice', x, n, m)
    return inner
def mk_deep(n):
    def inner(x):
        y = n
        def deep(z): return (z, n, y)
        return deep(x)
    return inner
def mk_wrap(f):
    def inner(x): return ('wrap', f(x))
    return inner
def plain1(x): return x + 1
def plain2(x): return x + 2
def plain3(x): return x + 3
@mk_wrap
def decorated(x): return x * 5
"""
def made_line(m):
    v = str(m['val']); c = {'inner': 'mk_inner(%s)', 'twice': 'mk_twice(%s, m="é")', 'deep': 'mk_deep([%s])', 'wrap': 'mk_wrap(plain%s)', 'deco': '%.0sdecorated', 'both': 'mk_wrap(mk_inner(%s))'}[m['maker']] % v
    return {'plain': '%s = %s', 'typed': '%s: object = %s', 'item': '%s = [%s][0]', 'pair': 'other, %s = 0, %s', 'under': 'if 1: %s = %s', 'again': '%s = _made[%.0s' + str(m['val']) + '] ; _reg'}[m['form']] % (m['name'], c) + '; _reg(%d, %s)' % (1000 + m['of'] if m['form'] != 'again' else 3000, m['name']) + '; _made = {**globals().get("_made", {}), len(globals().get("_made", {})) + 1: %s}' % m['name']
def closures(sc, mod):
    for i, m in enumerate(sc['made'], 1):
        r = m['m']; o = V.seen[1000 + r['of']]; want = o(1), o('x') if r['maker'] not in ('wrap', 'deco') else 0
        where = 'closure %d (%s): ' % (i, made_line(r).split('; _reg')[0])
        if m['holds'] and mod.__dict__[r['name']] is not o: return {'bad': 'harness: ' + where}
        for kw in ({'alias': 'zz'}, {}, {'alias': 'zz', 'source': False}, {'alias': 'zz', 'source': True}, {'source': True}):
            try: g = S.importable(o, **kw)
            except Exception as e: return {'bad': where + 'importable(%s): %s: %s' % (kw, type(e).__name__, e)}
            ns = {}
            try: exec(g, ns)
            except Exception as e: return {'bad': where + 'importable(%s) gives %r: %s: %s' % (kw, g, type(e).__name__, e)}
            if 'zz' in kw.values(): got = ns.get('zz')
            else:
                names = [n for n in ns if n in m['names'] or n in ('inner', 'decorated')]
                got = ns[names[-1]] if names else None
            try: t = got(1), got('x') if r['maker'] not in ('wrap', 'deco') else 0
            except Exception as e: t = '%s: %s' % (type(e).__name__, e)
            if t != want: return {'bad': where + 'importable(%s) gives %r, which gives %r, not %r' % (kw, g, t, want)}
            if not kw.get('source') and 'import' in g.split('\n')[0] and got is not o and 'def ' not in g: return {'bad': where + 'importable(%s) gives %r, another object' % (kw, g)}
def drive(f, *a):
    r = f(*a)
    if inspect.iscoroutine(r):
        try: r.send(None)
        except StopIteration as e: return ('async', e.value)
    return r
def test(o):
    if isinstance(o, type): return o.__name__, o.attr, o.__mro__[1:], {k: test(v) for k, v in sorted(vars(o).items()) if isinstance(v, (type, types.FunctionType))}
    return getattr(o, '__name__', None), drive(o), drive(o, 1, 2), o.__code__.co_varnames
def run(sc):
    global count
    count += 1
    mode = 'history' if sc.get('history') else 'file'
    d = tempfile.mkdtemp(prefix='vt_src'); name = 'vt_srcfile%d' % count; path = os.path.join(d, name + '.py')
    saved, olds = dict(sys.modules), sys.modules['__main__']
    V.seen.clear(); V.boom[0] = None
    try:
        texts = [render(sc, l) + '\n' for l in sc['lines']]
        if mode == 'history': return history(sc, texts)
        full = [HEAD] + texts + (MAKERS.splitlines(True) + [made_line(m['m']) + '\n' for m in sc['made']] if sc['made'] else [])
        with open(path, 'w') as f: f.write(''.join(full))
        mod = types.ModuleType(name); mod.__file__ = path; sys.modules[name] = mod
        exec(compile(''.join(full), path, 'exec'), mod.__dict__)
        return judge(sc, mod, full)
    finally:
        linecache.checkcache(); linecache.cache.pop(path, None); inspect.modulesbyfile.clear()
        for k in set(sys.modules) - set(saved): del sys.modules[k]
        sys.modules['__main__'] = olds
        shutil.rmtree(d)
def collect(sc):
    """call the functions, for the definitions inside of them"""
    for _ in range(4):
        for i, o in list(V.seen.items()):
            if isinstance(o, types.FunctionType) and i <= len(sc['defs']): drive(o)
def strip(lines): return [l for l in lines if l.strip() and not l.strip().startswith('#')]
def span(got, e, full, lo=None):
    """lines got are the definition's, with at most the comments that follow"""
    a = e['first']; least, most = full[a:e['last'] + 1], full[a:e['most'] + 1]
    return got[:len(least)] == least and got == most[:len(got)]
def sig(f, *a, **k):
    try: return f(*a, **k)
    except Exception as x: return '%s: %s' % (type(x).__name__, x)
def fresh(mod): return {k: v for k, v in vars(mod).items() if k in ('deco', 'decoarg', '_reg', '_r')} | {k: v for k, v in vars(V).items() if k[0] != '_'} | {'__name__': 'fresh'}
def ways(o, e):
    yield '', o
    if isinstance(o, types.FunctionType):
        yield 'code of ', o.__code__
        yield 'bound method of ', types.MethodType(o, 5)
        drive(o); yield 'frame of ', V.frames.pop('last')
        V.boom[0] = 'x'
        try: drive(o)
        except ValueError as x:
            t = x.__traceback__
            while t.tb_frame.f_code is not o.__code__: t = t.tb_next
            yield 'traceback of ', t
        finally: V.boom[0] = None
def judge(sc, mod, full):
    collect(sc)
    for i, e in enumerate(sc['defs'], 1):
        if i not in V.seen: return {'bad': 'harness: definition %d is not reached' % i}
        o = V.seen[i]; where = '%s %s (definition %d, line %d): ' % (e['kind'], e['qual'], i, e['first'] + 1)
        if not e['known']: continue
        r = one(sc, mod, full, i, e, o)
        if r: return {'bad': where + r}
    return closures(sc, mod) or texts_of(full, {e['name'] for e in sc['defs']} | {'x'})
def one(sc, mod, full, i, e, o):
    if o.__qualname__ != e['qual']: return 'harness: qualified name %s' % o.__qualname__
    E = sc['defs'][e['encl'] - 1]
    for what, x in ways(o, e):
        r = sig(S.findsource, x)
        if type(r) is str: return 'findsource of %sit: %s' % (what, r)
        if list(r[0]) != full: return 'findsource of %sit has other lines than the file' % what
        if r[1] != e['first']: return 'findsource of %sit says line %d: %r' % (what, r[1] + 1, r[0][r[1]])
        r = sig(S.getsourcelines, x)
        if type(r) is str: return 'getsourcelines of %sit: %s' % (what, r)
        if r[1] != e['first'] or not span(r[0], e, full): return 'source of %sit is %r' % (what, ''.join(r[0]))
        g = sig(S.getsource, x)
        if g != ''.join(r[0]): return 'getsource of %sit is %r' % (what, g)
        b = sig(S.getblocks, x, locate=True)
        if b != ([r[0]], [r[1]]): return 'getblocks of %sit is %r' % (what, b)
        r = sig(S.getsourcelines, x, enclosing=True)
        if type(r) is str: return 'enclosing source of %sit: %s' % (what, r)
        if r[1] != E['first'] or not span(r[0], E, full): return 'enclosing source of %sit (line %d) is %r' % (what, r[1] + 1, ''.join(r[0]))
        g = sig(S.getsource, x, enclosing=True, lstrip=True)
        if strip(g.split('\n'))[0] != strip([full[E['first']]])[0].strip(): return 'enclosing source of %sit, stripped, is %r' % (what, g)
    want = test(o)
    whole = e['style'] in ('', 'plain', 'tight', 'paren', 'typed', 'chain', 'split', 'note')
    # executed: as it is (the block may be indented) and stripped
    for how, kw in (('', {}), ('lstrip ', {'lstrip': True}), ('alias ', {'alias': 'vt_alias'}), ('own alias ', {'alias': e['name']}), ('part of its name ', {'alias': e['name'][:1]}), ('extended name ', {'alias': e['name'] + '_'})):
        if not whole: break
        if 'alias' in kw and e['style'] == 'typed': continue
        g = sig(S.getsource, o, **kw); ns = fresh(mod)
        if not kw and g[:1] == ' ': g = 'if 1:\n' + g
        try: exec(g, ns)
        except Exception as x: return 'executing the %ssource: %s: %s\n%s' % (how, type(x).__name__, x, g)
        n = kw.get('alias', e['name'])
        if n not in ns: return 'the %ssource does not define %s: %r' % (how, n, g)
        if isinstance(ns[n], (list, types.NoneType)): return 'the %ssource gives %r' % (how, ns[n])
        t = sig(test, ns[n])
        if t != want: return 'the %ssource gives %r, not %r\n%s' % (how, t, want, g)
    # importing
    if e['live'] and e['style'] != 'typed':
        for al in ('', 'vt_alias', e['name']):
            for how, f in (('getimport', lambda: S.getimport(o, alias=al)), ('getimport unverified', lambda: S.getimport(o, alias=al, verify=False)), ('importable', lambda: S.importable(o, alias=al)), ('importable source=False', lambda: S.importable(o, alias=al, source=False))):
                g = sig(f); ns = {}
                try: exec(g, ns)
                except Exception as x: return '%s (alias %r) gives %r: %s: %s' % (how, al, g, type(x).__name__, x)
                ns.pop('__builtins__')
                if set(ns) != {al or e['name']} or ns[al or e['name']] is not o: return '%s (alias %r) gives %r, which gives %r' % (how, al, g, ns)
    if e['live'] and whole and e['style'] != 'typed':
        n = sig(S.getname, o)
        if n != e['name']: return 'getname is %r' % (n,)
        if isinstance(o, types.FunctionType):
            for al in ('', 'vt_alias'):
                g = sig(S.importable, o, alias=al, source=True); ns = fresh(mod)
                try: exec(g, ns)
                except Exception as x: return 'executing the importable source: %s: %s\n%s' % (type(x).__name__, x, g)
                t = sig(test, ns.get(al or e['name']))
                if t != want: return 'the importable source gives %r, not %r\n%s' % (t, want, g)
def texts_of(full, names):
    """indent and outdent"""
    code = ''.join(full); base = {}; exec(code, base)
    for sp, n in ((4, 4), (1, 1), ('  ', 2), (8, 8)):
        g = S.indent(code, sp); ns = {}
        if S.indent(code, 4) != S.indent(code): return {'bad': 'indent is not by 4'}
        try: exec('if 1:\n' + g, ns)
        except Exception as x: return {'bad': 'executing the indented file (%r): %s' % (sp, x)}
        back = S.outdent(g)
        if [l.rstrip() for l in back.split('\n')] != [l.rstrip() for l in code.split('\n')]: return {'bad': 'outdent(indent(%r)): %r' % (sp, back)}
        if S.outdent(g, n - 1).split('\n')[0] != ' ' + code.split('\n')[0] if n > 1 else 0: return {'bad': 'outdent by %d' % (n - 1)}
        if S.outdent(g, all=False) != g[n:]: return {'bad': 'outdent of the first line'}
        for k, v in ns.items():
            if k not in names: continue
            if isinstance(v, (str, tuple)) and v != base[k]: return {'bad': 'the indented file gives %s = %r, not %r' % (k, v, base[k])}
            if isinstance(v, type) and v.__module__ != 'vt_srcmod' and getattr(v, 'attr', 0) != getattr(base[k], 'attr', 0): return {'bad': 'the indented file gives %s.attr = %r' % (k, v.attr)}
            if isinstance(v, types.FunctionType) and v.__module__ != 'vt_srcmod' and drive(v) != drive(base[k]): return {'bad': 'the indented file gives %s() = %r, not %r' % (k, drive(v), drive(base[k]))}
    return None
def history(sc, texts):
    import readline
    main = types.ModuleType('__main__'); sys.modules['__main__'] = main
    lines = [HEAD] + texts
    # the interpreter compiles statement by statement
    import ast
    code = ''.join(lines)
    for st in ast.parse(code).body:
        exec(compile(ast.Module([st], []), '<stdin>', 'exec'), main.__dict__)
    collect(sc)
    old = readline.get_current_history_length, readline.get_history_item
    readline.get_current_history_length = lambda: len(lines)
    readline.get_history_item = lambda i: lines[i - 1].rstrip('\n')
    try:
        for i, e in enumerate(sc['defs'], 1):
            o = V.seen[i]; where = 'history: %s %s (definition %d, line %d): ' % (e['kind'], e['qual'], i, e['first'] + 1)
            if not (e['only'] and e['up'] == 0) or e['style'] == 'listed' or (e['kind'] == 'lambda' and e['style'] == 'split'): continue
            if e['kind'] == 'lambda' and (e['twin'] or not e['live']): continue
            r = sig(S.getsourcelines, o)
            if type(r) is str and r.startswith('OSError') and e['kind'] == 'lambda' and e['style'] != 'plain': continue
            if type(r) is str: return {'bad': where + r}
            if r[1] != e['first'] or not span(r[0], e, lines): return {'bad': where + 'source (line %d) is %r' % (r[1] + 1, ''.join(r[0]))}
    finally: readline.get_current_history_length, readline.get_history_item = old
