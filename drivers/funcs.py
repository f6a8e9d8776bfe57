"""C02 driver: build the function the specification describes, copy it with dill, compare everything observable"""
import sys, re, types, inspect, warnings, asyncio
import dill
import vt_funcmod

def source(f):
    t = f['feat']; k = f['kind']
    pos = {'none': [], 'one': ['a'], 'onedef': ['a=1'], 'twodef': ['a=1', "b='x'"], 'def1of2': ['a', 'b=2'], 'mutdef': ['a=[1, {2: 3}]'],
           'replaced': ['a=1', 'b=2'], 'emptied': ['a=1']}[t['pos']]
    if k == 'method': pos = ['self'] + pos if not any('=' in p for p in pos) or True else pos
    if t['npo']: pos = pos[:1 + (k == 'method')] + ['/'] + pos[1 + (k == 'method'):]
    kw = {'none': [], 'nodef': ['k'], 'def': ['k=3'], 'mixed': ['k', 'm=(4,)'], 'replaced': ['k=3'], 'added': ['k', 'm'], 'emptied': ['k=3']}[t['kwonly']]
    ps = list(pos)
    if t['star'] in ('args', 'both'): ps.append('*args')
    elif kw: ps.append('*')
    ps += kw
    if t['star'] in ('kwargs', 'both'): ps.append('**kwargs')
    ann = t['ann']
    lam = k in ('lambda', 'toplambda')
    names = [p.split('=')[0].strip('*') for p in ps if p not in ('*', '/')]
    if ann in ('types', 'strings') and not lam:
        q = {'types': 'int', 'strings': "'Unknown[int]'"}[ann]
        ps = [p if p in ('*', '/') or p == 'self' else (p.split('=', 1)[0] + ': ' + q + ('=' + p.split('=', 1)[1] if '=' in p else '')) for p in ps]
    ret = ' -> list' if ann in ('ret', 'types') and not lam else ''
    items = list(names) if 'self' not in names else ['type(self).__name__'] + names[1:]
    c = t['closure']
    cells = {'none': [], 'one': ['c0'], 'two': ['c0', 'c1'], 'shared': ['c0', 'c1'], 'self': [], 'unset': ['c0'], 'rebound': ['c0']}[c]
    items += ['show(%s)' % x for x in cells]
    if c == 'self': items.append('f.__name__')
    g = t['glob']
    items += {'none': [], 'const': ['GC'], 'func': ['GF(1)'], 'builtin': ['len("abc")'], 'missing': ['G_missing'], 'rebound': ['GC']}[g]
    items += {'none': [], 'const': ['3.5', '"s\\u00e9"', 'None', '-0.0'], 'bigint': [str(2 ** 70)], 'nestedconst': ['(1, (2, "x"), None)'],
              'frozenset': ['(2 in {1, 2, 3})'], 'ellipsis': ['...'], 'bytes': ['b"\\x00\\xff"', '2j']}[t['flags']]
    pre = []
    n = t['nest']
    a0 = [x for x in names if x != 'self'][:1] or ['1']
    if n == 'inner': pre.append('def inner(z=2): return (z, %s)' % a0[0]); items.append('inner()')
    if n == 'comp': items += ['[q for q in range(3)]', '{q: %s for q in "ab"}' % a0[0]]
    if n == 'lam': items.append('(lambda w: (w, %s))(5)' % a0[0])
    if n == 'cls': pre += ['class L:', '    v = 7', '    def m(self): return self.v']; items.append('L().m()')
    if n == 'deep': items.append('(lambda: (lambda: (lambda: %s)())())()' % a0[0])
    if lam: pre = []; items = [i for i in items if i not in ('inner()', 'L().m()')]
    tup = '(' + ''.join(i + ', ' for i in items) + ')'
    cellv = {'int': '10', 'list': '[1, 2]', 'func': 'CF', 'none': 'None'}[t['cellv']]
    head = ''
    ind = ''
    lines = []
    nested = k in ('nested', 'lambda', 'gen', 'coro', 'agen')
    doc = '"""code doc"""' if t['doc'] in ('code', 'codeset', 'cleared') else None
    if nested:
        lines.append('def outer():'); ind = '  '
        lines.append('  def CF(): return 99')
        lines.append('  def show(x): return x() if callable(x) else x')
        if cells: lines += ['  %s = %s' % (x, cellv) for x in cells]
        if c == 'shared': lines.append('  c1 = c0')
        # 'show' itself must not become another cell: pass through a global
        lines = [l for l in lines if 'def show' not in l and ('def CF' not in l or 'CF' in cellv)]
    sig = ', '.join(ps)
    if lam: lines.append(ind + 'f = lambda %s: %s' % (', '.join(ps), tup))
    else:
        kw_def = {'coro': 'async def', 'agen': 'async def'}.get(k, 'def')
        if k == 'method': lines.append('class Owner:'); ind = '  '
        lines.append(ind + '%s f(%s)%s:' % (kw_def, sig, ret))
        if doc: lines.append(ind + '  ' + doc)
        lines += [ind + '  ' + p for p in pre]
        if k == 'gen': lines.append(ind + '  x = yield %s' % tup); lines.append(ind + '  yield x'); lines.append(ind + '  return 5')
        elif k == 'agen': lines.append(ind + '  yield %s' % tup); lines.append(ind + '  yield 2')
        else: lines.append(ind + '  return ' + tup)
    if nested:
        if c == 'unset': lines.append('  del c0')
        if c == 'rebound': lines.append('  c0 = [c0, "rebound"]')
        lines.append('  return f')
    return '\n'.join(lines) + '\n'

COMPILED = {}
def compiled(src):
    if src not in COMPILED:
        if len(COMPILED) > 5000: COMPILED.clear()
        COMPILED[src] = compile(src, '<vt>', 'exec')
    return COMPILED[src]

def show(x): return x() if callable(x) else x
class Owner2: pass

def build(f):
    t = f['feat']
    src = source(f)
    loc = {}
    if f['place'] == 'detached':
        g = {'__name__': 'vt_nomod', '__builtins__': __builtins__}
    elif f['place'] == 'main':
        g = sys.modules['__main__'].__dict__
    else: g = vt_funcmod.__dict__
    saved = dict(g)
    g['show'] = show
    if f['place'] != 'nestedmod':
        g['GC'] = 42
        exec('def GF(x): return ("GF", x)', g)
    exec(compiled(src), g, loc)
    k = f['kind']
    if k in ('nested', 'lambda', 'gen', 'coro', 'agen'): fn = loc['outer']()
    elif k == 'method': fn = loc['Owner'].__dict__['f']
    else: fn = loc['f']
    if t['pos'] == 'replaced': fn.__defaults__ = ('r1', ['r2'])
    if t['pos'] == 'emptied': fn.__defaults__ = None
    if t['kwonly'] == 'replaced': fn.__kwdefaults__ = {'k': ['K']}
    if t['kwonly'] == 'added': fn.__kwdefaults__ = {'m': 'M'}
    if t['kwonly'] == 'emptied': fn.__kwdefaults__ = None
    if t['ann'] == 'replaced': fn.__annotations__ = {'zzz': float, 'return': 'x'}
    if t['ann'] == 'emptied': fn.__annotations__ = {}
    if t['doc'] in ('set', 'codeset'): fn.__doc__ = 'set doc'
    if t['doc'] == 'unicode': fn.__doc__ = 'd\u00e9\u4e2d'
    if t['doc'] == 'empty': fn.__doc__ = ''
    if t['doc'] == 'cleared': fn.__doc__ = None
    a = t['attrs']
    if a == 'one': fn.x = 1
    if a == 'two': fn.x = (1, 2); fn.y = 'why'
    if a == 'nonident': fn.__dict__['not an identifier'] = 1
    if a == 'self': fn.me = fn
    if a == 'wrapped': fn.__wrapped__ = show
    if a == 'mutable': fn.x = {'a': [1]}
    r = t['rename']
    if r in ('name', 'both', 'same'): fn.__name__ = 'renamed'
    if r in ('qualname', 'both'): fn.__qualname__ = 'Some.qual.<locals>.name'
    if r == 'same': fn.__qualname__ = 'renamed'
    if r == 'module': fn.__module__ = 'other_mod'
    if r == 'modnone': fn.__module__ = None
    if t['glob'] == 'rebound': g['GC'] = 43
    return fn, g, saved

def const(c):
    if isinstance(c, types.CodeType): return code(c)
    if isinstance(c, tuple): return [const(x) for x in c]
    if isinstance(c, frozenset): return ['frozenset'] + sorted(map(repr, c))
    return [type(c).__name__, repr(c)]
def code(c):
    return {a: (const(getattr(c, a)) if a == 'co_consts' else repr(getattr(c, a))) for a in
            ('co_argcount', 'co_posonlyargcount', 'co_kwonlyargcount', 'co_nlocals', 'co_stacksize', 'co_flags', 'co_code', 'co_consts', 'co_names',
             'co_varnames', 'co_filename', 'co_name', 'co_qualname', 'co_firstlineno', 'co_linetable', 'co_exceptiontable', 'co_freevars', 'co_cellvars')
            if hasattr(c, a)}

def val(x, fn, seen=()):
    if x is fn: return 'SELF'
    if isinstance(x, types.FunctionType): return ['function', x.__qualname__, x.__module__, val(x(), fn) if x.__code__.co_argcount == 0 else None]
    if isinstance(x, dict): return ['dict', [[val(k, fn), val(v, fn)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)): return [type(x).__name__, [val(v, fn) for v in x]]
    return [type(x).__name__, ADDR.sub('', repr(x))]

def cellval(c, fn):
    try: return val(c.cell_contents, fn)
    except ValueError: return 'EMPTY'

ADDR = re.compile(r' at 0x[0-9a-f]+')
def call(fn, *args, **kw): return ADDR.sub('', call_(fn, *args, **kw))
def call_(fn, *args, **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = fn(*args, **kw)
            if inspect.isgenerator(r):
                out = [next(r), r.send('s')]
                try: next(r)
                except StopIteration as e: out.append(e.value)
                return repr(['gen', out])
            if inspect.iscoroutine(r):
                try: r.send(None)
                except StopIteration as e: return repr(['coro', e.value])
            if inspect.isasyncgen(r):
                async def go(): return [x async for x in r]
                try: go().send(None)
                except StopIteration as e: return repr(['agen', e.value])
            return repr(r)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)

def observe(fn):
    o = dict(type=type(fn).__name__, name=fn.__name__, qualname=fn.__qualname__, module=repr(fn.__module__), doc=repr(fn.__doc__),
             defaults=val(fn.__defaults__, fn), kwdefaults=val(fn.__kwdefaults__, fn) if fn.__kwdefaults__ else 'none',
             annotations=val(fn.__annotations__, fn), attrs=val(fn.__dict__, fn), closure=[cellval(c, fn) for c in fn.__closure__ or ()],
             hasclosure=fn.__closure__ is not None, code=code(fn.__code__), signature=str(inspect.signature(fn, follow_wrapped=False)))
    if fn.__closure__ and len(fn.__closure__) == 2: o['samecell'] = fn.__closure__[0] is fn.__closure__[1]
    o['calls'] = [call(fn), call(fn, 1), call(fn, 1, 2), call(fn, 1, k=5), call(fn, 1, 2, 3, k=5, m=6), call(fn, a=1), call(fn, 'p', b=2, k=1, zz=3)]
    return o

def observe_bytes(data):
    sys.modules['__main__'].show = show
    return observe(dill.loads(data))

fresh = None
def run(sc):
    global fresh
    f = sc['f']
    fn, g, saved = build(f)
    try:
        try: want = observe(fn)
        except RecursionError: raise
        e = sc['obs']
        doc = None if e['doc'] == 'None' else e['doc'].encode().decode('unicode_escape')
        sane = [fn.__name__ == e['name'], fn.__doc__ == doc, len(fn.__defaults__ or ()) == e['ndef'], len(fn.__kwdefaults__ or ()) == e['nkw'],
                str(fn.__module__) == e['module'], f['feat']['closure'] in ('shared',) or len(fn.__closure__ or ()) == e['ncell'] + (0)]
        if not all(sane): raise RuntimeError('driver and specification disagree on the original %s %s' % (sane, source(f)))
        for opt in sc['opts']:
            kw = {k: v for k, v in opt['opt'].items()}
            s = dill.dumps(fn, **kw)
            if opt['where'] == 'same':
                c = dill.loads(s)
                if c is fn: return {'bad': 'copy is the original [options %s]' % opt}
                got = observe(c)
            else:
                if fresh is None:
                    import freshproc
                    fresh = freshproc.Fresh('funcs')
                got = fresh.call('observe_bytes', s)
                if 'error' in got: return {'bad': 'loading in a fresh process: %s [options %s]' % (got['error'], opt)}
            if got != want:
                d = {k: (want.get(k), got.get(k)) for k in want if want.get(k) != got.get(k)}
                return {'bad': 'the copy differs (original, copy): %s [options %s]' % (str(d)[:600], opt), 'src': source(f)}
            if observe(fn) != want: return {'bad': 'pickling changed the original [options %s]' % opt}
    finally:
        g.clear(); g.update(saved)
    return None
