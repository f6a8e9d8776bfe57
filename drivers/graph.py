"""C01 driver: build the heap with real objects, pickle/load it with dill, compare the loaded graph by parallel walk"""
import types, functools, weakref, sys, warnings, collections
import dill
dill.settings  # the real thing

ROLES = {'V0': '', 'L1': 'i', 'L2': 'ii', 'D1': 'v', 'D2': 'vv', 'T1': 'e', 'T2': 'ee', 'X0': '', 'X1': 'x',
         'F0': '', 'Fc': 'c', 'Fcc': 'cc', 'Fd': 'd', 'Fk': 'k', 'Fa': 'a', 'Fca': 'ca', 'Fcd': 'dc', 'Fg': 'g', 'Fgg': 'gg',
         'C0': '', 'Ca': 'A', 'Cm': 'm', 'Cb': 'b', 'Cbm': 'bm', 'Caa': 'AA', 'I0': 'C', 'Ia': 'Ca', 'Iaa': 'Caa',
         'M': 'fs', 'P0': 'f', 'P1': 'fp', 'PR': 'f', 'SM': 'f', 'CM': 'f', 'MP': 'D', 'VK': 'D', 'W': 'w',
         'LC': 'f', 'PK': 'fp', 'OD': 'v', 'DD': 'fv', 'S1': 'n', 'FS': 'h'}
HARD = set('ebCfsDwch')

CODES = {}
def fcode(nc, ng):
    if (nc, ng) not in CODES:
        ns = {}
        if nc:
            fv = ','.join('c%d' % j for j in range(nc))
            exec('def outer():\n  %s0\n  def f(a=None,b=None,*,k=None): return (%s,)\n  return f' % (''.join('c%d=' % j for j in range(nc)), fv), ns)
            CODES[nc, ng] = ns['outer']().__code__
        else:
            exec('def f(a=None,b=None,*,k=None): return (%s)' % (','.join('G%d' % j for j in range(ng)) + (',' if ng else '')), ns)
            CODES[nc, ng] = ns['f'].__code__
    return CODES[nc, ng]

def build(h, mod):
    n = len(h); obj = [None] * n; done = [False] * n
    qn = '%s' if mod == '__main__' else 'h.<locals>.%s'
    def mk(i):
        if done[i]: return obj[i]
        k, e = h[i]; r = ROLES[k]; t = k[0]
        hard = [mk(x - 1) if ro in HARD else None for ro, x in zip(r, e)]
        if k == 'V0': o = 'leaf%d' % i
        elif k == 'LC': o = functools.lru_cache(hard[0])
        elif k == 'PK' or k in ('P0', 'P1'): o = functools.partial(hard[0])
        elif k == 'PR': o = property(hard[0])
        elif k == 'OD': o = collections.OrderedDict()
        elif k == 'DD': o = collections.defaultdict(hard[0])
        elif k == 'S1': o = set()
        elif k == 'SM': o = staticmethod(hard[0])
        elif k == 'CM': o = classmethod(hard[0])
        elif k == 'M': o = types.MethodType(hard[0], hard[1])
        elif k == 'MP': o = types.MappingProxyType(hard[0])
        elif k == 'VK': o = hard[0].values()
        elif k == 'W': o = weakref.ref(hard[0])
        elif k == 'FS': o = frozenset([hard[0]])
        elif t == 'L': o = []
        elif t == 'D': o = {}
        elif t == 'T': o = tuple(hard)
        elif t == 'X': o = types.CellType()
        elif t == 'F':
            cells = [x for x, ro in zip(hard, r) if ro == 'c']
            g = {'__name__': mod, '__builtins__': __builtins__}
            o = types.FunctionType(fcode(len(cells), r.count('g')), g, 'f%d' % i, None, tuple(cells) if cells else None)
            o.__module__ = mod
            o.__qualname__ = qn % ('f%d' % i)
        elif t == 'C':
            bases = tuple(x for x, ro in zip(hard, r) if ro == 'b')
            o = type('C%d' % i, bases, {'__module__': mod, '__qualname__': qn % ('C%d' % i)})
        elif t == 'I': o = object.__new__(hard[0])
        obj[i] = o; done[i] = True
        return o
    for i in range(n): mk(i)
    for i, (k, e) in enumerate(h):
        o = obj[i]
        for j, (ro, t) in enumerate(zip(ROLES[k], e)):
            x = obj[t - 1]
            if ro == 'i': o.append(x)
            elif ro == 'n': o.add(x)
            elif ro == 'v': o['k%d' % j] = x
            elif ro == 'x': o.cell_contents = x
            elif ro == 'd': o.__defaults__ = (x,)
            elif ro == 'k': o.__kwdefaults__ = {'k': x}
            elif ro == 'a': o.__dict__['a%d' % j] = x
            elif ro == 'g': o.__globals__['G%d' % j] = x
            elif ro in 'Am': setattr(o, 'a%d' % j, x)
            elif ro == 'p': o.__setstate__((o.func, (x,), {}, {}) if k == 'P1' else (o.func, (), {'kw': x}, {}))
    return obj

class H(dict):
    def __ror__(self, a): return a
HELP = H()
DV = type({}.values())
LRU = type(functools.lru_cache(len))

def succ(o):
    """(tag, successors): everything observable about one node"""
    t = type(o)
    if t is str: return ('s', o), []
    if t is list: return ('L', len(o)), list(o)
    if t is dict or t is collections.OrderedDict: return (t.__name__, tuple(o)), list(o.values())
    if t is collections.defaultdict: return ('DD', tuple(o)), [o.default_factory] + list(o.values())
    if t is tuple: return ('T', len(o)), list(o)
    if t is set or t is frozenset: return (t.__name__, len(o)), list(o)
    if t is types.CellType:
        try: return ('X', 1), [o.cell_contents]
        except ValueError: return ('X', 0), []
    if t is types.FunctionType:
        g = {k: v for k, v in o.__globals__.items() if k[0] == 'G' and k in o.__code__.co_names}
        kd = o.__kwdefaults__ or {}
        c = o.__code__
        return (('F', o.__name__, o.__qualname__, o.__module__, c.co_code, c.co_name, c.co_varnames, c.co_freevars, len(o.__closure__ or ()),
                 len(o.__defaults__ or ()), tuple(kd), tuple(sorted(o.__dict__)), tuple(sorted(g)), o.__globals__.get('__name__'),
                 '__builtins__' in o.__globals__),
                list(o.__closure__ or ()) + list(o.__defaults__ or ()) + list(kd.values()) + [o.__dict__[k] for k in sorted(o.__dict__)]
                + [g[k] for k in sorted(g)])
    if isinstance(o, type):
        if o in (object, type): return ('B', o.__name__), []
        d = {k: v for k, v in o.__dict__.items() if k[0] == 'a'}
        rest = tuple(sorted(k for k in o.__dict__ if k[0] != 'a' and k not in ('__doc__', '__module__', '__dict__', '__weakref__', '__slotnames__')))
        return ('C', o.__name__, o.__qualname__, o.__module__, tuple(sorted(d)), rest), list(o.__bases__) + [d[k] for k in sorted(d)]
    if t is types.MethodType: return ('M',), [o.__func__, o.__self__]
    if t is functools.partial: return ('P', len(o.args), tuple(o.keywords)), [o.func] + list(o.args) + list(o.keywords.values())
    if t is LRU: return ('LC', o.cache_parameters()['maxsize']), [o.__wrapped__]
    if t is property: return ('PR', o.fset, o.fdel), [o.fget]
    if t in (staticmethod, classmethod): return (t.__name__,), [o.__func__]
    if t is types.MappingProxyType: return ('MP',), [o | HELP]
    if t is DV: return ('VV',), [o.mapping | HELP]
    if t is weakref.ref: return ('W',), [o()]
    if o is None: return ('N',), []
    return ('I', tuple(sorted(o.__dict__))), [t] + [o.__dict__[k] for k in sorted(o.__dict__)]

def strong(root):
    seen = set(); st = [root]
    keep = []
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x)); keep.append(x)
        if type(x) is weakref.ref: continue
        st.extend(succ(x)[1])
    return seen

def iso(a, b):
    live = strong(a)
    m = {}; inv = {}; st = [(a, b, 'root')]; keep = []
    while st:
        x, y, p = st.pop()
        if type(x) is weakref.ref and type(y) is weakref.ref and id(x()) not in live:
            continue
        tx, sx = succ(x); ty, sy = succ(y)
        if tx != ty: return '%s: original %s, copy %s' % (p, tx, ty)
        if tx[0] in ('s', 'N', 'B'): continue
        if id(x) in m:
            if m[id(x)] is not y: return '%s: sharing lost at %s' % (p, tx[:2])
            continue
        if id(y) in inv: return '%s: spurious sharing at %s' % (p, tx[:2])
        if x is y: return '%s: not copied, %s is the original object' % (p, tx[:2])
        m[id(x)] = y; inv[id(y)] = x; keep.append((x, y))
        if len(sx) != len(sy): return '%s: number of successors %s' % (p, tx[:2])
        st.extend((s1, s2, p + '.%d' % j) for j, (s1, s2) in enumerate(zip(sx, sy)))
    return None

def attempt(h, kw, mod, expect_ok):
    obj = build(h, mod)
    main = sys.modules['__main__']
    names = []
    if mod == '__main__':
        for o in obj:
            if isinstance(o, (type, types.FunctionType)):
                names.append(o.__name__); main.__dict__[o.__name__] = o
    before = [succ(o)[0] for o in obj]
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            err = None
            try: s = dill.dumps(obj[0], **kw)
            except Exception as e: err = 'dump: %s: %s' % (type(e).__name__, str(e)[:150])
            if err is None:
                try: c = dill.loads(s, ignore=True)
                except Exception as e: err = 'load: %s: %s' % (type(e).__name__, str(e)[:150])
            warned = any(issubclass(x.category, dill.PicklingWarning) for x in w)
    finally:
        for nme in names: main.__dict__.pop(nme, None)
    if [succ(o)[0] for o in obj] != before: return 'pickling changed the original graph'
    if err:
        return err + ' although this graph must pickle' if expect_ok else None
    d = iso(obj[0], c)
    if d:
        if warned and not expect_ok: return None
        return 'silently different: ' + d if not warned else 'different although it must pickle: ' + d
    return None

def run(sc):
    h = sc['h']
    cls = any(k[0] == 'C' and k != 'CM' for k, e in h)
    gg = any(k in ('Fg', 'Fgg') for k, e in h)
    for kw, mod in sc['runs']:
        if any(k == 'S1' for k, e in h) and kw.get('protocol', 4) < 4: continue
        # with recurse, globals of closure functions are carried too, in an unspecified order
        ok = sc['soft' if kw.get('recurse') and gg else 'ok'] and not (kw.get('byref') and cls)
        r = attempt(h, kw, mod, ok)
        if r: return {'bad': '%s [options %s, module %s]' % (r, kw, mod)}
    return None
