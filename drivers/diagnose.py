"""C20: build the tree, ask for the diagnosis, compare with the report of the model."""
import warnings, sys, types, collections
import dill
from dill import detect
import vt_diagmod as D
RAISE = [AttributeError, ValueError, KeyError, TypeError, RuntimeError, OSError]
NAMES = ['a%02d', '_a%02d', 'x%02d', '__a%02d']
def build(sc):
    n = len(sc['par']); nodes = {}; name = lambda i: 'a%02d' % i
    for i in range(n, 0, -1):
        kids = [j for j in range(2, n + 1) if sc['par'][j-1] == i]
        nodes[i] = D.Node(i, sc['kind'][i-1], [nodes[j] for j in kids if sc['via'][j-1] == 'held'],
            {name(j): nodes[j] for j in reversed(kids) if sc['via'][j-1] != 'raises'}, {name(j): RAISE[j % len(RAISE)] for j in kids if sc['via'][j-1] == 'raises'})
    return nodes
def show(r, nodes):
    """a report as the model writes it"""
    if r is None: return None
    if isinstance(r, dict): return {k: show(v, nodes) for k, v in r.items()}
    if isinstance(r, list): return [show(x, nodes) for x in r]
    if isinstance(r, type): return ('type', r)
    if isinstance(r, BaseException): return ('error', type(r).__name__)
    for i, x in nodes.items():
        if x is r: return ('node', i)
    return ('something else', repr(r))
def want(r, sc):
    t = r['t']
    if t == 'none': return None
    if t == 'node': return ('node', int(r['x']))
    if t == 'type': return ('type', D.Node)
    if t == 'error': return ('error', r['x'])
    if t == 'raise': return ('raise', r['x'])
    if t == 'dict': return {'a%02d' % e['name']: ('error', RAISE[e['name'] % len(RAISE)].__name__) if e['rep']['x'] == 'unreadable' else want(e['rep'], sc) for e in r['d']}
    if t == 'list': return [('node', e['name']) for e in r['d']]
def run(sc):
    if 'obj' in sc: return natural(sc)
    c = sc['call']; nodes = build(sc); fn = getattr(detect, c['fn']); x = nodes[1]
    items = list(nodes[i] for i in sorted(nodes))
    if c['fn'] == 'baditems':
        x = {'object': lambda: nodes[1], 'list': lambda: items, 'tuple': lambda: tuple(items), 'dict': lambda: {i: v for i, v in enumerate(items)}, 'gen': lambda: (i for i in items),
             'odict': lambda: collections.OrderedDict((v, k) for k, v in zip(items, map(str, range(99)))) if 0 else collections.OrderedDict(enumerate(items)), 'deque': lambda: collections.deque(items), 'iter': lambda: iter(items), 'values': lambda: dict(enumerate(items)).values(),
             'twice': lambda: [v for v in items for _ in (0, 1)], 'mixed': lambda: [None, 0] + items + [0, '', None], 'arrays': lambda: arrays(items)}[c['shape']]()
    kw = {k: True for k in ('exact', 'safe') if c[k]}
    if c['fn'] != 'baditems' and c['depth']: kw['depth'] = c['depth']
    before = {i: (dict(v.__dict__)) for i, v in nodes.items()}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: got = show(fn(x, **kw), nodes)
        except Exception as e: got = ('raise', type(e).__name__)
        w = want(c['rep'], sc)
        if got != w: return {'bad': '%s(%s): %s, expected %s' % (c['fn'], kw, got, w)}
        if isinstance(got, dict) and list(got) != sorted(got) : return {'bad': 'attributes are not in order: %s' % list(got)}
        if {i: dict(v.__dict__) for i, v in nodes.items()} != before and not any(b != {} for b in before.values()): return {'bad': 'the object is changed'}
        # positional use says the same
        if c['fn'] != 'baditems':
            try: g2 = show(fn(x, c['depth'], c['exact'], c['safe']), nodes)
            except Exception as e: g2 = ('raise', type(e).__name__)
            if g2 != got: return {'bad': '%s by position: %s, by name %s' % (c['fn'], g2, got)}
def arrays(items):
    try: import numpy
    except ImportError: return items
    return [numpy.array([1, 2])] + items + [numpy.array([1, 2]), numpy.array([3, 4])]
# --- objects as they come: the report against copying each attribute on its own ----------------
def fails(v, exact, safe):
    if safe: trap = Exception
    else: trap = (TypeError, AssertionError, NotImplementedError, dill.PicklingError, dill.UnpicklingError)
    try: w = dill.loads(dill.dumps(v))
    except trap as e: return True, e
    if exact: 
        r = w == v
        return not (r.all() if hasattr(r, 'all') else r), None
    return type(w) is not type(v) and repr(type(w)) != repr(type(v)) and not w == v, None
def objects():
    import streams
    class P:
        def __init__(self): self.a = 1; self.g = (i for i in ())
        @property
        def bad(self): raise OSError('no')
    class S:
        __slots__ = 'a', 'b', 'c'
        def __init__(self): self.a = 1; self.b = iter([1])
    def f(x, y=(i for i in ())): return x
    f.attr = sys._getframe()
    gen = f.__defaults__[0]
    r = {'prop': P(), 'slots': S(), 'slotclass': S, 'func': f, 'gen': gen, 'frame': sys._getframe(), 'module': types.ModuleType('vt_m'), 'ns': types.SimpleNamespace(g=gen, a=1), 'int': 3, 'type': type, 'abc': collections.abc.Sized, 'exc': ValueError(gen, 1), 'lambda': lambda: gen, 'method': P().__init__, 'thread': __import__('threading').Thread(), 'partial': __import__('functools').partial(f, gen), 'file': open('/dev/null')}
    try:
        import numpy; r['array'] = numpy.array([1, 2])
    except ImportError: pass
    return r
def natural(sc):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = objects()[sc['obj']]; e, s = sc['exact'], sc['safe']
        unread, bad, let = {}, {}, None
        for a in dir(o):
            try: v = getattr(o, a)
            except Exception as x: unread[a] = x; continue
            try: b, x = fails(v, e, s)
            except Exception as x: let = type(x); break
            if b: bad[a] = v, x
        out = {}
        for fn in ('errors', 'badobjects', 'badtypes'):
            try: got = getattr(detect, fn)(o, 1, e, s)
            except Exception as x:
                if type(x) is not let: return {'bad': '%s(%s) raises %s' % (fn, sc['obj'], type(x).__name__ + ': ' + str(x))}
                continue
            if let: return {'bad': '%s(%s) does not raise %s' % (fn, sc['obj'], let)}
            w = set(bad) | (set(unread) if fn == 'errors' else set())
            if set(got) != w: return {'bad': '%s(%s, exact=%s, safe=%s): unexpected %s, missing %s' % (fn, sc['obj'], e, s, sorted(set(got) - w), sorted(w - set(got)))}
            for a, (v, x) in bad.items():
                g = got[a]
                if fn == 'badtypes' and g is not type(v): return {'bad': 'badtypes(%s): %s has %s' % (sc['obj'], a, g)}
                if fn == 'badobjects' and type(g) is not type(v): return {'bad': 'badobjects(%s): %s is %s' % (sc['obj'], a, type(g))}
                if fn == 'errors' and not (isinstance(g, BaseException) if x is None else type(g) is type(x)): return {'bad': 'errors(%s): %s is %r, expected %r' % (sc['obj'], a, g, x)}
