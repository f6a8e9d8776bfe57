"""C06 driver: classes of the main module around dump and load"""
import sys, io, types, warnings
import dill

SRC = {
 'plain': 'class {n}:\n  def who(self): return "{t}"\n',
 'sub': 'class {n}:\n  "documented"\n  extra = [1]\n  def who(self): return "{t}"\n',
 'frozen': 'class {n}:\n  def who(self): return "{t}"\n  def __setattr__(self, k, v): raise AttributeError("frozen")\n',
 'slots': 'class {n}:\n  __slots__ = ("a", "b")\n  def who(self): return "{t}"\n',
 'int': 'class {n}(int):\n  def who(self): return "{t}"\n',
 'dict': 'class {n}(dict):\n  def who(self): return "{t}"\n',
 'meta': 'class {n}(type):\n  def who(self): return "{t}"\n'}

def put(x, k, v):
    try: object.__setattr__(x, k, v)
    except TypeError: type.__setattr__(x, k, v)

def instance(K, layout, tag):
    if layout == 'meta': x = K('Zed', (), {'__module__': 'vt_nowhere'})
    elif layout == 'int': x = K(7)
    elif layout == 'dict': x = K(k=7)
    else: x = K()
    put(x, 'a', ['a', tag])
    return x

def state(x, layout):
    s = [x.a, x.who() if not isinstance(x, type) else type(x).who(x)]
    if layout == 'int': s.append(int(x))
    if layout == 'dict': s.append(dict(x))
    return s

def shot(K): return {k: v for k, v in K.__dict__.items() if k not in ('__dict__', '__weakref__', '__slotnames__')}

def run(sc):
    main = sys.modules['__main__']
    saved = dict(main.__dict__)
    versions, layouts, mods = [], [], []
    old = dill.settings['ignore']
    try:
        other = types.ModuleType('vt_other_main'); sys.modules['vt_other_main'] = other
        k = 0
        for i, a in enumerate(sc['hist']):
            op = a[0]
            if op == 'define':
                ns = (main if a[3] == 'main' else other).__dict__
                exec(SRC[a[2]].format(n=a[1], t='v%d' % (len(versions) + 1)), ns)
                versions.append(ns[a[1]]); layouts.append(a[2]); mods.append(a[3])
                if a[3] == 'other': ns.pop(a[1])
            elif op == 'bind':
                if a[2] == 0: main.__dict__.pop(a[1], None)
                else: main.__dict__[a[1]] = ('not a class',) if a[2] == 100 else versions[a[2] - 1]
            elif op == 'setting': dill.settings['ignore'] = a[1]
            elif op == 'dump':
                shape, v, byref = a[1:]
                K, lay, mod = versions[v - 1], layouts[v - 1], mods[v - 1]
                x = instance(K, lay, 1)
                before = state(x, lay)
                if shape == 'attr':
                    y = instance(K, lay, 2)
                    put(x, 'other', y); put(x, 'cls', K); put(x, 'me', x)
                obj = {'inst': x, 'attr': x, 'list': [x, x, K], 'tuple': (x,), 'class': K, 'dict': {'x': x}}[shape]
                proto = (0, 1, 2, 3, 4, 5)[len(str(sc)) % 6]
                if lay == 'slots': proto = max(2, proto)
                data = dill.dumps(obj, protocol=proto, byref=byref)
            else:
                ig, how, want, b = a[1:]
                kw = {'arg_true': {'ignore': True}, 'arg_false': {'ignore': False}, 'default': {}}[ig]
                if (k := k + 1) % 2 and ig == 'default': kw = {'ignore': None}
                shots = [(V, V.__name__, V.__bases__, shot(V)) for V in versions]
                ns = dict(main.__dict__)
                sset = dict(dill.settings)
                try:
                    if how == 'loads': r = dill.loads(data, **kw)
                    elif how == 'load': r = dill.load(io.BytesIO(data), **kw)
                    else: r = dill.Unpickler(io.BytesIO(data), **kw).load()
                    err = None
                except Exception as e: err = e
                if dict(dill.settings) != sset: return 'load changed the settings'
                if main.__dict__ != ns or list(main.__dict__) != list(ns): return 'load changed the main module'
                for V, n, bs, d in shots:
                    if V.__name__ != n or V.__bases__ != bs or shot(V) != d: return 'load modified the existing class %r' % V
                where = ' (step %d of %s)' % (i, sc['hist'])
                if want == 'error':
                    if err is None: return 'load succeeded without the class it refers to' + where
                    continue
                if want == 'any': continue
                if err is not None: return 'load failed: %s: %s%s' % (type(err).__name__, err, where)
                live = versions[b - 1] if want == 'live' else None
                y = {'inst': lambda: r, 'attr': lambda: r, 'list': lambda: r[0], 'tuple': lambda: r[0], 'class': lambda: r, 'dict': lambda: r['x']}[shape]()
                got = type(y) if shape != 'class' else y
                if live is not None:
                    if got is not live: return 'the loaded object is an instance of %r, expected the class bound to the name now, %r%s' % (got, live, where)
                else:
                    if got in versions: return 'the loaded object was attached to %r, expected the reconstructed class%s' % (got, where)
                    if got.__name__ != K.__name__ or got.__module__ != K.__module__: return 'wrong class %r%s' % (got, where)
                if shape == 'class': continue
                if shape == 'list' and (r[1] is not r[0] or r[2] is not type(r[0])): return 'identities lost in the container' + where
                tag = 'v%d' % (b if live is not None else v)
                if state(y, lay) != [before[0], tag] + before[2:]: return 'state of the loaded object: %r, expected %r%s' % (state(y, lay), [before[0], tag] + before[2:], where)
                if shape == 'attr':
                    z = y.other
                    if y.me is not y: return 'self-reference lost' + where
                    if sorted(y.__dict__) != ['a', 'cls', 'me', 'other']: return 'attributes: %s%s' % (sorted(y.__dict__), where)
                    if not byref:
                        if type(z) in versions: return 'an object inside was attached to the class of the main module' + where
                        if y.cls is not type(z): return 'the class inside is not the one of the instance inside' + where
                    if z.a != ['a', 2]: return 'state of the inner object changed' + where
    finally:
        dill.settings['ignore'] = old
        main.__dict__.clear(); main.__dict__.update(saved)
        sys.modules.pop('vt_other_main', None)
    return None
