"""C04 driver: replay the namespace history, dump, replay the rest, load, and see what came back"""
import sys, types, functools, warnings, importlib
import dill

class IM:
    """what the namespaces may be bound to"""
SENT = 12345

class MetaEq(type):
    def __eq__(cls, other): return True
    def __hash__(cls): return 1
def subject(kind, tag, mod, qual, like=None, look='plain'):
    """the subject, or an object that may be mistaken for it: of the same name, code, equal, wrapping or derived"""
    name = 'F' if kind == 'func' else 'C'
    if kind == 'func':
        g = sys.modules[mod].__dict__ if mod in sys.modules else {'__name__': mod}
        exec('def %s(t=%r): return t' % (name, tag), g, (l := {}))
        o = l[name]
        if look in ('samecode', 'equal'):
            o = types.FunctionType(like.__code__, g, name, (tag,))
        elif look == 'wrapped': o = functools.wraps(like)(o)
        elif look == 'partial':
            o = functools.partial(like, tag); o.__name__ = name
    elif look == 'derived': o = type(name, (like,), {'tag': tag, '__module__': mod})
    elif look == 'equal': o = MetaEq(name, (), {'tag': tag, '__module__': mod})
    elif look == 'samecode': o = type(name, like.__bases__, dict({k: v for k, v in like.__dict__.items() if k not in ('__dict__', '__weakref__')}, tag=tag))
    else: o = type(name, (), {'tag': tag, '__module__': mod})
    o.__module__ = mod
    o.__qualname__ = qual
    return o

def run(sc):
    kind, place, path = sc['kind'], sc['place'], sc['path']
    n = 'F' if kind == 'func' else 'C'
    mod = {'main': '__main__', 'module': 'vt_runtime_loc', 'file': 'vt_locfile', 'dotted': 'vt_pk.vt_sub'}[place]
    main = sys.modules['__main__']
    saved = dict(main.__dict__)
    qual = {'top': n, 'nested': 'Outer%s.%s' % (n, n), 'locals': 'fn.<locals>.' + n}[path]
    mods = {}
    try:
        if place == 'file':
            sys.modules.pop(mod, None)
            mods['orig'] = importlib.import_module(mod)
        elif place == 'main': mods['orig'] = main
        else:
            if place == 'dotted':
                pk = types.ModuleType('vt_pk'); pk.__path__ = []; sys.modules['vt_pk'] = pk
            mods['orig'] = types.ModuleType(mod); sys.modules[mod] = mods['orig']
            if place == 'dotted': pk.vt_sub = mods['orig']
        def setup(m, o):
            if path == 'top': setattr(m, n, o)
            elif path == 'nested':
                K = type('Outer' + n, (), {'__module__': mod}); setattr(K, n, o); setattr(m, 'Outer' + n, K)
            else:
                m.__dict__.pop(n, None)
        x = subject(kind, 'subject', mod, qual)
        imp = subject(kind, 'impostor', mod, qual, x, sc.get('look', 'plain'))
        setup(mods['orig'], x)
        outer0 = getattr(mods['orig'], 'Outer' + n, None)
        def register(r):
            if r == 'none':
                sys.modules.pop(mod, None)
                if place == 'dotted': sys.modules['vt_pk'].__dict__.pop('vt_sub', None)
            else:
                if r == 'repl' and 'repl' not in mods:
                    mods['repl'] = types.ModuleType(mod); setup(mods['repl'], imp)
                sys.modules[mod] = mods[r]
                if place == 'dotted': sys.modules['vt_pk'].vt_sub = mods[r]
        def lookup(q):
            o = sys.modules[mod]
            for part in q.split('.'): o = getattr(o, part)
            return o
        def do(a):
            if a[0] == 'bind':
                m = mods[a[1]]; v = {1: x, 2: imp, 3: SENT, 0: None}[a[3]]
                holder, name = (m, 'E') if a[2] == 'E' else ((m, n) if path == 'top' else (getattr(m, 'Outer' + n), n))
                if a[3] == 0: delattr(holder, name)
                else: setattr(holder, name, v)
            elif a[0] == 'reg': register(a[1])
            elif a[0] == 'outer': delattr(mods['orig'], 'Outer' + n)
            elif a[0] == 'module': x.__module__ = {'none': None, 'main': '__main__', 'missing': sc.get('miss', 'vt_no_such_module')}[a[1]]
            elif a[0] == 'qualname': x.__qualname__ = {'elsewhere': 'E', 'locals': 'fn.<locals>.' + n}[a[1]]
        hist = sc['hist']; k = len(hist) - sc['post']
        for a in hist[:k]: do(a)
        state = dict(module=x.__module__, qualname=x.__qualname__, name=x.__name__)
        obj = x() if kind == 'inst' else x
        if kind == 'inst': obj.v = 1
        for proto in sc.get('protos', (4,)):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    s = dill.dumps(obj, byref=sc['byref'], protocol=proto)
                err = None
            except Exception as e: err = e
            if sc['stored'] == 'error':
                if err is None: return 'dump succeeded although the class cannot be found by name (byref)'
                if not isinstance(err, dill.PicklingError) and not (sc.get('miss') == '' and type(err) is ValueError):   # (the standard pickler's import of the module named '')
                    return 'dump failed with %r instead of a pickling error' % err
            elif err is not None: return 'dump failed: %s: %s (expected to be stored by %s)' % (type(err).__name__, err, sc['stored'])
        if sc['stored'] == 'error': return None
        if dict(module=x.__module__, qualname=x.__qualname__, name=x.__name__) != state: return 'pickling changed the subject'
        for a in hist[k:]: do(a)
        try: c = dill.loads(s, ignore=True); err = None
        except Exception as e: err = e
        top = c if err is None else None
        if err is None and kind == 'inst':
            if getattr(c, 'v', None) != 1: return 'the state of the instance was lost'
            top = type(c)
        at = sc['at']
        if sc['res'] == 'error' or (kind == 'inst' and at == 3):
            if err is None: return 'load returned %r although what was stored cannot be found' % (top,)
            return None
        if err is not None: return 'load failed: %s: %s (expected %s)' % (type(err).__name__, err, sc['res'])
        if sc['res'] == 'copy':
            if top is x: return 'stored by reference: the load returned the original object'
            if top is imp or top is SENT: return 'the load returned another object of the same name'
            if place == 'file' and mod in sys.modules:
                try:
                    if top is lookup(qual): return 'the load returned the re-imported object instead of a copy'
                except AttributeError: pass
            tag = top() if kind == 'func' else top.tag
            if tag != 'subject': return 'the copy is not of the subject: %r' % (tag,)
            if top.__name__ != x.__name__ or top.__qualname__ != x.__qualname__ or top.__module__ != x.__module__:
                return 'the copy is named %s.%s' % (top.__module__, top.__qualname__)
            if kind == 'func': top.mark = 1
            else: top.mark = 1
            if hasattr(x, 'mark'): return 'the copy is not independent'
        else:
            want = {1: x, 2: imp, 3: SENT}.get(at)
            if at == 4: want = lookup(x.__qualname__)
            if top is not want: return 'load of a reference returned %r, expected the live object %r' % (top, want)
    finally:
        main.__dict__.clear(); main.__dict__.update(saved)
        for m in (mod, 'vt_pk'):
            if m != '__main__': sys.modules.pop(m, None)
    return None
