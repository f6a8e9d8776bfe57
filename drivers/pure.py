"""C24 driver: objects are pickled, loaded and changed; nothing else changes and copies keep apart"""
import array, collections, dataclasses, enum, functools, io, json, os, sys, types, warnings, weakref, zlib, abc, typing, logging
import dill, __main__
import vt_puremod
FORK = True
warnings.simplefilter('ignore')
def ns(code, **k):
    d = dict(k, __name__='vt_nowhere'); exec(code, d); return d
class Inst:
    def __init__(self, v=0): self.v = v
    def m(self): return self.v
@dataclasses.dataclass
class DC:
    v: int = 0
    w: list = dataclasses.field(default_factory=list)
NT = collections.namedtuple('NT', 'a b')
class Slots:
    __slots__ = ('v', '__weakref__')
class State:
    def __init__(self): self.real = [0]
    def __getstate__(self): return {'real': self.real}
    def __setstate__(self, s): self.real = s['real']
class Red:
    def __init__(self, v): self.v = v
    def __reduce__(self): return (Red, (self.v,))
class ListSub(list): pass
class DictSub(dict): pass
LOCAL = 'class C:\n    v = 0\n    inner = [0]\n    def __init__(self): self.own = 1\n    def meth(self): return self.v\n    @property\n    def p(self): return self.v\n    @classmethod\n    def c(cls): return cls.v\n    @staticmethod\n    def s(): return C.v\n'
def setv(o, v): o.v = v
def item(o, v): o[0] = v
def slot(make, get, put): return make, get, put
def closure(v):
    def f(): return v
    return f
def deep():
    x = [0]
    def a():
        def b(): return x
        return b
    return a
def cellset(f, v): f.__closure__[0].cell_contents = v
def method_cls(f): return f.__self__ if isinstance(f.__self__, type) else type(f.__self__)
# dictionaries that name a module, which they are not the namespace of
NAMED = ['vt_locfile', 'json', '__main__', '', '.x', 'os.path', 5, None, 'no.such', '__builtin__', 'builtins', ['x']]
VAL = dict(
    list=slot(lambda: [0], lambda o: o[0], item), dict=slot(lambda: {'v': 0, 'w': []}, lambda o: o['v'], lambda o, v: o.__setitem__('v', v)),
    nested=slot(lambda: ({'a': [(1, [0])]},), lambda o: o[0]['a'][0][1][0], lambda o, v: item(o[0]['a'][0][1], v)),
    barr=slot(lambda: bytearray(1), lambda o: o[0], item), array=slot(lambda: array.array('i', [0]), lambda o: o[0], item), deque=slot(lambda: collections.deque([0]), lambda o: o[0], item),
    set=slot(lambda: {0}, lambda o: min(o), lambda o, v: (o.clear(), o.add(v))), odict=slot(lambda: collections.OrderedDict(v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)),
    ddict=slot(lambda: collections.defaultdict(list, v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)), counter=slot(lambda: collections.Counter(v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)),
    chainmap=slot(lambda: collections.ChainMap({'v': 0}, {}), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)), simplens=slot(lambda: types.SimpleNamespace(v=0), lambda o: o.v, setv),
    inst=slot(Inst, lambda o: o.v, setv), dci=slot(DC, lambda o: o.v, setv), dcl=slot(lambda: DC(1, [0]), lambda o: o.w[0], lambda o, v: item(o.w, v)), nt=slot(lambda: NT(1, [0]), lambda o: o.b[0], lambda o, v: item(o.b, v)),
    state=slot(State, lambda o: o.real[0], lambda o, v: item(o.real, v)), red=slot(lambda: Red(0), lambda o: o.v, setv), listsub=slot(lambda: ListSub([0]), lambda o: o[0], item), dictsub=slot(lambda: DictSub(v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)),
    listattr=slot(lambda: (lambda l: (setv(l, 0), l)[1])(ListSub()), lambda o: o.v, setv), exc=slot(lambda: ValueError([0]), lambda o: o.args[0][0], lambda o, v: item(o.args[0], v)), excattr=slot(lambda: (lambda e: (setv(e, 0), e)[1])(KeyError('k')), lambda o: o.v, setv),
    slots=slot(lambda: (lambda s: (setv(s, 0), s)[1])(Slots()), lambda o: o.v, setv), bmeth=slot(lambda: Inst().m, lambda o: o(), lambda o, v: setv(o.__self__, v)), partial=slot(lambda: functools.partial(len, [0]), lambda o: o.args[0][0], lambda o, v: item(o.args[0], v)),
    partkw=slot(lambda: functools.partial(dict, v=0), lambda o: o.keywords['v'], lambda o, v: o.keywords.__setitem__('v', v)), builtinm=slot(lambda: [0].count, lambda o: o.__self__[0], lambda o, v: item(o.__self__, v)),
    view=slot(lambda: {'v': [0]}.values(), lambda o: list(o)[0][0], lambda o, v: item(list(o)[0], v)), proxy=slot(lambda: types.MappingProxyType({'v': [0]}), lambda o: o['v'][0], lambda o, v: item(o['v'], v)),
    **{'named%d' % i: slot((lambda n: lambda: {'__name__': n, 'v': 0, '__doc__': None})(n), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)) for i, n in enumerate(NAMED)}, namedsub=slot(lambda: DictSub(__name__='json', v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)), nameddef=slot(lambda: collections.defaultdict(int, __name__='vt_locfile', v=0), lambda o: o['v'], lambda o, v: o.__setitem__('v', v)),
    slice=slot(lambda: slice([0]), lambda o: o.stop[0], lambda o, v: item(o.stop, v)), sio=slot(lambda: io.StringIO('0'), lambda o: int(o.getvalue()), lambda o, v: (o.seek(0), o.truncate(), o.write(str(v)))), bio=slot(lambda: io.BytesIO(b'\0'), lambda o: o.getvalue()[0], lambda o, v: (o.seek(0), o.write(bytes([v])))),
    closure=slot(lambda: closure(0), lambda o: o(), cellset), closlist=slot(lambda: closure([0]), lambda o: o()[0], lambda o, v: item(o(), v)), deep=slot(deep, lambda o: o()()[0], lambda o, v: item(o()(), v)), cell=slot(lambda: closure(0).__closure__[0], lambda o: o.cell_contents, lambda o, v: setattr(o, 'cell_contents', v)),
    default=slot(lambda: ns('def f(x=[0]): return x[0]')['f'], lambda o: o(), lambda o, v: item(o.__defaults__[0], v)), default2=slot(lambda: ns('def f(x=0): return x')['f'], lambda o: o(), lambda o, v: setattr(o, '__defaults__', (v,))), kwdefault=slot(lambda: ns('def f(*, x=0): return x')['f'], lambda o: o(), lambda o, v: o.__kwdefaults__.__setitem__('x', v)),
    fattr=slot(lambda: (lambda f: (setv(f, 0), f)[1])(ns('def f(): pass')['f']), lambda o: o.v, setv), ann=slot(lambda: ns('def f(x: "a"): pass\nf.__annotations__["x"] = 0')['f'], lambda o: o.__annotations__['x'], lambda o, v: o.__annotations__.__setitem__('x', v)), fdoc=slot(lambda: ns('def f(): "0"')['f'], lambda o: int(o.__doc__), lambda o, v: setattr(o, '__doc__', str(v))),
    glob=slot(lambda: ns('g = 0\ndef f(): return g')['f'], lambda o: o(), lambda o, v: o.__globals__.__setitem__('g', v)), globlist=slot(lambda: ns('g = [0]\ndef f(): return g[0]')['f'], lambda o: o(), lambda o, v: item(o.__globals__['g'], v)), selfref=slot(lambda: ns('def f(): return f.v\nf.v = 0')['f'], lambda o: o(), setv),
    lcls=slot(lambda: ns(LOCAL)['C'], lambda o: o.v, setv), lclsin=slot(lambda: ns(LOCAL)['C'], lambda o: o.inner[0], lambda o, v: item(o.inner, v)), lclsm=slot(lambda: ns(LOCAL)['C'].meth, lambda o: o(types.SimpleNamespace(v=o.__dict__.get('z', 0))), lambda o, v: o.__dict__.__setitem__('z', v)), linst=slot(lambda: ns(LOCAL)['C'](), lambda o: o.v, setv),
    linstcls=slot(lambda: ns(LOCAL)['C'](), lambda o: type(o).v, lambda o, v: setv(type(o), v)), lbound=slot(lambda: ns(LOCAL)['C']().meth, lambda o: o(), lambda o, v: setv(type(o.__self__), v)), lprop=slot(lambda: ns(LOCAL)['C'](), lambda o: o.p, setv), lclsmeth=slot(lambda: ns(LOCAL)['C'].c, lambda o: o(), lambda o, v: setv(o.__self__, v)),
    lstat=slot(lambda: ns(LOCAL)['C'], lambda o: o.s(), lambda o, v: setv(o.s.__globals__['C'], v)), meta=slot(lambda: ns('class M(type):\n    v = 0\nclass C(metaclass=M): pass')['C'], lambda o: type(o).v, lambda o, v: setv(type(o), v)), base=slot(lambda: ns('class A:\n    v = 0\nclass C(A): pass')['C'], lambda o: o.v, lambda o, v: setv(o.__base__, v)),
    abc=slot(lambda: (lambda C: (setv(C, 0), C)[1])(abc.ABCMeta('C', (), {'__module__': 'vt_nowhere'})), lambda o: o.v, setv), ldc=slot(lambda: dataclasses.make_dataclass('L', [('v', int, 0)]), lambda o: o.v, setv), lnt=slot(lambda: collections.namedtuple('L', 'a')([0]), lambda o: o.a[0], lambda o, v: item(o.a, v)),
    prop=slot(lambda: property(closure(0)), lambda o: o.fget.__closure__[0].cell_contents, lambda o, v: cellset(o.fget, v)), static=slot(lambda: staticmethod(closure(0)), lambda o: o.__func__(), lambda o, v: cellset(o.__func__, v)), lru=slot(lambda: functools.lru_cache(2)(closure([0])), lambda o: o.__wrapped__()[0], lambda o, v: item(o.__wrapped__(), v)),
    sup=slot(lambda: (lambda C: super(C, C()))(ns('class A:\n    v = 0\nclass C(A): pass')['C']), lambda o: o.v, lambda o, v: setv(o.__thisclass__.__base__, v)),
    weak=slot(lambda: (lambda i: [i, weakref.ref(i)])(Inst()), lambda o: o[1]().v, lambda o, v: setv(o[0], v)), rec=slot(lambda: (lambda l: (l.append(l), l)[1])([0]), lambda o: o[1][1][0], item), walias=slot(lambda: typing.Dict[str, (lambda C: (setv(C, 0), C)[1])(ns(LOCAL)['C'])], lambda o: o.__args__[1].v, lambda o, v: setv(o.__args__[1], v)),
)
BYVALCLASS = {k for k in VAL if k[0] == 'l' and k not in ('list', 'listsub', 'listattr', 'lru')} | {'meta', 'base', 'abc', 'sup', 'walias'}   # (classes found nowhere cannot be stored by reference)
def mk_mainglob(i):
    exec('vt_g%d = 0\ndef vt_f%d(): return vt_g%d' % (i, i, i), __main__.__dict__); return getattr(__main__, 'vt_f%d' % i)
def mk_maincls(i):
    exec('class vt_C%d:\n    v = 0\n    def m(self): return self.v' % i, __main__.__dict__); return getattr(__main__, 'vt_C%d' % i)
def globname(f): return f.__code__.co_names[0]
LIVE = dict(
    refmod=slot(lambda i: vt_puremod.subs[i], lambda o: o.v, setv), refcls=slot(lambda i: vt_puremod.classes[i], lambda o: o.v, setv), reffun=slot(lambda i: vt_puremod.funcs[i], lambda o: o.v, setv), refglob=slot(lambda i: vt_puremod.readers[i], lambda o: o(), lambda o, v: o.__globals__.__setitem__(globname(o), v)),
    refinst=slot(lambda i: vt_puremod.classes[i](), lambda o: type(o).v, lambda o, v: setv(type(o), v)), refmeth=slot(lambda i: vt_puremod.classes[i]().meth, lambda o: o.__self__.__class__.v, lambda o, v: setv(o.__self__.__class__, v)), refdict=slot(lambda i: vt_puremod.subs[i].__dict__, lambda o: o['v'], lambda o, v: o.__setitem__('v', v)), reflogger=slot(lambda i: logging.getLogger('vt.p%d' % i), lambda o: getattr(o, 'v', 0), setv),
    mainglob=slot(mk_mainglob, lambda o: o(), lambda o, v: o.__globals__.__setitem__(globname(o), v)), maincls=slot(mk_maincls, lambda o: o.v, setv))
OPT = {'plain': {}, 'recurse': dict(recurse=True), 'byref': dict(byref=True), 'recbyref': dict(recurse=True, byref=True)}
class Boom(Exception): pass
class Bad:
    def __init__(self, e): self.e = e
    def __reduce__(self): raise self.e
def badthing(how):
    if how == 'reduce': return Bad(Boom())
    if how == 'type': return (x for x in ())
    if how == 'interrupt': return Bad(KeyboardInterrupt())
    if how == 'closure':
        c = closure(0); cellset(c, [c, Bad(Boom())]); return c
    if how == 'class': return ns('class Z:\n    x = bad\n    def m(self): return Z\n', bad=Bad(Boom()))['Z']
    if how == 'globals': return ns('def h(): return h, bad\n', bad=Bad(Boom()))['h']
    if how == 'deep':
        l = []
        for _ in range(100000): l = [l]
        return l
class Full:
    """a file with a limited size"""
    def __init__(self, n): self.n = n
    def write(self, b):
        self.n -= len(b)
        if self.n < 0: raise OSError(28, 'no space left')
        return len(b)
# --- what can be observed of an object: the part of the heap it owns -------------------
ATOM = (int, float, str, bytes, bool, type(None), complex, type(Ellipsis), types.BuiltinFunctionType, types.CodeType, types.ModuleType, types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType)
def owned_class(c): return c.__module__ in ('vt_nowhere', '__main__', 'types') or c.__name__ in ('L',)
def observe(root):
    seen, out, todo = {}, [], [root]
    keep = []
    def kid(o): keep.append(o); todo.append(o); return id(o)
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen[id(o)] = 1; keep.append(o)
        t = type(o)
        if t in ATOM and t is not types.ModuleType: out.append((id(o), 0, repr(o) if t not in (types.BuiltinFunctionType,) else 0)); continue
        if t is logging.Logger or t in weakref.ProxyTypes: continue
        if t is types.ModuleType: continue
        if isinstance(o, type):
            if owned_class(o): out.append((id(o), o.__name__, o.__qualname__, o.__module__, o.__bases__, [(k, kid(v)) for k, v in vars(o).items() if k not in ('__dict__', '__weakref__', '_abc_impl', '__slotnames__')])); kid(type(o)); [kid(b) for b in o.__bases__]
            continue
        rec = [id(o), id(t)]; kid(t)
        if t is dict or isinstance(o, dict):
            if o.get('__name__') in ('vt_nowhere', None) or t is not dict: rec.append([(kid(k), kid(v)) for k, v in o.items() if k not in ('__builtins__',)])
        elif isinstance(o, (list, tuple, collections.deque)): rec.append([kid(v) for v in o])
        elif isinstance(o, (set, frozenset)): rec.append(sorted(kid(v) for v in o))
        elif t is types.FunctionType:
            if o.__module__ in ('vt_nowhere', '__main__', 'pure') or o.__closure__:
                rec.append((o.__name__, o.__qualname__, o.__doc__, o.__module__, id(o.__code__), kid(o.__defaults__), [] if not o.__kwdefaults__ else [(k, kid(v)) for k, v in o.__kwdefaults__.items()], [(k, kid(v)) for k, v in o.__annotations__.items()], [(k, kid(v)) for k, v in vars(o).items()], [kid(c) for c in o.__closure__ or ()], kid(o.__globals__)))
        elif t is types.CellType:
            try: rec.append(kid(o.cell_contents))
            except ValueError: rec.append('empty')
        elif t is types.MethodType: rec += [kid(o.__func__), kid(o.__self__)]
        elif t is functools.partial: rec += [kid(o.func), kid(o.args), [(k, kid(v)) for k, v in o.keywords.items()]]
        elif t is property: rec += [kid(o.fget), kid(o.fset), kid(o.fdel), o.__doc__]
        elif t in (staticmethod, classmethod): rec.append(kid(o.__func__))
        elif t in (type({}.keys()), type({}.values()), type({}.items())): rec.append([(id(k), kid(v)) for k, v in o] if t is type({}.items()) else [kid(v) for v in o])
        elif t is types.MappingProxyType: rec.append([(kid(k), kid(v)) for k, v in o.items()])
        elif t is slice: rec += [kid(o.start), kid(o.stop), kid(o.step)]
        elif t is super: rec += [id(object.__getattribute__(o, '__thisclass__')), id(object.__getattribute__(o, '__self__'))]; kid(object.__getattribute__(o, '__self__')); out.append(rec); continue
        elif t is weakref.ref: rec.append(id(o()))
        elif t is io.StringIO or t is io.BytesIO: rec += [o.getvalue(), o.tell()]
        elif t in (array.array, bytearray): rec.append(bytes(o))
        elif isinstance(o, BaseException): rec += [kid(o.args)]
        d = getattr(o, '__dict__', None)
        if type(d) is dict and t not in (types.FunctionType,): rec.append([(k, kid(v)) for k, v in d.items() if k != '__builtins__'])
        for s in getattr(t, '__slots__', ()) if isinstance(getattr(t, '__slots__', ()), (tuple, list)) else ():
            if s not in ('__weakref__', '__dict__') and hasattr(o, s): rec.append((s, kid(getattr(o, s))))
        out.append(rec)
    return out, keep
def process():
    """the state of the process that a later call could notice"""
    import pickle, builtins, copyreg, dill._dill as dd
    lg = logging.getLogger('dill')
    return dict(warnings=list(map(str, warnings.filters)), show=id(warnings.showwarning), settings=dict(dill.settings), dispatch={k: id(v) for k, v in dill.Pickler.dispatch.items()}, std=[id(sys.stdin), id(sys.stdout), id(sys.stderr)], stock={k: id(v) for k, v in pickle._Pickler.dispatch.items()},
        limit=sys.getrecursionlimit(), logger=[lg.level, [id(h) for h in lg.handlers], lg.disabled], main={k: id(v) for k, v in vars(__main__).items()}, builtins={k: id(v) for k, v in vars(builtins).items() if k != '_'}, env=dict(os.environ), cwd=os.getcwd(), copyreg=dict(copyreg.dispatch_table), ext=dict(copyreg._extension_registry),
        path=list(sys.path), meta=list(map(id, sys.meta_path)), hooks=[id(sys.excepthook), id(sys.displayhook)], trace=[sys.gettrace(), sys.getprofile()])
def changed(a, b, mods):
    for k in a:
        if k == 'dispatch': b[k] = {x: y for x, y in b[k].items() if x in a[k] or getattr(x, '__module__', '') != 'numpy'}   # (numpy's types are registered when the first one comes)
        if a[k] != b[k]:
            if isinstance(a[k], dict): return '%s: %s' % (k, [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)][:4])
            return '%s: %s, then %s' % (k, str(a[k])[:150], str(b[k])[:150])
    for k, v in mods.items():
        if k not in sys.modules: return 'module %s removed' % k
        if sys.modules[k] is not v: return 'module %s replaced' % k
    if 'vt_locfile' in sys.modules: return 'a module is imported because a dictionary names it'
    return None
def heaps(sc):
    """objects of every kind: pickling, successful or not, leaves them alone and can be repeated"""
    import streams
    objs = streams.build(sc['objs'])
    for name, o in objs.items():
        try: b0 = observe(o)
        except Exception as e: return 'driver cannot observe %s: %r' % (name, e)
        p0, mods = process(), dict(sys.modules)
        outcomes = {}
        for rnd in range(2):
            for opt in ('plain', 'recurse', 'byref', 'recbyref'):
                for proto in sc['protos']:
                    for bad in (False, True):
                        data = None
                        try: data = dill.dumps([o, Bad(Boom())] if bad else o, proto, **OPT[opt]); r = 'ok'
                        except BaseException as e: r = type(e).__name__; e = None
                        if not bad and data is not None and sc.get('load') and name != 'main':
                            try: dill.loads(data); r = 'loaded'
                            except BaseException as e: r = 'load ' + type(e).__name__; e = None
                        if bad and r == 'ok': return 'pickling %s ignores an error' % name
                        key = (opt, proto, bad)
                        if outcomes.setdefault(key, r) != r: return 'pickling %s (%s) again: %s, before %s' % (name, key, r, outcomes[key])
                        now = observe(o)[0]
                        if now != b0[0]:
                            d = [(x, y) for x, y in zip(b0[0], now) if x != y][:1]
                            return 'pickling %s (%s, %s) changed the object: %s' % (name, key, r, str(d)[:300])
                        c = changed(p0, process(), mods)
                        if c: return 'pickling %s (%s, %s) changed the process: %s' % (name, key, r, c)
    return None
def run(sc):
    if 'objs' in sc: return heaps(sc)
    kinds, hist, worlds, shared = sc['kinds'], sc['hist'], sc['worlds'], sc['shared']
    key = zlib.crc32(json.dumps(sc, sort_keys=True).encode()); proto = 2 + key % 4; pack = key // 4 % 3
    n = len(kinds)
    acc = [VAL[k] if k in VAL else LIVE[k] for k in kinds]
    orig = [a[0]() if k in VAL else a[0](i) for i, (k, a) in enumerate(zip(kinds, acc))]
    for i, k in enumerate(kinds):
        if k in LIVE: acc[i][2](orig[i], 0)
    W = [orig]; blobs = []; want = [[0] * n]; own = [[k not in LIVE for k in kinds]]
    def look(step):
        for u, w in enumerate(W):
            for i in range(n):
                try: got = acc[i][1](w[i])
                except Exception as e: got = '%s: %s' % (type(e).__name__, e)
                if got != want[u][i]: return 'step %s: the %s in %s has %s, not %s' % (step, kinds[i], 'the original' if u == 0 else 'copy %d' % u, got, want[u][i])
    def packed(objs): return objs if pack == 0 else {'a': objs, 1: tuple(objs)} if pack == 1 else objs[::-1]
    def unpacked(x): return x if pack == 0 else list(x['a']) if pack == 1 else x[::-1]
    def value(u, i): return want[u][i]
    look('start')
    blobvals, blobrest = [], []
    for s, (do, u, i, x) in enumerate(hist, 1):
        before = [observe(w) for w in W] if do != 'mutate' else None
        p0, mods = process(), dict(sys.modules)
        if do == 'mutate':
            u -= 1; i -= 1; v = int(x); acc[i][2](W[u][i], v)
            if own[u][i]: want[u][i] = v
            else:
                for u2 in range(len(W)):
                    if not own[u2][i]: want[u2][i] = v
            r = look(s)
            if r: return r + ' after changing %s of %d' % (kinds[i], u)
            continue
        if do in ('dump', 'copy', 'faildump'):
            opt, _, how = x.partition(' ')
            kw = OPT[opt]; objs = packed(W[u - 1])
            vals = [None if not own[u - 1][j] and by_ref(kinds[j], opt) else want[u - 1][j] for j in range(n)]
            try:
                if do == 'dump':
                    blobs.append(dill.dumps(objs, proto, **kw)); blobvals.append(vals); blobrest.append(list(want[u - 1]))
                elif do == 'copy':
                    W.append(unpacked(dill.copy(objs, protocol=proto, **kw))); add = vals
                else:
                    r = None
                    try:
                        if how.startswith('file'): dill.dump(objs, Full(int(how[4:])), proto, **kw)
                        elif how == 'file': pass
                        else: dill.dumps([objs, badthing(how)], proto, **kw)
                        if how.startswith('file'): r = 'ok'
                        else: r = 'a failure is not reported'
                    except (Boom, KeyboardInterrupt, TypeError, dill.PicklingError, RecursionError, OSError) as e: pass
                    if r and r != 'ok': return 'step %d: %s' % (s, r)
            except Exception as e: return 'step %d: %s of %s with %s fails: %s: %s' % (s, do, kinds, opt, type(e).__name__, str(e)[:150])
        elif do == 'load':
            try: W.append(unpacked(dill.loads(blobs[u - 1])))
            except Exception as e: return 'step %d: load of %s fails: %s: %s' % (s, kinds, type(e).__name__, str(e)[:150])
            add = blobvals[u - 1]
            for j in range(n):   # the contents of a module object are put back
                if kinds[j] == 'refmod':
                    for u2 in range(len(want)): want[u2][j] = blobrest[u - 1][j]
        elif do == 'failload':
            b = blobs[u - 1]
            try: dill.loads(b[:len(b) * (key % 97 + 1) // 99]); return 'step %d: a cut pickle loads' % s
            except Exception: pass
        c = changed(p0, process(), mods)
        if c: return 'step %d: %s of %s changed the process: %s' % (s, do, kinds, c)
        if do in ('copy', 'load'):
            own.append([v is not None for v in add])
            want.append([v if v is not None else want[0][j] for j, v in enumerate(add)])
        for k, b in enumerate(before):
            now = observe(W[k])[0]
            if now != b[0]: return 'step %d: %s (%s) of %s changed %s: %s' % (s, do, x, kinds, 'the original' if k == 0 else 'copy %d' % k, str([(p, q) for p, q in zip(b[0], now) if p != q][:1])[:300])
        r = look(s)
        if r: return r + ' after %s (%s)' % (do, x)
    if want != worlds: return 'driver and specification disagree: %s %s' % (want, worlds)
    return None
def by_ref(k, o):
    if k in VAL: return False
    return o not in ('recurse', 'recbyref') if k == 'mainglob' else o in ('byref', 'recbyref') if k == 'maincls' else True
