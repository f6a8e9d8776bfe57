"""C17 driver: builds the value of a term and recognises it in the copy"""
import importlib, abc, array, ast, codecs, collections, contextlib, dataclasses, datetime, decimal, enum, errno, fractions, functools, inspect, io, ipaddress, itertools, json, math, operator, os, pathlib, random, re, string, struct, sys, threading, types, typing, uuid, warnings, weakref, zlib, logging
import dill
from dill import _objects
import vt_termmod as T
warnings.simplefilter('ignore')
FORK = False
UNIQUE = dict(none=None, true=True, false=False, ell=Ellipsis, notimp=NotImplemented, os=os, sys=sys, collabc=collections.abc, posix=os.path, termmod_func=T.top, missing=dataclasses.MISSING, kwonly=dataclasses.KW_ONLY, hasdf=dataclasses._HAS_DEFAULT_FACTORY, field=dataclasses._FIELD, fieldc=dataclasses._FIELD_CLASSVAR, fieldi=dataclasses._FIELD_INITVAR,
    strjoin=str.join, intadd=int.__add__, objinit=object.__init__, objrepr=object.__repr__, fcode=types.FunctionType.__code__, fclosure=types.FunctionType.__closure__, fkeys=dict.fromkeys, imag=complex.imag, tany=typing.Any, topt=typing.Optional, tunion=typing.Union, tcall=typing.Callable, tlist=typing.List, ttuple=typing.Tuple, anystr=typing.AnyStr, colour=T.Colour.RED, flag=re.IGNORECASE, empty=inspect.Parameter.empty, poskind=inspect.Parameter.KEYWORD_ONLY,
    nested=T.Outer.Inner.method, ometh=T.Outer.meth, oprop=T.Outer.__dict__['p'] if False else None, stat=T.Outer.stat, slotm=T.Slots.a, dunder=T.Outer.__lt__, single=T.single, dispatch=T.Outer.Inner)
del UNIQUE['oprop']
TYPES = dict(int=int, str=str, bool=bool, type=type, object=object, ttup=tuple, tdict=dict, float=float, texc=ValueError, tfunc=types.FunctionType, tgen=types.GeneratorType, tcode=types.CodeType, tmod=types.ModuleType, tproxy=types.MappingProxyType, tkeys=type({}.keys()), tokeys=type(collections.OrderedDict().keys()), tmethdesc=types.MethodDescriptorType, tcell=types.CellType, tnone=type(None), tell=type(Ellipsis), tnot=type(NotImplemented),
    enummeta=enum.EnumMeta, hook=threading.ExceptHookArgs, abcm=abc.ABCMeta, abc=abc.ABC, todict=collections.OrderedDict, pattern=re.Pattern, trlock=type(threading.RLock()), tuserdict=collections.UserDict, tframe=types.FrameType, ttb=types.TracebackType, trange=range, tslice=slice, tsuper=super, tprop=property, tstatic=staticmethod, tpartial=functools.partial, talias=types.GenericAlias, tuniont=types.UnionType, tcoro=types.CoroutineType, tasync=types.AsyncGeneratorType, tgetset=types.GetSetDescriptorType, twrap=types.WrapperDescriptorType,
    tmwrap=types.MethodWrapperType, tbuiltin=types.BuiltinFunctionType, tns=types.SimpleNamespace, tref=weakref.ref, tproxyt=weakref.ProxyType, tmv=memoryview, outer=T.Outer, inner=T.Outer.Inner, tcolour=T.Colour, dc=T.DC, tnt=T.NT, meta=T.Meta, metacls=T.WithMeta, stringio=io.StringIO, tfile=io.TextIOWrapper, tzip=zip, tcsv=type(itertools.count()), tctx=type(__import__('contextvars').Context()), protocol=T.Proto, exit=type(exit) if 'exit' in dir(__builtins__) else SystemExit)
FUNCS = dict(len=len, print=print, max=max, top=T.top, isinstance=isinstance, pjoin=os.path.join, add=operator.add, sin=math.sin, dumps=json.dumps, ident=T.ident, listf=list, reduce=functools.reduce)
# classes and functions of the library whose own name leads to them
LIB = {}
for _m in 'builtins types enum abc functools collections collections.abc dataclasses typing weakref threading io itertools operator contextlib logging sys os re json math decimal datetime fractions random inspect ast array struct string copy pickle codecs socket queue tempfile pathlib numbers statistics heapq bisect traceback warnings concurrent.futures multiprocessing ctypes argparse configparser email.message http.client urllib.request xml.dom sqlite3 zipfile unittest.mock asyncio'.split():
    for _k, _o in sorted(vars(importlib.import_module(_m)).items()):
        if isinstance(_o, (type, types.FunctionType, types.BuiltinFunctionType)):
            _x = sys.modules.get(getattr(_o, '__module__', None))
            for _a in _o.__qualname__.split('.'): _x = getattr(_x, _a, None)
            if _x is _o and not any(_o is v for v in LIB.values()): LIB['lib:%s:%s' % (_m, _k)] = _o
# ... and what they are made of
for _t in [o for o in LIB.values() if isinstance(o, type)]:
    for _k, _o in sorted(vars(_t).items()):
        if isinstance(_o, (types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType)) and getattr(_t, _k, None) is _o:
            LIB['lib:%s.%s:%s' % (_t.__module__, _t.__qualname__, _k)] = _o
def nan(): return float('nan')
HASHABLE = dict(i0=lambda: 0, i1=lambda: 255, i2=lambda: -70000, big=lambda: 1 << 2100, nbig=lambda: -(1 << 64), f=lambda: 1.5, negz=lambda: -0.0, inf=lambda: float('-inf'), nan=nan, cplx=lambda: complex(0.0, -2), s=lambda: 'abc', es=lambda: '', us=lambda: '\ud800\U0001f600\n\\\'"', ls=lambda: 'x' * 70000, by=lambda: b'a\x00\xff', lby=lambda: b'q' * 300, ety=lambda: (), rng=lambda: range(3), rng2=lambda: range(10, -5, -3), rngbig=lambda: range(1 << 70), rnge=lambda: range(0),
    dec=lambda: decimal.Decimal('1.50'), frac=lambda: fractions.Fraction(1, 3), date=lambda: datetime.date(2020, 2, 29), dt=lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6, datetime.timezone.utc), td=lambda: datetime.timedelta(1, 2, 3), tz=lambda: datetime.timezone(datetime.timedelta(hours=2)), uid=lambda: uuid.UUID(int=5), pat=lambda: re.compile('a(b)+', re.I), path=lambda: pathlib.PurePosixPath('/a/b'), ip=lambda: ipaddress.ip_address('10.0.0.1'), esc=lambda: 'c__main__\n__dict__\n', line=lambda: 'a\r\nb\x85c\u2028')
PLAIN = dict(barr=lambda: bytearray(b'ab'), lbarr=lambda: bytearray(b'z' * 300), arr=lambda: array.array('d', [1.5, 2]), userd=lambda: collections.UserDict(a=1), counter=lambda: collections.Counter('aab'), sig=lambda: inspect.signature(T.top), tmpl=lambda: string.Template('$a'), struct=lambda: struct.Struct('<i') if False else string.Template('$b'), excg=lambda: ExceptionGroup('g', [ValueError(1)]), node=lambda: ast.parse('x + 1'))
def tlist(c, a):
    return {'glist': lambda: list[a[0]], 'gdict': lambda: dict[a[0], a[1]], 'gtuple': lambda: tuple[tuple(a)], 'List': lambda: typing.List[a[0]], 'Dict': lambda: typing.Dict[a[0], a[1]], 'Union': lambda: typing.Union[a[0], a[1]], 'Optional': lambda: typing.Optional[a[0]], 'Call': lambda: typing.Callable[[a[0]], a[1]], 'CallE': lambda: typing.Callable[..., a[0]],
        'Tuple': lambda: typing.Tuple[tuple(a)], 'union': lambda: a[0] | a[1], 'TypeOf': lambda: typing.Type[a[0]], 'ClassVar': lambda: typing.ClassVar[a[0]], 'Annot': lambda: typing.Annotated[a[0], a[1]]}[c]()
ALIAS = {'glist', 'gdict', 'gtuple', 'List', 'Dict', 'Union', 'Optional', 'Call', 'CallE', 'Tuple', 'union', 'TypeOf', 'ClassVar', 'Annot'}
def pairs(a): return dict(zip(a[::2], a[1::2]))
def make(c, a):
    for d in (UNIQUE, TYPES, FUNCS, LIB):
        if c in d and not a: return d[c]
    if c in HASHABLE: return HASHABLE[c]()
    if c in PLAIN: return PLAIN[c]()
    if c in ALIAS: return tlist(c, a)
    return {'list': lambda: list(a), 'tuple': lambda: tuple(a), 'deque': lambda: collections.deque(a, 9), 'set': lambda: set(a), 'fset': lambda: frozenset(a), 'dict': lambda: pairs(a), 'odict': lambda: collections.OrderedDict(pairs(a)), 'ddict': lambda: collections.defaultdict(a[0], {a[1]: a[2]}), 'slice': lambda: slice(*a),
        'partial': lambda: functools.partial(*a), 'partialkw': lambda: functools.partial(a[0], *a[2:], **{'k': v for v in a[1:2]}), 'pmeth': lambda: functools.partialmethod(a[0], a[1]), 'mproxy': lambda: types.MappingProxyType(a[0]), 'keys': lambda: a[0].keys(), 'values': lambda: a[0].values(), 'items': lambda: a[0].items(), 'okeys': lambda: a[0].keys(), 'ovalues': lambda: a[0].values(), 'oitems': lambda: a[0].items(), 'chainmap': lambda: collections.ChainMap({}, a[0]),
        'igetter': lambda: operator.itemgetter(*a), 'agetter': lambda: operator.attrgetter('a.b', 'c'), 'mcaller': lambda: operator.methodcaller('m', a[0], k=1), 'inst': lambda: T.Inst(a[0]), 'slotinst': lambda: T.slots(a[0]), 'simplens': lambda: types.SimpleNamespace(x=a[0]), 'exc': lambda: T.Err(a[0], 2), 'cell': lambda: types.CellType(a[0]), 'dci': lambda: T.DC(1, a[0]), 'nt': lambda: T.NT(*a),
        'prop': lambda: property(a[0], None, T.top, 'doc'), 'static': lambda: staticmethod(a[0]), 'classm': lambda: classmethod(a[0]), 'cprop': lambda: functools.cached_property(a[0]), 'meth': lambda: a[0].meth, 'cmeth': lambda: a[0].cm, 'super': lambda: super(T.Mid, a[0]), 'super2': lambda: super(T.Mid, type(a[0])), 'bmeth': lambda: a[0].append, 'mwrap': lambda: a[0].__len__}[c]()
class Bad(Exception): pass
class Tracer:
    def __init__(self, log): self.log = log
    def __getitem__(self, k): self.log.append(k)
MUTABLE = {'list', 'deque', 'set', 'dict', 'odict', 'ddict', 'inst', 'slotinst', 'simplens', 'dci', 'exc', 'cell', 'chainmap', 'barr', 'lbarr', 'arr', 'userd', 'counter'}
def eqv(x, y):
    """equal values of the same type"""
    if type(x) is not type(y): raise Bad('type %s for %s' % (type(y).__name__, type(x).__name__))
    if isinstance(x, float):
        ok = struct.pack('d', x) == struct.pack('d', y)
    elif isinstance(x, ast.AST): ok = ast.dump(x) == ast.dump(y)
    elif isinstance(x, BaseExceptionGroup): ok = x.message == y.message and list(map(repr, x.exceptions)) == list(map(repr, y.exceptions))
    elif isinstance(x, string.Template): ok = x.template == y.template
    elif isinstance(x, (datetime.datetime,)): ok = x == y and x.tzinfo == y.tzinfo
    elif isinstance(x, (complex, decimal.Decimal)): ok = repr(x) == repr(y)
    else: ok = x == y and (not isinstance(x, (range,)) or (x.start, x.stop, x.step) == (y.start, y.stop, y.step))
    if not ok: raise Bad('%.60r for %.60r' % (y, x))
class Rec:
    def __init__(self, nodes, vals): self.nodes, self.vals, self.memo, self.back = nodes, vals, {}, {}
    def same(self, i, y):
        c, a = self.nodes[i]; x = self.vals[i]
        a = [j - 1 for j in a]
        try:
            if c in MUTABLE:
                if i in self.memo:
                    if self.memo[i] is not y: raise Bad('two copies')
                    return
                if id(y) in self.back: raise Bad('one copy of two')
                if x is y: raise Bad('not a copy')
                self.memo[i] = y; self.back[id(y)] = i
            self.check(c, a, x, y)
        except Bad as e: raise Bad('%s > %s' % (c, e)) from None
    def all(self, a, ys):
        if len(a) != len(ys): raise Bad('%d parts, not %d' % (len(ys), len(a)))
        for i, y in zip(a, ys): self.same(i, y)
    def find(self, a, ys):
        """unordered: every part has its counterpart"""
        want = []
        for i in a:   # (equal parts collapse)
            if not any(self.vals[i] == self.vals[j] or self.vals[i] is self.vals[j] for j in want): want.append(i)
        if len(want) != len(ys): raise Bad('%d members, not %d' % (len(ys), len(want)))
        left = list(ys)
        for i in want:
            for k, y in enumerate(left):
                try: Rec(self.nodes, self.vals).same(i, y)
                except Bad: continue
                left.pop(k); break
            else: raise Bad('member %.50r is missing' % (self.vals[i],))
    def mapping(self, a, y):
        keys = {}
        for k, v in zip(a[::2], a[1::2]):
            for k2 in keys:
                if self.vals[k2] == self.vals[k] or self.vals[k2] is self.vals[k]: keys[k2] = v; break
            else: keys[k] = v
        if len(keys) != len(y): raise Bad('%d entries, not %d' % (len(y), len(keys)))
        for (k, v), (k2, v2) in zip(keys.items(), list(y.items())): self.same(k, k2); self.same(v, v2)
    def check(self, c, a, x, y):
        if not a and (c in UNIQUE or c in TYPES or c in FUNCS or c in LIB):
            if x is not y and not (c in ('fkeys', 'imag') and x == y): raise Bad('%.80r is not %.80r' % (y, x))
            return
        if c in HASHABLE or c in PLAIN: return eqv(x, y)
        if type(x) is not type(y): raise Bad('type %r for %r' % (type(y).__name__, type(x).__name__))
        if c in ALIAS:
            if repr(x) != repr(y) or x != y and 'nan' not in [n[0] for n in self.nodes]: raise Bad('%r for %r' % (y, x))
            if typing.get_origin(x) is not typing.get_origin(y) or len(typing.get_args(x)) != len(typing.get_args(y)): raise Bad('origin or arguments')
            return
        if c in ('list', 'tuple', 'nt'): return self.all(a, y)
        if c == 'deque':
            if y.maxlen != 9: raise Bad('limit %s' % y.maxlen)
            return self.all(a, y)
        if c in ('set', 'fset'): return self.find(a, y)
        if c in ('dict', 'odict'): return self.mapping(a, y)
        if c == 'ddict': self.same(a[0], y.default_factory); return self.mapping(a[1:], y)
        if c == 'slice': return self.all(a, [y.start, y.stop, y.step])
        if c == 'partial':
            if y.keywords: raise Bad('keywords')
            return self.all(a, [y.func, *y.args])
        if c == 'partialkw':
            if list(y.keywords) != ['k'][:len(a) - 1]: raise Bad('arguments')
            return self.all(a, [y.func, *y.keywords.values(), *y.args])
        if c == 'pmeth':
            if y.keywords: raise Bad('keywords')
            return self.all(a, [y.func, *y.args])
        if c == 'mproxy': return self.mapping(self.argsof(a[0]), y)
        if c in ('keys', 'values', 'items', 'okeys', 'ovalues', 'oitems'):
            d = dict(y.mapping)
            self.mapping(self.argsof(a[0]), d)
            if list(y) != list(getattr(d, c.lstrip('o'))()) and 'nan' not in [n[0] for n in self.nodes]: raise Bad('view of something else')
            return
        if c == 'chainmap': 
            if len(y.maps) != 2 or y.maps[0] != {}: raise Bad('maps')
            return self.same(a[0], y.maps[1])
        if c == 'igetter':
            log = []; y(Tracer(log)); return self.all(a, log)
        if c == 'agetter':
            o = types.SimpleNamespace(a=types.SimpleNamespace(b=5), c=6)
            if y(o) != (5, 6): raise Bad('gets %r' % (y(o),))
            return
        if c == 'mcaller':
            got = []
            class O:
                def m(self, *p, **k): got.append((p, k))
            y(O())
            if got[0][1] != {'k': 1}: raise Bad('keywords')
            return self.all(a, got[0][0])
        if c == 'inst':
            if list(vars(y)) != ['v']: raise Bad('attributes %s' % list(vars(y)))
            return self.same(a[0], y.v)
        if c == 'slotinst':
            if hasattr(y, 'b'): raise Bad('slot b')
            return self.same(a[0], y.a)
        if c == 'simplens': return self.same(a[0], y.x)
        if c == 'exc':
            if len(y.args) != 2 or y.args[1] != 2: raise Bad('args')
            return self.same(a[0], y.args[0])
        if c == 'cell': return self.same(a[0], y.cell_contents)
        if c == 'dci':
            if y.a != 1: raise Bad('field')
            return self.same(a[0], y.b)
        if c == 'prop':
            if y.fset is not None or y.fdel is not T.top or y.__doc__ != 'doc': raise Bad('property')
            return self.same(a[0], y.fget)
        if c in ('static', 'classm'): return self.same(a[0], y.__func__)
        if c == 'cprop': return self.same(a[0], y.func)
        if c == 'meth':
            if y.__func__ is not T.Inst.meth or y() != ('meth', y.__self__.v) and 'nan' not in [n[0] for n in self.nodes]: raise Bad('method')
            return self.same(a[0], y.__self__)
        if c == 'cmeth':
            if y.__self__ is not T.Inst or y() is not T.Inst or y.__name__ != 'cm': raise Bad('class method')
            return
        if c == 'super':
            if y.__thisclass__ is not T.Mid or y.__self_class__ is not T.Inst or y.who() != 'base': raise Bad('super')
            return self.same(a[0], y.__self__)
        if c == 'super2':
            if y.__thisclass__ is not T.Mid or y.__self__ is not T.Inst or y.cm2() is not T.Inst: raise Bad('super')
            return
        if c in ('bmeth', 'mwrap'):
            if y.__name__ != x.__name__: raise Bad('name')
            return self.same(a[0], y.__self__)
        raise KeyError(c)
    def argsof(self, i): return [j - 1 for j in self.nodes[i][1]]
OPT = {'plain': {}, 'recurse': dict(recurse=True), 'byref': dict(byref=True), 'fmode': dict(fmode=2)}
def run(sc):
    if 'cat' in sc: return catalogue(sc)
    nodes = sc['nodes']; vals = []
    for c, a in nodes:
        try: vals.append(make(c, [vals[j - 1] for j in a]))
        except TypeError as e:
            if c in ALIAS or 'unhashable' in str(e): return None   # (not a type for typing's constructors)
            raise
    kw = OPT[sc['opt']]
    key = zlib.crc32(json.dumps(sc, sort_keys=True).encode())
    roots = [vals[-1]] if sc.get('one') else vals
    wrap = key % 3
    obj = vals[-1] if wrap == 0 else [vals[-1], vals] if wrap == 1 else {'x': vals[::-1], 'y': vals[-1]}
    try: copy = dill.loads(dill.dumps(obj, sc['proto'], **kw))
    except Exception as e: return 'copying %s fails: %s: %s' % (show(nodes), type(e).__name__, str(e)[:200])
    r = Rec(nodes, vals)
    try:
        n = len(nodes) - 1
        if wrap == 0: r.same(n, copy)
        elif wrap == 1: r.same(n, copy[0]); r.all(list(range(n + 1)), copy[1])
        else: r.same(n, copy['y']); r.all(list(range(n, -1, -1)), copy['x'])
    except Bad as e: return 'copy of %s: %s' % (show(nodes), e)
    return None
def show(nodes): return ', '.join('%d=%s%s' % (i, c, tuple(a) if a else '') for i, (c, a) in enumerate(nodes, 1))
def catalogue(sc):
    """catalogued as supported or not"""
    name = sc['cat']; sup = name in _objects.succeeds; obj = (_objects.succeeds if sup else _objects.failures)[name]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: y = dill.loads(dill.dumps(obj, sc['proto'], **OPT[sc['opt']])); r = None
        except Exception as e: r = e
    if sup and r is not None: return '%s is catalogued as supported: %s: %s' % (name, type(r).__name__, str(r)[:200])
    if not sup and r is None: return '%s is catalogued as unsupported' % name
    if 'erator' not in name and name != 'FileType' and sup and type(y) is not type(obj) and (type(y).__module__, type(y).__qualname__) != (type(obj).__module__, type(obj).__qualname__): return '%s becomes a %s' % (name, type(y))
    # an unsupported one also inside something
    for nest in (lambda o: [o], lambda o: {'a': (o,)}, lambda o: T.Inst(o)):
        try: dill.loads(dill.dumps(nest(obj), sc['proto'])); ok = True
        except Exception as e: ok = False; r = e
        if ok != sup: return '%s nested: %s' % (name, 'supported' if ok else '%s: %s' % (type(r).__name__, r))
    return None
