"""C05 driver: build the class, copy it by value with dill (with an instance), compare everything observable"""
import os, operator, sys, re, types, inspect, warnings, abc, collections, typing, functools, dataclasses, enum, weakref
import dill
import vt_clsmod

HEAD = {
 'pep695': 'class X[TT]:',
 'plain': 'class X:', 'one': 'class X(B1):', 'diamond': 'class X(B1, B2):', 'mixin': 'class X(B1, collections.OrderedDict):', 'slotbase': 'class X(B1):',
 'dict': 'class X(dict):', 'int': 'class X(int):', 'list': 'class X(list):', 'tuple': 'class X(tuple):', 'exc': 'class X(ValueError):',
 'abc': 'class X(abc.ABC):', 'abcmix': 'class X(B1, abc.ABC):', 'generic': 'class X(typing.Generic[vt_clsmod.T]):',
 'subgen': 'class X(G1):', 'subgen2': 'class X(B1, G1):', 'subgeni': 'class X(G1[int]):', 'genmix': 'class X(B1, typing.Generic[vt_clsmod.T]):', 'protocol': 'class X(typing.Protocol[vt_clsmod.T]):', 'meta': 'class X(metaclass=LocalMeta):',
 'impmeta': 'class X(metaclass=vt_clsmod.ImpMeta):', 'NT': 'class X(typing.NamedTuple):', 'dataclass': '@dataclasses.dataclass\n  class X:',
 'frozen': '@dataclasses.dataclass(frozen=True, order=True)\n  class X:', 'dcslots': '@dataclasses.dataclass(slots=True)\n  class X:', 'enum': 'class X(enum.Enum):',
 'userdict': 'class X(collections.UserDict):', 'stdabc': 'class X(collections.abc.Mapping):'}
BODY = {
 'attr': ['attr = 41'], 'method': ['def method(self, x=2): return ("m", x)'], 'super': ['def sup(self): return ("sup", super().__str__ is not None, __class__.__name__)'],
 'super2': ['def sup2(self): return ("sup2", super(__class__, self).__class__.__name__)'],
 'prop': ['@property', 'def prop(self):', '  "prop doc"', '  return "p"'],
 'setprop': ['@property', 'def setprop(self): return self.__dict__.get("q") if hasattr(self, "__dict__") else None', '@setprop.setter', 'def setprop(self, v): self.__dict__["q"] = v'],
 'static': ['@staticmethod', 'def static(a, b=1): return ("st", a, b)'], 'clsm': ['@classmethod', 'def clsm(cls, a=0): return ("cm", cls.__name__, a)'],
 'cached': ['@functools.cached_property', 'def cached(self): return ["cached"]'], 'descr': ['descr = vt_clsmod.Descr(9)'],
 'nested': ['class Inner:', '  y = 5', '  def z(self): return ("inner", self.y)'], 'lam': ['lam = lambda self, k=3: ("lam", k)'],
 'private': ['def __priv(self): return "private"', 'def usepriv(self): return self.__priv()'], 'init': ['def __init__(self, *a): self.i = len(a)'],
 'eqhash': ['def __eq__(self, o): return type(o).__name__ == type(self).__name__', 'def __hash__(self): return 77'],
 'call': ['def __call__(self, x): return ("called", x)'], 'getattr': ['def __getattr__(self, n):', '  if n.startswith("dyn"): return ("dyn", n)', '  raise AttributeError(n)'],
 'slots': ['__slots__ = ("s1", "s2")'], 'slot1': ['__slots__ = "s1"'], 'slotsdict': ['__slots__ = ("s1", "__dict__", "__weakref__")'],
 'privslot': ['__slots__ = ("__ps",)', 'def useps(self):', '  self.__ps = 5', '  return self.__ps'],
 'ann': ['ann1: int', 'ann2: "Unknown" = 4'], 'doc': ['"the doc"'], 'docclear': ['"old doc"'], 'alias': [], 'inherit': ['basem = B1.basem'],
 'abstract': ['@abc.abstractmethod', 'def absm(self): return 1', '@property', '@abc.abstractmethod', 'def absp(self): return 2'], 'register': [],
 'initsub': ['def __init_subclass__(cls, **k):', '  cls.subbed = True'], 'partialm': ['def _pm(self, a): return ("pm", a)', 'pm = functools.partialmethod(_pm, 8)', 'del _pm'],
 'setname': ['sn = vt_clsmod.SetName()'], 'qual': [], 'rename': [], 'modname': [], 'gen': ['def gen(self):', '  yield 1', '  yield __class__.__name__'],
 'async': ['async def coro(self): return "coro"'], 'ops': ['def __add__(self, o): return ("add", o)', 'def __len__(self): return 3', 'def __getitem__(self, i): return ("item", i)'],
 'weak': [], 'classget': ['def __class_getitem__(cls, i): return ("cgi", cls.__name__, i)'], 'selfref': ['def usecls(self): return __class__ is type(self)'],
 'mutable': ['mut = [1, {"k": (2,)}]'], 'reduce': ['def __reduce__(self): return (vt_clsmod.rebuild, (type(self), "reduced"))'],
 'state': ['def __getstate__(self): return {"st": 1}', 'def __setstate__(self, s): self.__dict__["restored"] = s'],
 'props': ['def _get(self):', '  "the getter"', '  return 1', 'dp1 = property(_get, doc="")', 'dp2 = property(_get)', 'dp3 = property(_get, doc="another")', 'dp4 = property(fset=lambda self, v: None, doc="no getter")',
           'dp5 = property(lambda self: 5, fdel=lambda self: None)', 'dp6 = functools.cached_property(_get)', 'dp6.__doc__ = ""', 'del _get'],
 'deco': ['def _w(self): return "inner"', '@functools.wraps(_w)', 'def wr(self, *, k=4): return ("wrapped", k)', 'wr.extra = [1]', 'del _w'],
 'lru': ['@functools.lru_cache(maxsize=3, typed=True)', 'def lru(self=None, a=1): return ("lru", a)'],
 'foreign': ['blen = len', 'up = str.upper', 'osmod = os', 'ag = operator.attrgetter("__class__.__name__")'], 'shared': ['sh1 = sh2 = [1]'], 'slotdoc': ['__slots__ = {"s1": "the slot"}'], 'final': [],
 'setattr': ['def __setattr__(self, n, v): object.__setattr__(self, n, v)', 'def __delattr__(self, n): object.__delattr__(self, n)'],
 'sdispatch': ['@functools.singledispatchmethod', 'def sd(self, a): return ("any", a)', '@sd.register(int)', 'def sd_int(self, a): return ("int", a)', 'del sd_int']}
PRE = '''
class LocalMeta(type):
  def hello(cls): return "local meta " + cls.__name__
class B1:
  %s
  base1 = 1
  def basem(self): return ("B1.basem", type(self).__name__)
  def __str__(self): return "B1"
class G1(typing.Generic[vt_clsmod.T]):
  def gmeth(self): return ("G1", type(self).__name__)
class B2:
  def basem(self): return ("B2.basem",)
'''
PM = {'partialm': ('def _pmf(self, a): return ("pm", a)',)}

def source(fam, mem):
    order = [m for m in BODY if m in mem]
    order.sort(key=lambda m: m not in ('doc', 'docclear'))
    body = []
    for m in order: body += BODY[m]
    if fam == 'NT': body = [b for b in body if m] ; body = (['"the doc"'] if 'doc' in mem else []) + ['a: int', 'b: str = "bb"'] + [b for m in order if m != 'doc' for b in BODY[m]]
    if fam in ('dataclass', 'frozen', 'dcslots'):
        head = [b for m in ('doc', 'docclear') if m in mem for b in BODY[m]]
        body = head + ['fa: int', 'fb: list = dataclasses.field(default_factory=list)' if fam != 'frozen' else 'fb: int = 3', 'fc: str = dataclasses.field(default="c", repr=False, compare=False)'] \
            + [b for m in order if m not in ('doc', 'docclear') for b in BODY[m]]
    if fam == 'enum': body = body + ['RED = 1', 'BLUE = "b"', 'ALIAS = 1']
    pre = (PRE % ('__slots__ = ("bs",)' if fam == 'slotbase' else 'pass')).strip().split('\n')
    out = ['def mk():'] + ['  ' + l for l in pre]
    if fam == 'ntuple': out += ['  X = collections.namedtuple("X", "a b", defaults=("dflt",), module="vt_nomod")']
    elif fam == 'typed': out += ['  X = typing.TypedDict("X", {"a": int})']
    else: out += ['  ' + HEAD[fam]] + ['    ' + b for b in body or ['pass']]
    return '\n'.join(out + ['  return X, B1']) + '\n'

COMP = {}
def build(fam, mem):
    src = source(fam, mem)
    g = {'__name__': 'vt_nomod', '__builtins__': __builtins__, 'abc': abc, 'collections': collections, 'typing': typing, 'functools': functools,
         'dataclasses': dataclasses, 'os': os, 'operator': operator, 'enum': enum, 'vt_clsmod': vt_clsmod}
    if src not in COMP:
        if len(COMP) > 3000: COMP.clear()
        COMP[src] = compile(src, '<vt>', 'exec')
    exec(COMP[src], g)
    X, B1 = g['mk']()
    if fam == 'ntuple': X.__qualname__ = 'mk.<locals>.X'
    if 'docclear' in mem: X.__doc__ = None
    if 'alias' in mem: X.alias = vt_clsmod.helper
    if 'register' in mem: X.register(complex); X.register(B1) if fam == 'abc' else X.register(bytes)
    if 'qual' in mem: X.__qualname__ = 'Some.where.X'
    if 'final' in mem: typing.final(X)
    if 'rename' in mem: X.__name__ = 'Renamed'
    if 'modname' in mem: X.__module__ = 'vt_other_missing'
    return X, B1, src

SLOTTED = {'slots', 'slot1', 'slotsdict', 'privslot', 'slotbase', 'dcslots', 'slotdoc'}
IGN = {'__dict__', '__weakref__', '__slotnames__', '_abc_impl', '__module__', '__doc__', '__qualname__', '__orig_bases__', '__parameters__', '__match_args__',
       '__static_attributes__', '__firstlineno__', '__annotate_func__', '__annotations_cache__'}
ADDR = re.compile(r' at 0x[0-9a-f]+')
def brief(v, X, depth=0):
    if v is X: return 'X'
    if isinstance(v, type): return ['class', v.__name__, v.__qualname__, sorted(k for k in v.__dict__ if k not in IGN) if v.__module__ == 'vt_nomod' else v.__module__]
    if isinstance(v, types.FunctionType): return ['function', v.__name__, v.__qualname__, v.__module__, repr(v.__defaults__), repr(v.__doc__), repr(v.__kwdefaults__), sorted(k for k in v.__dict__ if k != '__wrapped__'), brief(v.__wrapped__, X, depth + 1) if hasattr(v, '__wrapped__') and depth < 3 else None, v.__code__.co_code.hex(), repr(sorted(v.__annotations__)),
                                                  [brief(c.cell_contents, X, depth + 1) for c in v.__closure__ or ()] if depth < 3 else None, bool(getattr(v, '__isabstractmethod__', False))]
    if isinstance(v, property): return ['property', v.__doc__] + [brief(f, X, depth + 1) for f in (v.fget, v.fset, v.fdel)]
    if isinstance(v, (staticmethod, classmethod)): return [type(v).__name__, brief(v.__func__, X, depth + 1)]
    if isinstance(v, functools.cached_property): return ['cached_property', v.attrname, v.__doc__, brief(v.func, X, depth + 1)]
    if isinstance(v, functools._lru_cache_wrapper): return ['lru', v.cache_parameters(), brief(v.__wrapped__, X, depth + 1)]
    if isinstance(v, functools.partialmethod): return ['partialmethod', brief(v.func, X, depth + 1), repr(v.args)]
    if isinstance(v, functools.singledispatchmethod): return ['singledispatchmethod', brief(v.func, X, depth + 1)]
    if isinstance(v, (vt_clsmod.Descr, vt_clsmod.SetName)): return [type(v).__name__, sorted(v.__dict__.items(), key=str)]
    if isinstance(v, types.MemberDescriptorType): return ['member', v.__name__, v.__objclass__ is X]
    if isinstance(v, (types.GetSetDescriptorType,)): return ['getset', v.__name__]
    if isinstance(v, dict): return ['dict', sorted([str(k), brief(w, X, depth + 1)] for k, w in v.items())]
    if isinstance(v, (list, tuple)): return [type(v).__name__, [brief(w, X, depth + 1) for w in v]]
    if isinstance(v, dataclasses.Field): return ['Field', v.name, repr(v.type), repr(v.default)[:40], v.repr, v.compare, str(v._field_type)]
    if isinstance(v, (types.MappingProxyType,)): return ['mp', sorted(map(str, v))]
    if isinstance(v, (set, frozenset)): return [type(v).__name__, sorted(map(repr, v))]
    return [type(v).__name__, ADDR.sub('', repr(v))]

def att(f, *a):
    try:
        r = f(*a)
        if inspect.isgenerator(r): r = list(r)
        if inspect.iscoroutine(r):
            try: r.send(None)
            except StopIteration as e: r = e.value
        return ADDR.sub('', repr(r)) if not isinstance(r, weakref.ref) else 'ref'
    except Exception as e: return '%s: %s' % (type(e).__name__, ADDR.sub('', str(e)))

def describe(X):
    X.__dict__.get('x')
    o = dict(name=X.__name__, qualname=X.__qualname__, module=X.__module__, doc=X.__doc__, meta=[type(X).__name__, type(X).__module__],
             bases=[b.__name__ for b in X.__bases__], mro=[[b.__name__, b.__module__] for b in X.__mro__], slots=repr(X.__dict__.get('__slots__', 'no')),
             own={k: brief(v, X) for k, v in X.__dict__.items() if k not in IGN and k not in ('__annotations__', '__abstractmethods__')},
             annotations=ADDR.sub('', repr(X.__dict__.get('__annotations__'))), abstract=sorted(getattr(X, '__abstractmethods__', ()) or ()) if isinstance(X, abc.ABCMeta) else None,
             weakref=X.__weakrefoffset__ != 0, hasdict=X.__dictoffset__ != 0, basic=X.__basicsize__, flags=X.__flags__ & (1 << 20 | 1 << 10),
             orig_bases=ADDR.sub('', repr(X.__dict__.get('__orig_bases__'))) if '__orig_bases__' in X.__dict__ and 'B1' not in repr(X.__dict__['__orig_bases__']) else '__orig_bases__' in X.__dict__,
             params=repr(X.__dict__.get('__parameters__')), match=repr(X.__dict__.get('__match_args__')))
    if isinstance(X, abc.ABCMeta):
        o['virtual'] = [att(issubclass, t, X) for t in (complex, bytes, str)]
        o['registry'] = sorted(getattr(r(), '__name__', '?') for r in abc._get_dump(X)[0]) if hasattr(abc, '_get_dump') else None
    o['shared'] = X.__dict__.get('sh1') is X.__dict__.get('sh2')
    o['metahello'] = att(lambda: X.hello())
    o['cgi'] = att(lambda: X[int])
    o['classcalls'] = [att(lambda: X.static(1)), att(lambda: X.clsm(2)), att(lambda: X.descr), att(lambda: X.sn), att(lambda: X.mut), att(lambda: X.alias(3))]
    o['sub'] = att(lambda: getattr(type(X)('Sub', (X,), {}), 'subbed', None))
    if dataclasses.is_dataclass(X): o['fields'] = [brief(f, X) for f in dataclasses.fields(X)]; o['dcparams'] = repr(X.__dataclass_params__)
    if hasattr(X, '_fields'): o['nt'] = [X._fields, sorted(X._field_defaults.items())]
    if isinstance(X, enum.EnumMeta): o['members'] = [[n, repr(m.value)] for n, m in X.__members__.items()]
    return o

def make(X, fam):
    if fam == 'int': return X(5)
    if fam in ('list', 'tuple'): return X([1, 2])
    if fam in ('dict', 'mixin', 'userdict'): return X({'k': 1})
    if fam == 'exc': return X('boom')
    if fam in ('ntuple', 'NT'): return X(1, 'z')
    if fam in ('dataclass', 'dcslots'): return X(1, [2])
    if fam == 'frozen': return X(1, 2)
    if fam == 'enum': return X.RED
    if fam == 'typed': return X(a=1)
    return X()

def behave(x, X):
    o = {}
    o['type'] = type(x) is X or type(x) is dict
    o['dict'] = brief(getattr(x, '__dict__', None), X) if not isinstance(getattr(x, '__dict__', None), dict) or True else None
    for n, f in (('method', lambda: x.method(4)), ('sup', lambda: x.sup()), ('sup2', lambda: x.sup2()), ('prop', lambda: x.prop), ('setprop', lambda: x.setprop), ('static', lambda: x.static(1)),
                 ('clsm', lambda: x.clsm()), ('cached', lambda: x.cached), ('descr', lambda: x.descr), ('inner', lambda: x.Inner().z()), ('lam', lambda: x.lam()), ('priv', lambda: x.usepriv()),
                 ('call', lambda: x(3)), ('dyn', lambda: x.dynamic), ('nodyn', lambda: x.nothing_here), ('s1', lambda: x.s1), ('s2', lambda: x.s2), ('useps', lambda: x.useps()), ('basem', lambda: x.basem()), ('gen', lambda: x.gen()),
                 ('coro', lambda: x.coro()), ('add', lambda: x + 1), ('len', lambda: len(x)), ('item', lambda: x[0]), ('pm', lambda: x.pm()), ('sn', lambda: x.sn), ('usecls', lambda: x.usecls()),
                 ('eq', lambda: x == x), ('hash', lambda: hash(x) == 77), ('str', lambda: str(x)), ('repr', lambda: repr(x)), ('weak', lambda: weakref.ref(x)), ('sd', lambda: (x.sd('a'), x.sd(1))), ('bs', lambda: x.bs), ('gmeth', lambda: x.gmeth()),
                 ('args', lambda: x.args), ('fa', lambda: (x.fa, x.fb, x.fc)), ('setz', lambda: setattr(x, 'zz', 1)), ('absm', lambda: x.absm()), ('dp1', lambda: x.dp1), ('dp6', lambda: x.dp6), ('wr', lambda: x.wr()), ('lru', lambda: x.lru(2)), ('blen', lambda: x.blen([])), ('ag', lambda: x.ag(1))):
        o[n] = att(f)
    if hasattr(x, '__dict__') and isinstance(x.__dict__, dict): x.__dict__.pop('zz', None)
    return o

def prepare(x, mem):
    for n in ('s1', 's2', 'bs'):
        try: setattr(x, n, 'slot ' + n)
        except Exception: pass
    for n, v in (('zattr', 'z'),):
        try: setattr(x, n, v)
        except Exception: pass
    if 'setprop' in mem:
        try: x.setprop = 'q!'
        except Exception: pass

def observe_bytes(data, inst):
    r = dill.loads(data, ignore=True)
    X, x, B1 = r
    o = describe(X)
    if inst: o['inst'] = behave(x, X)
    return o

fresh = None
def norm(x):
    import json
    return json.loads(json.dumps(x))
def run(sc):
    global fresh
    fam, mem = sc['fam'], sc['mem']
    X, B1, src = build(fam, mem)
    inst = sc['inst']
    x = None
    if inst: x = make(X, fam); prepare(x, mem)
    dump = dill.dumps
    want0 = norm(describe(X))
    # the driver's class is the specified one
    if fam not in ('pep695', 'ntuple', 'NT', 'typed', 'enum', 'dataclass', 'frozen', 'dcslots', 'protocol'):
        own = {k for k in X.__dict__ if k not in IGN - {'__annotations__'}} - {'__abstractmethods__', '__hash__', '__subclasshook__'} | ({'__hash__'} if 'eqhash' in mem else set())
        own = {k for k in own if not (k == '__parameters__')}
        if own != set(sc['own']): raise RuntimeError('driver and specification disagree on own names: %s %s' % (sorted(own ^ set(sc['own'])), src))
    if [b.__name__ for b in X.__bases__] != sc['bases'] or type(X).__name__ != sc['meta'] or X.__name__ != sc['name']:
        raise RuntimeError('driver and specification disagree: %s %s %s' % (X.__bases__, type(X), X.__name__))
    for opt in sc['opts']:
        where = ' [family %s, members %s, options %s]' % (fam, mem, opt)
        x1 = None if opt['opt']['protocol'] < 2 and SLOTTED & {fam, *mem} else x  # (the standard protocols 0 and 1 have no slots)
        inst = x1 is not None
        o = dict(opt['opt'])
        if fam in ('dataclass', 'frozen', 'dcslots'): o['protocol'] = max(2, o['protocol'])  # (neither have the fields)
        s = dump([X, x1, B1], **o)
        w = dict(want0)
        if opt['where'] == 'same':
            r = dill.loads(s, ignore=True)
            if r[0] is X: return 'the copy is the original class' + where
            if 'mutable' in mem and r[0].mut is X.mut: return 'a class attribute is shared with the original' + where
            got = norm(describe(r[0]))
            if inst: gi = norm(behave(r[1], r[0]))
        else:
            if fresh is None:
                import freshproc
                fresh = freshproc.Fresh('classes')
            got = fresh.call('observe_bytes', s, inst)
            if 'error' in got: return 'loading in a fresh process: ' + got['error'] + where
            gi = got.pop('inst', None)
        if got != w:
            return 'the class differs (original, copy): %s%s\n%s' % (str({k: (w.get(k), got.get(k)) for k in w if w.get(k) != got.get(k)})[:700], where, src)
        if inst:
            # behave() may fill caches: use a fresh twin of the original's state for comparison
            X2, B1_2, _ = build(fam, mem); x2 = make(X2, fam); prepare(x2, mem)
            if 'reduce' in mem: x2 = vt_clsmod.rebuild(X2, 'reduced')
            if 'state' in mem: x2 = make(X2, fam); x2.__dict__.clear(); x2.__setstate__({'st': 1})
            wi = norm(behave(x2, X2))
            if gi != wi:
                return 'instances behave differently (original, copy): %s%s\n%s' % (str({k: (wi.get(k), gi.get(k)) for k in wi if wi.get(k) != gi.get(k)})[:700], where, src)
    if norm(describe(X)) != want0: return 'pickling changed the class %s %s' % (fam, mem)
    return None
