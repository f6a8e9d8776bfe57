"""C25 driver: writes and reads streams of objects of every kind and records their opcodes"""
import dill, pickle, pickletools, io, os, sys, tempfile, types, abc, enum, functools, collections, dataclasses, threading, weakref, itertools, zlib, warnings, logging, decimal, datetime, re
import __main__
from dill import _objects
try: import numpy
except ImportError: numpy = None
FORK = True
warnings.simplefilter('ignore')
exec('def mainf(x, y=2): return x + y + glob\nglob = 3\nclass MainC:\n    a = 1\n    def m(self): return MainC\n', __main__.__dict__)
OPT = {'plain': {}, 'recurse': dict(recurse=True), 'byref': dict(byref=True), 'fmode': dict(fmode=2)}
def ns(code, name='vt_nowhere'):
    d = {'__name__': name}; exec(code, d); return d
class Meta(type): pass
def own():
    o = {}
    def add(**k): o.update(k)
    add(int=5, int2=70000, neg=-1, big=1 << 100, huge=-(1 << 3000), float=1.5, none=None, true=True, false=False, complex=2j, str='abc', empty='', uni='\u20ac\n\\x\U0001f600\ud800', line="a'b\"\n\r\\", longs='x' * 300,
        verylong='y' * 70000, bytes=b'ab\x00\xff', noby=b'', lbytes=b'z' * 300, llbytes=b'w' * 70000, barr=bytearray(b'abc'), lbarr=bytearray(b'q' * 70000), dec=decimal.Decimal('1.5'), date=datetime.date(2020, 1, 2), pat=re.compile('a+'))
    l = [1, 2]; rl = [1]; rl.append(rl); rd = {}; rd[1] = rd; rt = ([],); rt[0].append(rt); rs = {1}
    class K: pass
    k = K(); k.s = {k}
    add(list=[1, 'a', None], elist=[], one=[7], many=list(range(2500)), tup0=(), tup1=(1,), tup2=(1, 2), tup3=(1, 2, 3), tup4=(1, 2, 3, 4), dict={'a': 1, 2: 'b'}, dict1={1: 2}, edict={}, mdict={i: str(i) for i in range(2100)}, set={1, 2, 3}, mset=set(range(1300)),
        fset=frozenset('ab'), shared=[l, l, (l,), {'k': l}], reclist=rl, recdict=rd, rectup=rt, recset=k, nested=[[[[({1: [()]},)]]]], eset=set())
    n = ns('''
import os
g = 1
def simple(a, b=2, *c, d=4, **e): return a, b, c, d, e, g
def ann(a: int) -> str: "doc"
def gen(): yield g
def odd(n): return n and even(n - 1)
def even(n): return not n or odd(n - 1)
def outer(x):
    def inner(): return x, inner
    return inner
def two(x):
    def a(): return x, b
    def b(): return x, a
    return a
class Base:
    z = 1
    def m(self): return self
class Derived(Base):
    def m(self): return super().m()
    @property
    def p(self): return 1
    @classmethod
    def c(cls): return cls
    @staticmethod
    def s(): return Derived
class Slots:
    __slots__ = ('a', 'b')
class Self:
    def me(self): return Self, __class__
''')
    for name in ('simple', 'ann', 'gen', 'odd', 'Base', 'Derived', 'Self', 'Slots'): o[name] = n[name]
    n['simple'].__dict__['attr'] = 1; n['ann'].self = n['ann']
    add(closure=n['outer']([1]), mutual=n['two'](5), lam=ns('f = lambda q: q')['f'], code=n['gen'].__code__, inst=n['Derived'](), bound=n['Derived']().m, boundc=n['Derived'].c, inst2=[n['Base'](), n['Base']()], tog=[n['Base'], n['Derived'](), n['Derived'], n['odd'], n['even']])
    si = n['Slots'](); si.a = 1; add(slotinst=si)
    nt = collections.namedtuple('NT', 'x y'); dc = dataclasses.make_dataclass('DC', [('x', int), ('y', list, dataclasses.field(default_factory=list))])
    class AB(abc.ABC):
        @abc.abstractmethod
        def m(self): pass
    class Virt: pass
    AB.register(Virt)
    class Me(metaclass=Meta): q = 1
    add(nt=nt, nti=nt(1, 2), dc=dc, dci=dc(3), dcfield=dc.__dataclass_fields__['y'], AB=AB, meta=Me, metai=Me(), enummod=re.RegexFlag.A, exc=ValueError(1, 'x'), gen_alias=list[int], union=int | str)
    add(partial=functools.partial(n['simple'], 1, b=2), prop=property(n['ann']), sm=staticmethod(n['gen']), cm=classmethod(n['gen']), cached=functools.lru_cache(3)(n['gen']), view={1: 2}.keys(), vals={1: 2}.values(), items={1: 2}.items(), proxy=types.MappingProxyType({1: 2}), slc=slice(1, 2, 3), rng=range(3), ell=Ellipsis, notimp=NotImplemented,
        tnone=type(None), tell=type(Ellipsis), tnot=type(NotImplemented), tint=int, tfunc=types.FunctionType, tcode=types.CodeType, tgen=types.GeneratorType, tmod=types.ModuleType, tview=type({}.keys()), builtin=len, bmeth=[].append, mdesc=str.join, wrapper=object.__init__, mwrap=[].__len__, getset=types.FunctionType.__code__)
    ew = n['Base']()
    add(lock=threading.Lock(), rlock=threading.RLock(), wref=[weakref.ref(ew), ew], dead=weakref.ref(n['Base']()), wproxy=[weakref.proxy(ew), ew], cell=(lambda x: lambda: x)(1).__closure__[0], ecell=types.CellType(), sio=io.StringIO('abc'), bio=io.BytesIO(b'abc'), sup=super(n['Derived'], n['Derived']()), od=collections.OrderedDict(a=1), dd=collections.defaultdict(list, a=[1]), deque=collections.deque([1], 3), counter=itertools.count(3))
    rc = types.CellType(); rc.cell_contents = [rc]
    mod = sys.modules['vt_made'] = types.ModuleType('vt_made'); mod.x = 1; mod.f = n['simple']; mod.self = mod
    add(rcell=rc, module=os, submod=os.path, made=mod, moddict=os.__dict__, main=__main__, maindict=__main__.__dict__, mainf=__main__.mainf, MainC=__main__.MainC, maini=__main__.MainC(), mainm=__main__.MainC().m, mains=[__main__.MainC, __main__.mainf, __main__.__dict__, __main__.MainC()],
        logger=logging.getLogger('vt.x'), anyone=[n['simple'], n['simple'], n['Base'], [n['Base']()], n], big1=[n['outer'](i) for i in range(40)], bigmix=['s' * 65536, b't' * 65536, n['Derived'](), 's' * 10], frame=[list(range(i, i + 300)) for i in range(0, 9000, 300)])
    if numpy:
        add(nparr=numpy.arange(6).reshape(2, 3), npf=numpy.asfortranarray(numpy.ones((3, 2))), npscalar=numpy.float64(1.5), npdtype=numpy.dtype('i4'), npufunc=numpy.add)
    return o
LIB = 'builtins types enum abc functools collections dataclasses typing weakref threading io itertools operator contextlib ctypes logging sys'.split()
def lib():
    r = []
    for m in LIB:
        for k, v in sorted(vars(__import__(m)).items()):
            if not (k[:2] == '__' and m != 'builtins') and k not in ('copyright', 'credits', 'exit', 'quit', '_', 'In', 'Out') and (isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)) or m in ('builtins', 'dataclasses', 'typing', 'types')):
                r.append('lib:%s:%s' % (m, k))
    return r
def kinds():
    return sorted(own()) + lib()
def build(names):
    d = own(); out = {}
    cat = None
    for k in names:
        if k.startswith('cat:'):
            if cat is None:
                cat = dict(_objects.succeeds, **_objects.failures)
            out[k] = cat[k[4:]]
        elif k.startswith('lib:'): out[k] = getattr(__import__(k.split(':')[1]), k.split(':')[2])
        else: out[k] = d[k]
    return out
class Lenient:
    def find_class(self, module, name):
        if module == '__builtin__' and name in ('__main__', 'NoneType'): return __main__.__dict__ if name == '__main__' else type(None)
        return super().find_class(module, name)
class StockC(Lenient, pickle.Unpickler): pass
class StockPy(Lenient, pickle._Unpickler): pass
def ops(b):
    r = []
    for op, arg, pos in pickletools.genops(b):
        n = op.name
        if n in ('GET', 'PUT', 'BINGET', 'BINPUT', 'LONG_BINGET', 'LONG_BINPUT', 'PROTO', 'FRAME'): a = int(arg)
        else: a = 0
        r.append([n, a, pos])
        if n == 'STOP': break
    return dict(size=len(b), ops=r)
BASIC = (int, float, complex, str, bytes, bytearray, type(None), bool, range, slice, type(Ellipsis), decimal.Decimal, datetime.date)
def same(x, y, k):
    if type(x) in BASIC: return type(x) is type(y) and x == y
    if k in ('weakproxy', 'wproxy'): return type(x) is type(y)
    tx, ty = type(x), type(y)
    if (tx.__module__, tx.__qualname__) != (ty.__module__, ty.__qualname__): return False
    if isinstance(x, (types.FunctionType, type)): return x.__qualname__ == y.__qualname__
    if tx in (list, tuple, set, dict): return len(x) == len(y) or k in ('anyone', 'maindict')
    return True
def heap(sc):
    import graph
    obj = graph.build(sc['h'], 'vt_nomod')
    traces = []
    for kw in sc['runs']:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                b = dill.dumps(obj[0], **kw)
        except Exception: continue       # (C01 says what must succeed)
        traces.append(dict(proto=kw['protocol'], progs=[ops(b)]))
    return {'trace': traces}
def run(sc):
    if 'h' in sc: return heap(sc)
    names = [h['o'] for h in sc['hist'] if h['do'] == 'write']
    objs = build(set(names))
    proto, kw = sc['proto'], OPT[sc['opt']]
    fd, path = tempfile.mkstemp(dir='.'); os.close(fd)
    f = open(path, 'w+b') if zlib.crc32(repr(sc).encode()) & 1 else io.BytesIO()
    ends = [0]; rpos = 0; got = []
    session = sc['mode'] == 'session'
    P = dill.Pickler(f, proto, **kw) if session else None
    U = None
    try:
        for i, h in enumerate(sc['hist']):
            where = ' in step %d (%s %s by %s)' % (i + 1, h['do'], h['o'], h['how'])
            if h['do'] == 'write':
                f.seek(ends[-1]); o = objs[h['o']]
                try:
                    if h['how'] == 'same': P.dump(o)
                    elif h['how'] == 'dump': dill.dump(o, f, proto, **kw)
                    elif h['how'] == 'pickler': dill.Pickler(f, proto, **kw).dump(o)
                    else: f.write(dill.dumps(o, proto, **kw))
                except (pickle.PicklingError, TypeError, AttributeError, RecursionError) as e: return {'skip': repr(e)[:100]}   # (other properties say what must succeed)
                ends.append(f.tell())
            else:
                f.seek(rpos); k = len(got)
                try:
                    how = h['how']
                    if how == 'same':
                        U = U or dill.Unpickler(f); o = U.load()
                    elif how == 'load': o = dill.load(f)
                    elif how == 'loads': o = dill.loads(f.read(ends[k + 1] - rpos))
                    elif how == 'unpickler': o = dill.Unpickler(f).load()
                    elif how == 'stock': o = StockC(f).load()
                    else: o = StockPy(f).load()
                except Exception as e: return 'reading fails with %r' % e + where
                rpos = f.tell()
                if rpos != ends[k + 1]: return 'the read stops at byte %d, the object ends at byte %d' % (rpos, ends[k + 1]) + where
                orig = objs[h['o']]
                if not same(orig, o, h['o']): return 'read %.80r instead of %.80r' % (o, orig) + where
                if h.get('same') and type(o) not in BASIC and o is not got[h['same'] - 1]: return 'the object read before came back as another object' + where
                got.append(o)
        f.seek(0); data = f.read()
    finally:
        f.close(); os.unlink(path)
    progs = [ops(data[a:b]) for a, b in zip(ends, ends[1:])]
    if session: return {'trace': [dict(proto=proto, progs=progs)]}
    return {'trace': [dict(proto=proto, progs=[p]) for p in progs]}
