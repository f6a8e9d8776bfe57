"""C23 driver: operations in threads that are stopped and resumed at given points"""
import collections, contextlib, dataclasses, functools, gc, io, json, logging, os, pickle, random, re, sys, tempfile, threading, types, warnings
import dill, dill.detect, dill.source, dill.session, dill.temp
from dill import _dill
import vt_thrmod as M
FORK = True
ROOT = os.path.dirname(os.path.abspath(dill.__file__)) + os.sep
SCRATCH = None
def src(code, name='g', **g):
    g.update(__builtins__=__builtins__, __name__='vt_thr_nowhere'); exec(code, g); return g[name]
def fn():
    return src('K = 5\ndef h(x): return x + K\nclass A:\n  def m(self): return h(1)\ndef g(a, b=3):\n  s = [i * b for i in range(a)]\n  class Q:\n    z = h(a)\n    def r(self): return K\n  return s, Q().r(), Q.z\n')
def closure():
    def outer(n):
        box = [n]
        def inc(d): box[0] += d; return box[0]
        def get(): return box[0]
        return inc, get
    return outer(4)
def cls():
    return src('import abc\nclass B(abc.ABC):\n  "doc"\n  __slots__ = ("x", "__dict__")\n  k = [1]\n  def m(self, y): return (self.k, y)\n  @property\n  def p(self): return 7\n  @classmethod\n  def c(cls): return cls.__name__\n  @staticmethod\n  def s(v): return v\n', 'B')
def inst():
    o = cls()(); o.x = 1; o.w = 'w'; return o
def useclos(c): return c[1](), c[0](3), c[1]()
def usecls(c): o = c(); return o.m(2), o.p, c.c(), c.s(3), c.__doc__, sorted(vars(o))
def detached():
    return src('def g(n): return 1 if n < 2 else n * g(n - 1)\n')
def nt(): return collections.namedtuple('Pt', 'x y', defaults=[5])
def dc():
    @dataclasses.dataclass(order=True)
    class P:
        a: int
        b: list = dataclasses.field(default_factory=list)
    return P
def gen():
    def g(): yield 1
    return [fn(), g()]
def mod():
    m = types.ModuleType('vt_thr_run'); exec('v = [1]\ndef f(): return v', m.__dict__); return m
def lots(): return [(i, {str(i): [i] * 3}) for i in range(30)]
def live(): return dict(l=threading.Lock(), q=collections.deque([1, 2], 5), p=functools.partial(max, 3), s=slice(1, 2), w=types.MappingProxyType({1: 2}), c=types.CellType(3))
def rec():
    return src('A = [1]\ndef e(n): return n == 0 or o(n - 1)\ndef o(n): return n != 0 and e(n - 1)\ndef g(n): return e(n), A\n')
# kind -> (make, options, use)
KIND = dict(fn=(fn, {}, lambda g: g(3)), recfn=(fn, dict(recurse=True), lambda g: g(3)), closure=(closure, {}, useclos), cls=(cls, {}, usecls), inst=(inst, {}, lambda o: (o.x, o.w, usecls(type(o)))), fact=(detached, {}, lambda g: g(5)), mutual=(rec, dict(recurse=True), lambda g: (g(4), g(3))), nt=(nt, {}, lambda c: (c(1), c._fields, c.__name__)), dc=(dc, {}, lambda c: (repr(c(1)), c(1) < c(2))),
    lam=(lambda: [lambda x, y=i: x + y for i in range(4)], {}, lambda l: [f(1) for f in l]), lots=(lots, {}, lambda x: x), live=(live, {}, lambda d: (sorted(d), d['l'].locked(), list(d['q']), d['p'](1), d['s'], dict(d['w']), d['c'].cell_contents)), mod=(mod, {}, lambda m: (m.__name__, m.f(), m.f() is m.v)), byref=(lambda: [M.K, M.f, M.K(2), M.NT(1, 2), M.D()], {}, lambda l: (l[0] is M.K, l[1] is M.f, l[2].v, l[3], l[4])),
    gen=(gen, {}, None), code=(lambda: fn().__code__, {}, lambda c: (c.co_name, c.co_firstlineno, list(c.co_lines())[:3])), view=(lambda: [{1: 2}.keys(), {3: 4}.items()], {}, lambda v: [list(x) for x in v]))
def blob(k):
    make, kw, use = KIND[k]; return dill.dumps(make(), 4, **kw)
def file(): return os.path.join(SCRATCH, 'f%d' % next(COUNT))
import itertools
COUNT = itertools.count()
class Op:
    """prepare (in the main thread), run (in its own), judge (afterwards)"""
    def __init__(self, name):
        self.name = name; kind, _, k = name.partition('_'); self.kind, self.k = kind, k
        self.judge = lambda r: r
        if kind == 'd':
            make, kw, use = KIND[k]; o = make()
            self.run = lambda: dill.dumps(o, 4, **kw); self.judge = lambda r: repr(use(dill.loads(r)))
        elif kind == 'dp':
            make, kw, use = KIND[k]; o = make(); f = io.BytesIO()
            def run(): p = dill.Pickler(f, 4, **kw); p.dump(o); return f.getvalue()
            self.run = run; self.judge = lambda r: repr(use(dill.loads(r)))
        elif kind == 'l':
            b = blob(k); use = KIND[k][2]
            self.run = lambda: dill.loads(b); self.judge = lambda r: repr(use(r))
        elif name == 'u_import':
            sys.path.insert(0, SCRATCH)
            n = 'vt_thr_imp%d' % next(COUNT)
            with open(os.path.join(SCRATCH, n + '.py'), 'w') as f: f.write('import string\nclass C:\n  v = 1\nx = [C]\n')
            b = b'\x80\x04\x8c' + bytes([len(n)]) + n.encode() + b'\x8c\x01C\x93.'
            self.run = lambda: dill.loads(b); self.judge = lambda r: (r.v, r.__name__)
        elif name == 'u_globals': g = fn(); self.run = lambda: sorted(dill.detect.nestedglobals(g))
        elif name == 'u_globalvars': g = rec(); self.run = lambda: sorted(dill.detect.globalvars(g, recurse=True))
        elif name == 'u_freevars': g = closure()[0]; self.run = lambda: dill.detect.freevars(g)
        elif name == 'u_source': self.run = lambda: dill.source.getsource(M.K)
        elif name == 'u_import2': self.run = lambda: dill.source.importable(M.f)
        elif name == 'u_tempio': self.run = lambda: dill.temp.loadIO(dill.temp.dumpIO(lots()))
        elif name == 'u_copy': o = fn(); self.run = lambda: dill.copy(o); self.judge = lambda r: repr(r(3))
        elif name in ('s_dump', 's_dumpref'):
            m = types.ModuleType('vt_thr_sess_%d' % next(COUNT)); exec('import json, os.path as p\nv = [1]\ndef f(): return v, K\nclass K: pass\nfrom collections import deque\n', m.__dict__); m.__loader__ = None
            f = io.BytesIO(); ref = name == 's_dumpref'
            def run(): dill.dump_module(f, module=m, refimported=ref); return f.getvalue()
            def judge(r):
                n = dill.load_module(io.BytesIO(r)); return (n.f()[0], n.f()[0] is n.v, n.deque is collections.deque, n.json is json)
            self.run, self.judge = run, judge
        elif name == 's_load':
            m = types.ModuleType('vt_thr_sess2_%d' % next(COUNT)); exec('v = [1]\ndef f(): return v\n', m.__dict__)
            f = io.BytesIO(); dill.dump_module(f, module=m); b = f.getvalue()
            self.run = lambda: dill.load_module(io.BytesIO(b)); self.judge = lambda n: (n.f(), n.f() is n.v, n.__name__[:12])
        elif name == 's_asdict':
            m = types.ModuleType('vt_thr_sess3_%d' % next(COUNT)); exec('v = [1]\ndef f(): return v\n', m.__dict__)
            p = file(); dill.dump_module(p, module=m)
            self.run = lambda: dill.load_module_asdict(p); self.judge = lambda d: (d['f'](), d['f']() is d['v'], d['__name__'][:12])
        # other users of the process
        elif name == 'x_print':
            def run():
                for i in range(5): point(); print('hello', i); sys.stderr.write('x')
                return 0
            self.run = run
        elif name == 'x_warn':
            def run():
                n = 0
                for i in range(5):
                    point()
                    try: warnings.warn('old', DeprecationWarning); n += 100
                    except DeprecationWarning: n += 1
                return n
            self.run = run
        elif name == 'x_pickle':
            o = lots(); self.run = lambda: [point(), pickle.dumps(o), point(), pickle._dumps(o), point()][1::2]
            self.judge = lambda r: [pickle.loads(x) for x in r] == [o, o]
        elif name == 'x_import':
            import importlib
            def run():
                for i in range(3): point(); importlib.import_module(names[i])
                return 0
            names = ['vt_thr_x%d' % next(COUNT) for i in range(3)]
            sys.path.insert(0, SCRATCH)
            for n in names:
                with open(os.path.join(SCRATCH, n + '.py'), 'w') as f: f.write('a = b = 1\n')
            self.run = run
        elif name == 'x_gc':
            def run():
                point(); gc.collect()
                return 0
            self.run = run
        elif name == 'x_settings':
            self.run = lambda: [dict(dill.settings) for i in range(3) if not point()]
def point(): pass
OPS = ['d_' + k for k in KIND] + ['dp_fn', 'dp_cls'] + ['l_' + k for k in KIND if k != 'gen'] + ['u_import', 'u_globals', 'u_globalvars', 'u_freevars', 'u_source', 'u_import2', 'u_tempio', 'u_copy', 's_dump', 's_dumpref', 's_load', 's_asdict', 'x_print', 'x_warn', 'x_pickle', 'x_import', 'x_settings', 'x_gc']
def snap():
    """process-wide state another thread could notice"""
    return dict(filters=[repr(x) for x in warnings.filters], fid=id(warnings.filters), show=id(warnings.showwarning), out=id(sys.stdout), err=id(sys.stderr), inp=id(sys.stdin), settings=dict(dill.settings), level=_dill.logger.logger.level if hasattr(_dill.logger, 'logger') else 0, handlers=list(logging.getLogger('dill').handlers), path=list(sys.path), rec=sys.getrecursionlimit(), gc=gc.isenabled(), cwd=os.getcwd(), main=id(sys.modules['__main__']), umain=id(dill.Unpickler._main) if hasattr(dill.Unpickler, '_main') else 0, pdisp=len(pickle._Pickler.dispatch), sess=(dill.Pickler._session, dill.Unpickler._session))
def mods(): return set(sys.modules), set(map(repr, _dill.Pickler.dispatch))
class Runner(threading.Thread):
    def __init__(self, op, watch=None):
        super().__init__(daemon=True); self.op, self.watch = op, watch; self.n = 0; self.target = 0; self.go = threading.Semaphore(0); self.at = threading.Event(); self.over = False; self.res = None
    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.watch is not None: self.watch(self.n)
            elif self.n >= self.target: self.stop()
        return self.local
    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if f.startswith(ROOT) or frame.f_code is point.__code__ else None
    def stop(self):
        self.at.set(); self.go.acquire()
    def run(self):
        self.go.acquire()
        sys.settrace(self.glob)
        try: r = ('ok', self.op.run())
        except Exception as e: r = ('raises', '%s: %s' % (type(e).__name__, str(e)[:150]))
        finally: sys.settrace(None)
        self.res = r; self.over = True; self.at.set()
def judge(op, res):
    if res[0] == 'ok':
        try: return ('ok', repr(op.judge(res[1])))
        except Exception as e: return ('unusable', '%s: %s' % (type(e).__name__, str(e)[:150]))
    return ('raises', res[1].split(':')[0])
@contextlib.contextmanager
def scratch():
    global SCRATCH
    with tempfile.TemporaryDirectory() as d:
        SCRATCH = d; path = list(sys.path); old = sys.stdout, sys.stderr
        with warnings.catch_warnings():
            warnings.resetwarnings(); warnings.simplefilter('error', DeprecationWarning)
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try: yield
            finally: sys.stdout, sys.stderr = old; sys.path[:] = path
def alone(name, watch=None):
    op = Op(name); r = Runner(op, watch or (lambda n: None)); r.go.release(); r.start(); r.join(30)
    return r.n, judge(op, r.res) if r.over else ('stuck', '')
def profile(name):
    """number of points; those at which something of the process is changed; the first and the last visit of each line"""
    with scratch():
        alone(name)   # (caches are filled, modules imported)
        op = Op(name); s0 = [None, None]; dirty = set(); lines = {}
        def watch(n):
            s = snap(); s['mods'] = {k: id(v) for k, v in list(sys.modules.items())}
            if s0[0] is None: s0[0] = s
            if s != s0[0]: dirty.add(n)
            f = sys._getframe(2); w = (f.f_code.co_filename, f.f_lineno); lines.setdefault(w, [n, n])[1] = n
        n = alone(name, watch)[0]
    return n, sorted(dirty), sorted({x for v in lines.values() for x in v})
def output(ops): return ''.join('hello %d\n' % i for i in range(5)) if 'x_print' in ops else ''
def run(sc):
    if 'profile' in sc: return {'trace': list(profile(sc['profile']))}
    names, sched = sc['ops'], sc['sched']
    with scratch():
        q0 = mods()[0]; want = [alone(n)[1] for n in names]; q1 = mods()[0]
        if any(w[0] == 'stuck' for w in want): return 'an operation hangs alone: %s' % want
        sys.stdout, sys.stderr = o, e = io.StringIO(), io.StringIO()
        ops = [Op(n) for n in names]; before = snap(); m0 = mods()
        R = [Runner(op) for op in ops]
        for r in R: r.target = 1; r.start()
        stuck = 0
        for t, p in sched:
            r = R[t - 1]
            if r.over: continue
            r.target = p; r.at.clear(); r.go.release()
            if not r.at.wait(1.0): stuck += 1     # it waits for a lock another one holds
        for r in R: r.target = 1 << 60; r.go.release()
        for r in R: r.join(10)
        if not all(r.over for r in R): return 'a thread never ends: %s' % [(n, r.over) for n, r in zip(names, R)]
        after = snap(); m1 = mods(); out = o.getvalue(), e.getvalue()
        got = [judge(op, r.res) for op, r in zip(ops, R)]
        detail = [r.res[1] if r.res[0] == 'raises' else '' for r in R]
    for t, (n, g, w) in enumerate(zip(names, got, want)):
        if g != w: return '%s gives %s %s, alone %s (with %s)' % (n, g, detail[t], w, [x for i, x in enumerate(names) if i != t])
    new = [{re.sub(r'\d+', '#', x) for x in b - a} for a, b in ((q0, q1), (m0[0], m1[0]))]
    if {x for x in new[1] if 'vt_' in x} != {x for x in new[0] if 'vt_' in x} or not new[1] <= new[0]: return 'modules after %s: %s, one after another %s' % (names, sorted(new[1]), sorted(new[0]))
    if before != after: return 'the process is changed by %s: %s' % (names, sorted(k for k in before if before[k] != after[k]))
    if out != (output(names) * names.count('x_print'), 'x' * 5 * names.count('x_print')) and names.count('x_print') < 2: return 'output %r of %s' % (out, names)
def names(): return OPS
