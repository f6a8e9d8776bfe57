"""C18 driver: objects that misbehave as told, judged, copied and checked"""
import io, json, zlib, functools, types, random, threading, os, sys, tempfile, warnings, copy as _copy, contextlib
import dill
import vt_verdictmod as T
FORK = False
os.environ['PYTHONPATH'] = os.pathsep.join([os.path.dirname(os.path.dirname(dill.__file__)), os.path.dirname(os.path.abspath(__file__))])
def obj(c):
    return (T.Plain if c['al'] == 'absent' else T.WithAll)(**{k: c[k] for k in ('dump', 'load', 'typ', 'al', 'eq')})
WRAP = {'bare': lambda o: o, 'list': lambda o: [o], 'tuple': lambda o: (1, o), 'dict': lambda o: {'k': o}}
UN = {'bare': lambda o: o, 'list': lambda o: o[0], 'tuple': lambda o: o[1], 'dict': lambda o: o['k']}
OPTS = [{}, dict(protocol=2), dict(recurse=True), dict(ignore=True), dict(ignore=False), dict(byref=True), dict(fmode=1), dict(ignore=None, recurse=False, protocol=None), dict(protocol=-1), dict(fix_imports=False), dict(protocol=0, byref=False)]
def state():
    return (id(warnings.filters), list(warnings.filters), warnings.showwarning, id(sys.stdout), id(sys.stderr), dict(dill.settings), os.getcwd(), sys.argv[:], list(sys.path))
@contextlib.contextmanager
def fd1():
    """what this process and its children write to standard output"""
    sys.stdout.flush()
    with tempfile.TemporaryFile() as f:
        old = os.dup(1); os.dup2(f.fileno(), 1); saved = sys.stdout
        sys.stdout = s = io.StringIO(); out = {}
        try: yield out
        finally:
            out['stdout'] = s.getvalue(); same = sys.stdout is s
            sys.stdout = saved; os.dup2(old, 1); os.close(old)
            f.seek(0); out['child'] = f.read().decode('utf-8', 'replace')
            if not same: out['stdout'] += '(replaced)'
def python(how, d):
    if how == 'given': return {'python': sys.executable}
    if how == 'spaces':
        p = os.path.join(d, 'a b', 'my python'); os.makedirs(os.path.dirname(p))
        with open(p, 'w') as f: f.write('#!/bin/sh\nexec "%s" "$@"\n' % sys.executable)
        os.chmod(p, 0o755); return {'python': p}
    return {}
def run(sc):
    if 'value' in sc: return value(sc)
    with warnings.catch_warnings():
        warnings.simplefilter('default')
        for n, c in enumerate(sc['calls']):
            if c['filter'] != 'default' or n: warnings.simplefilter(c['filter'])
            r = one(c)
            if r: return 'call %d, %s' % (n + 1, r)
def one(c):
    o = obj(c); x = WRAP[c['wrap']](o); before = dict(vars(o)); st = state(); got = None; out = {}
    key = zlib.crc32(json.dumps(c, sort_keys=True).encode())
    kw = OPTS[key % len(OPTS)].copy(); pos = (key // 64 % 6,) if c['op'] != 'pickles' and key // 512 % 3 == 0 and 'protocol' not in kw else ()
    try:
        with contextlib.ExitStack() as es:
            if c['op'] != 'check': es.enter_context(contextlib.redirect_stderr(io.StringIO()))
            if c['op'] == 'pickles':
                if c['exact']: kw['exact'] = True
                if c['safe']: kw['safe'] = True
                got = dill.pickles(x, **kw)
            elif c['op'] == 'copy': got = dill.copy(x, *pos, **kw)
            else:
                d = es.enter_context(tempfile.TemporaryDirectory())
                kw.update(python(c['python'], d))
                if c['verbose']: kw['verbose'] = True
                out = es.enter_context(fd1())
                old = os.dup(2); nul = os.open(os.devnull, os.O_WRONLY); os.dup2(nul, 2)
                try: got = dill.check(x, *pos, **kw)
                finally: os.dup2(old, 2); os.close(old); os.close(nul)
    except BaseException as e: got = e
    st2 = state(); name = '%s of %s' % (c['op'], {k: c[k] for k in ('wrap', 'exact', 'safe', 'dump', 'load', 'typ', 'al', 'eq', 'filter')})
    if vars(o) != before: return name + ' changed the object'
    if st2 != st: return name + ' changed the process: %s' % [i for i, (a, b) in enumerate(zip(st, st2)) if a != b]
    want = c['res']
    if c['op'] == 'check':
        if c['dump'] != 'ok':
            if type(got).__name__ != want: return name + ' gives %r, not %s' % (got, want)
            text = 'DUMP FAILED' if c['verbose'] else ''
        else:
            if got is not None: return name + ' gives %r' % (got,)
            text = want
        if out['stdout'].strip() != text: return name + ' prints %r, not %r' % (out['stdout'], text)
        return
    if isinstance(got, BaseException):
        if type(got).__name__ != want: return name + ' raises %s: %s, not %s' % (type(got).__name__, got, want)
        return
    if want == 'copied':
        if type(got) is not type(x) and c['wrap'] != 'bare': return name + ' gives a %s' % type(got)
        y = UN[c['wrap']](got)
        exp = {'same': '', 'sub': 'Sub', 'looks': 'Looks', 'other': 'Other'}[c['typ']] + type(o).__name__
        if type(y) is not T.CLS[exp] or y is o or vars(y) != dict(before, copied=True): return name + ' gives %r %r' % (type(y), vars(y))
        return
    if got is not True and got is not False: return name + ' gives %r' % (got,)
    if str(got) != want: return name + ' gives %r, not %s' % (got, want)

class Local: pass
def local(): 
    class L:
        def __init__(self): self.v = 1
    return L
def detached(): 
    g = {'__builtins__': __builtins__, 'bad': gen(), 'good': 1}
    exec('def f(): return good', g); return g['f']
def gen(): yield
def mainclass():
    import __main__
    exec('class VtMine:\n  def __init__(self): self.v = 1\n  def __eq__(self, o): return type(o) is type(self)', __main__.__dict__)
    return __main__.VtMine()
class Deep: 
    def __reduce__(self): return (Deep, ())
    def __eq__(self, other): return self == other
def isinf():
    x = []; x.append(x); return x
# value -> (verdict, exact verdict); 'cannot' is False for both
V = dict(one=lambda: 1, text=lambda: 'a', nan=lambda: float('nan'), lnan=lambda: [float('nan')], obj=object, lobj=lambda: [object()], lam=lambda: lambda: 0, llam=lambda: [lambda: 0], func=lambda: json.dumps, local=local, linst=lambda: local()(), ltype=lambda: [local()], gen=gen, lgen=lambda: [gen()], frame=lambda: sys._getframe(), lock=threading.Lock, mod=lambda: json, none=lambda: None, part=lambda: functools.partial(len), sim=lambda: types.SimpleNamespace(a=1), simobj=lambda: types.SimpleNamespace(a=object()), detached=detached, main=mainclass, infinite=isinf, view=lambda: {1: 2}.values(), rnd=lambda: random.Random(1), it=lambda: iter([1]), code=lambda: value.__code__, exc=lambda: ValueError(1), typ=lambda: int, cell=lambda: types.CellType(1), cellobj=lambda: types.CellType(object()), prop=lambda: property(len))
X = dict(nan=(True, False), lnan=(True, False), obj=(True, False), lobj=(True, False), lam=(True, False), llam=(True, False), local=(True, False), linst=(True, False), ltype=(True, False), gen=(False, False), lgen=(False, False), frame=(False, False), lock=(True, False), part=(True, False), simobj=(True, False), detached=(True, False), infinite=('RecursionError', 'RecursionError'), view=(True, False), rnd=(True, False), it=(True, False), exc=(True, False), cellobj=(True, False), prop=(True, False))
X['deep'] = ('RecursionError', 'RecursionError'); V['deep'] = Deep
def value(sc):
    k, exact, safe = sc['value'], sc['exact'], sc['safe']; kw = dict(sc['opt'])
    o = V[k](); want = X.get(k, (True, True))[exact]
    if k == 'detached': want = want and bool(kw.get('recurse'))
    if k in ('local', 'linst', 'ltype') and kw.get('byref'): want = False
    if k == 'main': want = True
    if want == 'RecursionError' and safe: want = False
    st = state()
    try: got = dill.pickles(o, exact=exact, safe=safe, **kw)
    except Exception as e: got = type(e).__name__
    if state() != st: return 'the verdict on %s changes the process' % k
    if got is not want and got != want or type(got) is not type(want): return 'the verdict on %s with %s is %r, not %r' % (k, {x: y for x, y in sc.items() if x != 'value'}, got, want)
def values(): return sorted(V)
