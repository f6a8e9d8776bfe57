"""C22: play a history of stored objects and captures"""
import sys, os, io, gc, types, tempfile, shutil, contextlib, pathlib
import dill
from dill import temp
import vt_tempmod as M
FORK = False
mainmod = None
def main_copy():
    """the same objects as if typed into a script: a main module with a file"""
    global mainmod
    if mainmod is None:
        mainmod = types.ModuleType('__main__'); mainmod.__file__ = M.__file__
        exec(compile(open(M.__file__, encoding='utf-8').read(), M.__file__, 'exec'), mainmod.__dict__)
    return mainmod
PLAIN = {'int': lambda: 5, 'list': lambda: [1, [2], {'a': 3}], 'dict': lambda: {'k': [1], 2: {3}}, 'str': lambda: 'é\n☃', 'bytes': lambda: b'\x00\xff\n', 'none': lambda: None, 'inst': lambda: M.Inst([1]), 'lambda': lambda: (lambda x, y=3: x + y), 'big': lambda: list(range(20000)), 'empty': lambda: [], 'ellipsis': lambda: ..., 'float': lambda: float('-inf'), 'module': lambda: os.path}
BAD = {'gen': lambda: (i for i in ()), 'frame': lambda: sys._getframe(), 'nested': lambda: [1, 'x' * 10000, {'a': iter(())}] if 0 else [1, 'x' * 10000, {'a': (i for i in ())}]}
NAMES = {'func': 'func', 'lam': 'lam', 'class': 'Klass', 'uni': 'café', 'multi': 'multi', 'glob': 'glob', 'rec': 'rec', 'tagged': 'tagged', 'taggedclass': 'Tagged', 'oneline': 'oneline', 'blank': 'blank', 'tagtext': None, 'instance': None, 'number': None, 'plainlist': None}
def named(v, main):
    m = main_copy() if main else M
    if v == 'instance': return M.Inst(3)
    if v == 'number': return 41
    if v == 'tagtext': return 'a\n#NAME: func\n'
    if v == 'plainlist': return [1, 2, 'x']
    return getattr(m, NAMES[v])
TESTS = {'func': lambda f: f(2), 'lam': lambda f: f(4), 'class': lambda k: (k.__name__, k().m(), k.a), 'uni': lambda f: (f.__name__, f('a')), 'multi': lambda f: (f(1, 2, 3), f(0)), 'glob': lambda f: f(2), 'rec': lambda f: f(4), 'tagged': lambda f: f(1), 'taggedclass': lambda k: (k.__name__, k().m(), k.a), 'oneline': lambda f: f(3), 'blank': lambda f: f(3),
         'instance': lambda x: (type(x).__name__, x.v), 'number': lambda x: x, 'plainlist': lambda x: x, 'lambda': lambda f: (f(1), f(2, 5)), 'inst': lambda x: (type(x), x.v), 'module': lambda x: x is os.path}
def test(v, x): return TESTS.get(v, lambda x: (type(x), x))(x)
class Sink(io.StringIO):
    pass
def run(sc):
    names = set(vars(temp)) - {'__warningregistry__'}, set(vars(M)); d = tempfile.mkdtemp(prefix='vt_temp'); saved = sys.stdout, sys.stderr
    olds = sys.modules['__main__']
    try:
        r = play(sc, d)
        if not r and (set(vars(temp)) - {'__warningregistry__'}, set(vars(M))) != names: return {'bad': 'names are left in a module: %s' % sorted((set(vars(temp)) | set(vars(M))) - {'__warningregistry__'} - names[0] - names[1])}
        return r
    finally:
        sys.stdout, sys.stderr = saved
        sys.modules['__main__'] = olds
        shutil.rmtree(d, ignore_errors=True)
def play(sc, d):
    real = {'stdout': Sink(), 'stderr': Sink()}
    sys.stdout, sys.stderr = real['stdout'], real['stderr']
    hs, names, caps, kinds, stale = {}, {}, [], {}, {}
    steps = sc['steps']; main = sum(len(s['v']) for s in steps) % 2
    if main: sys.modules['__main__'] = main_copy()
    def cur(stream):
        for c in reversed(caps):
            if c[1] == stream: return c[2]
        return real[stream]
    for n, s in enumerate(steps):
        op, h, where = s['op'], s['h'], 'step %d (%s %s %s): ' % (n + 1, s['op'], s['kind'] or s['how'], s['v'])
        if op == 'dump':
            src = s['kind'].startswith('source'); kw = {}
            if s['kind'] in ('dump', 'source'):
                kw['dir'] = d
                if s['opt'] == 'prefix': kw['prefix'] = 'vtpre_'
                if s['opt'] == 'suffix': kw['suffix'] = '.vt'
                if s['opt'] == 'keep': kw['delete'] = False
            if src and (s['text'] or NAMES[s['v']] is None): kw['alias'] = s['text'] or '_given'
            x = named(s['v'], main) if src else PLAIN[s['v']]()
            f = {'dump': temp.dump, 'dumpIO': temp.dumpIO, 'source': temp.dump_source, 'sourceIO': temp.dumpIO_source}[s['kind']]
            try: hs[h] = f(x, **kw)
            except Exception as e: return {'bad': where + 'fails: %s: %s' % (type(e).__name__, e)}
            kinds[h] = s['kind'], s['v'], test(s['v'], x); names[h] = getattr(hs[h], 'name', None)
            if names[h]:
                b = os.path.basename(names[h])
                if s['opt'] == 'prefix' and not b.startswith('vtpre_'): return {'bad': where + 'the file is called ' + b}
                if not src and s['opt'] == 'suffix' and not b.endswith('.vt'): return {'bad': where + 'the file is called ' + b}
                if src and not b.endswith('.py'): return {'bad': where + 'the file is called ' + b}
                if os.path.dirname(names[h]) != d: return {'bad': where + 'the file is in ' + names[h]}
        elif op == 'dumpbad':
            try: (temp.dump(BAD[s['v']](), dir=d) if s['kind'] == 'dump' else temp.dumpIO(BAD[s['v']]()))
            except Exception as e:
                if not isinstance(e, (TypeError, dill.PicklingError)): return {'bad': where + 'raises %s: %s' % (type(e).__name__, e)}
                e = None
            else: return {'bad': where + 'stores an object that cannot be pickled'}
        elif op in ('load', 'change'):
            k, v, want = kinds[h]; w = s['how']
            f = {'dump': temp.load, 'dumpIO': temp.loadIO, 'source': temp.load_source, 'sourceIO': temp.loadIO_source}[k]
            kw = {}
            if w == 'handle': a = hs[h]
            elif w == 'value': a = hs[h].getvalue()
            elif w == 'mode': a = hs[h]; kw['mode'] = 'rb'
            elif w == 'path': a = pathlib.PurePath(names[h]); a = names[h]
            else: a = names[h]
            try: got = f(a, **kw)
            except Exception as e: return {'bad': where + 'loading %s (%s) fails: %s: %s' % (v, k, type(e).__name__, e)}
            a = None
            try: t = test(v, got)
            except Exception as e: return {'bad': where + 'the loaded %s (%s) fails: %s: %s' % (v, k, type(e).__name__, e)}
            if t != want: return {'bad': where + 'loaded %.80r from %s, stored %.80r' % (t, k, want)}
            if k in ('dump', 'dumpIO') and type(got) in (list, dict) or v == 'inst':
                if id(got) in stale and stale[id(got)] is got: return {'bad': where + 'loaded the same object again'}
                stale[id(got)] = got
                if op == 'change': (got.clear() if hasattr(got, 'clear') else setattr(got, 'v', 'changed'))
        elif op == 'drop':
            w = s['how']; x = hs.pop(h)
            if w == 'close': x.close()
            elif w == 'with' and hasattr(x, '__exit__'):
                with x: pass
            elif w == 'raise':
                try:
                    def f(x): raise ValueError
                    f(x)
                except ValueError: pass
            del x
        elif op == 'enter':
            c = temp.capture(s['stream']) if s['stream'] != 'stdout' or n % 2 else temp.capture()
            before = getattr(sys, s['stream']); o = c.__enter__()
            if getattr(sys, s['stream']) is not o: return {'bad': where + 'the captured stream is not the one in place'}
            if o is before: return {'bad': where + 'the stream is not replaced'}
            caps.append([c, s['stream'], o, before])
        elif op == 'write':
            st = cur(s['stream']); t = s['text'] + ';'
            if s['how'] == 'print': print(t, end='', file=getattr(sys, s['stream'])) if s['stream'] == 'stderr' else print(t, end='')
            elif s['how'] == 'write': getattr(sys, s['stream']).write(t)
            else: st.write(t)
        elif op == 'swap': 
            sw = io.StringIO(); setattr(sys, s['stream'], sw); print('lost', file=getattr(sys, s['stream']))
            setattr(sys, s['stream'], caps[-1][2]); x = setattr(sys, 'vt_unused', 1); del sys.vt_unused
            caps[-1].append('swap')
        elif op == 'leave':
            exc = {'error': ValueError('told'), 'exit': SystemExit(3)}.get(s['how']); first = True
            for _ in range(s['n']):
                c, stream, o, before = caps.pop()[:4]
                other = sys.stderr if stream == 'stdout' else sys.stdout
                if n % 4 == 3: setattr(sys, stream, io.StringIO())   # the block leaves another stream in place
                if exc is None: r = c.__exit__(None, None, None)
                else:
                    try: r = c.__exit__(type(exc), exc, exc.__traceback__)
                    except BaseException as e: 
                        if e is not exc: return {'bad': where + 'raises %r instead of %r' % (e, exc)}
                        r = False
                if r: return {'bad': where + 'the exception is swallowed'}
                if getattr(sys, stream) is not before: return {'bad': where + 'the previous stream is not put back'}
                if (sys.stderr if stream == 'stdout' else sys.stdout) is not other: return {'bad': where + 'the other stream is replaced'}
                if first and o.getvalue() != s['expect']: return {'bad': where + 'captured %r, written %r' % (o.getvalue(), s['expect'])}
                first = False
        gc.collect(0) if op == 'drop' else None
        here = set(os.listdir(d)); want = {os.path.basename(names[i]) for i in s['files']}
        if here != want: return {'bad': where + 'files %s, expected %s' % (sorted(here), sorted(want))}
        for st in ('stdout', 'stderr'):
            if getattr(sys, st) is not cur(st): return {'bad': where + 'sys.%s is not the innermost capture' % st}
    for (c, stream, o, *_), t in zip(caps, sc['left']):
        if o.getvalue() != t: return {'bad': 'captured %r, written %r' % (o.getvalue(), t)}
    while caps: c = caps.pop(); c[0].__exit__(None, None, None)
    for st, want in (('stdout', sc['out']), ('stderr', sc['err'])):
        if getattr(sys, st) is not real[st]: return {'bad': 'sys.%s is not put back at the end' % st}
        if real[st].getvalue() != want: return {'bad': 'sys.%s has %r, written %r' % (st, real[st].getvalue(), want)}
