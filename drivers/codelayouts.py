"""C27 driver: code objects stored in the layouts of all supported versions, and code objects of this one"""
import pickle, io, types, copyreg, marshal
import dill
from dill import _dill

def base():
    def outer(cv_outer):
        fv = 1
        def f(p, a, b, *, k1, k2):
            loc1 = (p, a, b, fv)
            try: loc2 = [x for x in (loc1, k1, k2)]
            except ValueError: loc2 = None
            def g(): return a, loc1
            return g, len(loc2)
        return f
    return outer(0).__code__
B = base()
def value(field, k):
    v = {'argcount': (3, 4, 2), 'posonlyargcount': (1, 2, 0), 'kwonlyargcount': (2, 0, 1), 'stacksize': (11, 23, 70), 'flags': (0x13, 0x03, 0x0),
         'consts': (('c0', 1, None), (), ((1, 2.5), b'x', ...)), 'names': (('n0', 'n1'), (), ('len',)), 'filename': ('<file a>', 'b.py', '\u00e9.py'),
         'name': ('nm', 'f', '<lambda>'), 'qualname': ('Q.nm', 'f.<locals>.f', 'f'), 'firstlineno': (42, 1, 77777),
         'freevars': (('fv',), (), ('u', 'w')), 'cellvars': (('cv',), ('a0',), ()),
         'code': (b'\x97\x00d\x00S\x00', b'\x00\x00d\x01S\x00', b''), 'lnotab': (b'\x01\x02', b'', b'zz'),
         'linetable': (b'\x05\x06\x07', b'l', b''), 'exceptiontable': (b'\x08\x09', b'e', b''), 'endlinetable': (b'\x0a', b'q', None), 'columntable': (b'\x0b', b'r', None),
         'extra': (7, 7, 7)}
    n = {0: 7, 1: 5, 2: 3}[k]
    if field == 'nlocals': return n
    if field == 'varnames': return tuple('a%d' % i for i in range(n))
    v = v[field][k]
    if field == 'code' and not v: v = b'\x97\x00S\x00'
    return v

ATTR = ('argcount', 'posonlyargcount', 'kwonlyargcount', 'nlocals', 'stacksize', 'flags', 'code', 'consts', 'names', 'varnames', 'filename', 'name',
        'qualname', 'firstlineno', 'linetable', 'exceptiontable', 'freevars', 'cellvars')

class Call:
    def __init__(self, args): self.args = args
    def __reduce__(self): return _dill._create_code, self.args

def attrs(c): return {a: getattr(c, 'co_' + a) for a in ATTR}
def expected(named):
    """the attributes the interpreter gives a code object with those values"""
    return attrs(types.CodeType(*(named[a] for a in ATTR)))

PROGRAMS = {
 'plain': 'def f(a, b=1): return a + b', 'lambda': 'f = lambda x, *y, **z: (x, y, z)', 'posonly': 'def f(a, b, /, c, *, d, e=2): return a, b, c, d, e',
 'gen': 'def f(n):\n  for i in range(n): yield i', 'coro': 'async def f(x): return await x', 'agen': 'async def f(x):\n  async for y in x: yield y',
 'closure': 'def mk(a):\n  b = 2\n  def f(c):\n    nonlocal b\n    b += a + c\n    return b\n  return f\nf = mk(1)', 'nested': 'def f(a):\n  def g():\n    def h(): return a\n    return h\n  return g',
 'try': 'def f(a):\n  try:\n    return 1 / a\n  except ZeroDivisionError as e:\n    return str(e)\n  finally: a = None', 'with': 'def f(a):\n  with a as b, b as c: return b, c',
 'consts': 'def f(): return (1, 2.5, 1j, b"x", "s", None, ..., frozenset((1, 2)), (1, ("t",)))\n', 'unicode': 'def \u0192(\u00e9=1): return \u00e9\nf = \u0192',
 'match': 'def f(x):\n  match x:\n    case {"a": [y, *z]}: return y, z\n    case int(): return 0', 'class': 'class K:\n  def f(self): return __class__, super()\nf = K.f',
 'comp': 'def f(x): return [a for b in x for a in b if a], {a: b for a, b in x}, (q for q in x)', 'long': 'def f(x):\n' + ''.join('  x = x + %d\n' % i for i in range(300)) + '  return x',
 'deep': 'def f(x):\n  while x:\n    for i in x:\n      if i: continue\n      else: break\n    else: return 1\n  return 2', 'doc': 'def f():\n  "doc \u2603"', 'star': 'def f(*args, k, **kw): return args, k, kw'}

def run(sc):
    if 'program' in sc:
        ns = {'__name__': 'vt_code'}
        exec(compile(PROGRAMS[sc['program']], '<vt %s>' % sc['program'], 'exec'), ns)
        code = ns['f'].__code__
        if sc.get('module'): code = compile(PROGRAMS[sc['program']], '<m>', 'exec')
        rep = {}
        for a, k in sc.get('replace', []):
            rep['co_' + a] = {'filename': '/x/\u00e9.py', 'name': 'other', 'qualname': 'A.b.other', 'firstlineno': 9, 'stacksize': code.co_stacksize + 5, 'linetable': code.co_linetable[:2],
                              'consts': code.co_consts + (('more', 1.0),), 'names': code.co_names + ('extra',), 'flags': code.co_flags | 0x40000, 'exceptiontable': code.co_exceptiontable}[a]
        if rep: code = code.replace(**rep)
        for proto in range(6):
            data = dill.dumps(code, protocol=proto)
            for loads in (dill.loads, pickle.loads):
                c = loads(data)
                if type(c) is not types.CodeType: return 'not code: %r' % (c,)
                x, y = attrs(code), attrs(c)
                for a in ATTR:
                    if x[a] != y[a] or type(x[a]) is not type(y[a]): return 'attribute %s is %r instead of %r (protocol %d)' % (a, y[a], x[a], proto)
                if list(c.co_lines()) != list(code.co_lines()) or list(c.co_positions()) != list(code.co_positions()): return 'line numbers differ'
                if c != code: return 'the code object compares unequal'
        return None
    k = {'a': 0, 'b': 1, 'c': 2}[sc['values']]
    args = []
    for x in sc['args']:
        v = value(x['field'], k)
        args.append(v.decode('ascii') if x['text'] and isinstance(v, bytes) and all(b < 128 for b in v) else v)
    if sc['prefix'] != 'none': args.insert(0, {'bytes': b'\x01\x63', 'text': '\x01c', 'empty': b''}[sc['prefix']])
    for proto in (0, 2, 3, 4, 5):
        for how in ('call', 'dill', 'pickle'):
            try:
                if how == 'call': c = _dill._create_code(*args)
                else:
                    data = pickle.dumps(Call(tuple(args)), proto)
                    c = (dill if how == 'dill' else pickle).loads(data)
            except Exception as e: c = e
            if sc['refused']:
                if not isinstance(c, pickle.UnpicklingError): return 'a stream of %d fields gave %r' % (len(sc['args']), c)
                continue
            if not isinstance(c, types.CodeType): return 'failed: %r' % (c,)
            named = {}
            for a, src in sc['result'].items(): named[a] = 0 if src == 'zero' else b'' if src == 'empty' else value(src, k)
            want = expected(named)
            got = attrs(c)
            for a in ATTR:
                if got[a] != want[a] or type(got[a]) is not type(want[a]): return 'attribute %s is %r instead of %r' % (a, got[a], want[a])
    return None
