"""C13 driver: registrations and extension, observed by pickling an instance of every type in varying ways"""
import dill, pickle, io, zlib, warnings
FORK = True
class Mark:
    def __init__(self, f, t): self.f, self.t = f, t
class A:
    def __init__(self): self.x = 1
class B(A): pass
class M(type): pass
class C(metaclass=M): pass
class M2(type): pass
class D(metaclass=M2): pass
def fun(f, t):
    def save(pickler, obj): pickler.save_reduce(Mark, (f, t), obj=obj)
    return save
FUNS = {}
def named(f, t):
    if (f, t) not in FUNS: FUNS[f, t] = fun(f, t)
    return FUNS[f, t]
TYPES = dict(A=A, B=B, C=C, M=M2, property=property, list=list)
TYPES['lambda'] = type(lambda: 0)
def make(t):
    return dict(A=A, B=B, C=C, M=lambda: D, property=lambda: property(None, None, None, 'doc'), list=lambda: [1, 'two'], **{'lambda': lambda: eval('lambda: 5', {'__name__': __name__})})[t]()
def plain(t, o, n):
    """is n a plain copy of o?"""
    if t in 'ABC': return type(n) is type(o) and n.__dict__ == o.__dict__
    if t == 'M': return n is o
    if t == 'property': return type(n) is property and n.__doc__ == 'doc'
    if t == 'list': return n == o
    return n() == 5 and n is not o
class Sub(dill.Pickler): pass
class Wrap:
    pass
def ways():
    def dumps(o, p): return dill.dumps(o, p)
    def dump(o, p): b = io.BytesIO(); dill.dump(o, b, p); return b.getvalue()
    def cls(o, p): b = io.BytesIO(); dill.Pickler(b, p).dump(o); return b.getvalue()
    def sub(o, p): b = io.BytesIO(); Sub(b, protocol=p).dump(o); return b.getvalue()
    def rec(o, p): return dill.dumps(o, p, recurse=True)
    def byref(o, p): return dill.dumps(o, p, byref=True)
    def temp(o, p): return dill.temp.dumpIO(o, protocol=p).getvalue()
    def cp(o, p): return dill.dumps(dill.copy(o, protocol=p))
    return [dumps, dump, cls, sub, rec, byref, temp, cp]
WAYS = ways()
def swaps():
    def dumps(o, p): return pickle._dumps(o, p)
    def dump(o, p): b = io.BytesIO(); pickle._dump(o, b, p); return b.getvalue()
    def cls(o, p): b = io.BytesIO(); pickle._Pickler(b, p).dump(o); return b.getvalue()
    return [dumps, dump, cls]
SWAYS = swaps()
def nest(k, o):
    w = Wrap(); w.o = o
    return [lambda: (o, lambda x: x), lambda: ((o,), lambda x: x[0]), lambda: ({'k': o}, lambda x: x['k']), lambda: (w, lambda x: x.o), lambda: ((1, {2: (o,)}), lambda x: x[1][2][0])][k % 5]()
def run(sc):
    key = zlib.crc32(repr([h['op'] for h in sc['hist']]).encode())
    dill.extend(sc['hist'][0]['op'].get('on', True))
    n = key
    for step, h in enumerate(sc['hist']):
        op = h['op']; do = op['do']
        try:
            if do == 'register':
                f = named(op['f'], op['t'])
                if (n + step) % 2: 
                    if dill.register(TYPES[op['t']])(f) is not f: return 'register does not return the function'
                else: dill.pickle(TYPES[op['t']], f)
            elif do == 'on': dill.extend() if (n + step) % 2 else dill.extend(True)
            elif do == 'off': dill.extend(False) if (n + step) % 2 else dill.extend(use_dill=False)
        except Exception as e: return '%s raised %r' % (op, e)
        for i, (t, obs) in enumerate(sorted(h['obs'].items())):
            for side in ('dill', 'stock'):
                n = (n * 1103515245 + 12345) & 0x7fffffff; q = n >> 8
                o = make(t); c, out = nest(q, o); p = q // 5 % 6
                ws = WAYS if side == 'dill' else SWAYS
                w = ws[q // 30 % len(ws)]
                where = ' (%s of %s with %s, protocol %d, after %s)' % (side, t, w.__name__, p, [x['op'] for x in sc['hist'][:step + 1]])
                try:
                    got = out((pickle.loads if q // 300 % 2 else dill.loads)(w(c, p))); err = None
                except Exception as e: got = None; err = e
                allowed = {obs['dill']} if side == 'dill' else set(obs['stock'])
                if err is not None: res = 'error'
                elif type(got) is Mark: res = got.f if got.t == t else 'function of %s' % got.t
                elif plain(t, o, got): res = 'plain'
                else: res = 'something else: %r' % (got,)
                want = set()
                for a in allowed:
                    if a == 'dill': want.add('plain')
                    elif a == 'std': want.add('error' if side == 'stock' and t in ('property', 'lambda') else 'plain')
                    else: want.add(a)
                if res not in want: return 'gave %s%s instead of %s' % (res, ' (%r)' % err if err else '', sorted(want)) + where
    return None
