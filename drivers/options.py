"""C14 driver: calls with options; what was in force is read off the result"""
import dill, io, os, sys, zlib, tempfile, pickletools, __main__
FORK = True
exec('class Top:\n    def __init__(self, *a): self.items = list(a)\nclass Nested: pass', __main__.__dict__)
Top, Nested = __main__.Top, __main__.Nested
NAMES = ('protocol', 'byref', 'fmode', 'recurse', 'ignore')
HOOKS = []
class Hook:
    """runs something while it is pickled"""
    def __init__(self, f): self.f = f
    def __reduce__(self):
        if self.f: self.f()
        return str, ('hook',)
class Failing:
    def __reduce__(self): raise ZeroDivisionError('not this one')
def conv(o, v): return None if v == -1 else bool(v) if o in ('byref', 'recurse', 'ignore') else v
def kwargs(args): return {o: conv(o, args[o]) for o in NAMES if args[o] != -2}
def protocol_of(b):
    if b[:1] == b'\x80': return b[1]
    ops = {op.name for op, _, _ in pickletools.genops(b)}
    return 1 if any(pickletools.code2op and op in ops for op in ('BINPUT', 'EMPTY_LIST', 'EMPTY_TUPLE', 'BININT1', 'TUPLE1', 'EMPTY_DICT')) else 0
def payload(hook):
    ns = {'__name__': 'vt_nowhere', 'used': 1, 'unused': 2}; exec('def f(): return used', ns)
    fd, path = tempfile.mkstemp(dir='.'); os.close(fd)
    with open(path, 'w') as q: q.write('original')
    fh = open(path); fh.read(3)
    return Top(Nested(), ns['f'], fh, Hook(hook)), path
def one(c, hook, k):
    """make the call; returns what was in force as far as can be seen"""
    way, kw = c['way'], kwargs(c['args'])
    obj, path = payload(hook)
    ign = {x: kw.pop(x) for x in ('ignore',) if x in kw}
    lk = dict(ign)
    seen = {}
    def change():
        with open(path, 'w') as q: q.write('rewrites')
    data = None
    pos = []
    if k % 3 == 0 and 'protocol' in kw and way in ('dumps', 'dump'): pos = [kw.pop('protocol')]
    if pos and k % 2 and 'byref' in kw: pos.append(kw.pop('byref'))
    try:
        if way == 'dumps': data = dill.dumps(obj, *pos, **kw)
        elif way == 'dump': b = io.BytesIO(); dill.dump(obj, b, *pos, **kw); data = b.getvalue()
        elif way == 'pickler':
            b = io.BytesIO(); dill.Pickler(b, **kw).dump(obj); data = b.getvalue()
        elif way == 'temp': data = dill.temp.dumpIO(obj).getvalue()
        elif way == 'copy': new = dill.copy(obj, *pos, **kw, **ign)
        elif way == 'pickles':
            was = []
            class Spy(dill.Pickler): pass
            # the verdict depends on the options only through success, so only the absence of effects is seen
            if dill.pickles(obj, **kw, **ign) is not True: return {'error': 'pickles() is not True'}
            return {}
        if data is not None:
            seen['protocol'] = protocol_of(data)
            change()
            if k % 5 == 0: new = dill.load(io.BytesIO(data), **lk)
            elif k % 5 == 1 and lk: new = dill.loads(data, lk['ignore'])
            elif k % 5 == 2: new = dill.Unpickler(io.BytesIO(data), **lk).load()
            else: new = dill.loads(data, **lk)
        n, f, fh, h = new.items
        seen['byref'] = int(type(n) is Nested)
        seen['recurse'] = int('unused' not in f.__globals__)
        if f() != 1: return {'error': 'function broken'}
        if not seen['byref']: seen['ignore'] = int(type(new) is not Top)
        pos = fh.tell(); fh.close()
        with open(path) as q: text = q.read()
        if data is None: seen['positioned'] = int(pos != 0)
        else: seen['fmode'] = 2 if text == 'original' else 1 if pos else 0
    finally:
        obj.items[2].close(); os.unlink(path)
    return seen
def compare(c, seen, where, eitherproto):
    if 'error' in seen: return seen['error'] + where
    for o, v in seen.items():
        if o == 'positioned':
            if v != int(c['eff']['fmode'] != 0): return 'file mode %d is not in force' % c['eff']['fmode'] + where
            continue
        if o == 'protocol' and c['way'] == 'pickler' and c['args']['protocol'] < 0: continue   # (not governed by the settings)
        if v != c['eff'][o]: return '%s is %r instead of %r' % (o, v, c['eff'][o]) + where
def run(sc):
    for o in NAMES: dill.settings[o] = conv(o, dict(protocol=4).get(o, 0))
    want = dict(dill.settings)
    keys = set(dill.settings)
    k = zlib.crc32(repr(sc['hist']).encode())
    for i, c in enumerate(sc['hist']):
        k = k * 1103515245 + 12345 & 0x7fffffff; q = k >> 8
        where = ' in step %d (%s)' % (i + 1, sc['hist'][:i + 1])
        do = c['do']; bad = None
        if do == 'set': dill.settings[c['o']] = want[c['o']] = conv(c['o'], c['v'])
        elif do == 'call': bad = compare(c, one(c, None, q), where, False)
        elif do == 'fail':
            kw = kwargs(c['args']); ig = kw.pop('ignore', None)
            try:
                if q % 3 == 0: dill.copy([Top(), Failing()], ignore=ig, **kw)
                else: dill.dumps([Top(), Failing()], **kw)
                bad = 'no error' + where
            except ZeroDivisionError: pass
        elif do == 'nested':
            res = []
            seen = one(c, lambda: res.append(one(c['inner'], None, q // 7)), q)
            if len(res) < 1: return 'the inner call did not happen' + where
            bad = compare(c, seen, where, False) or next(filter(None, (compare(c['inner'], r, ' (inner call)' + where, False) for r in res)), None)
        elif do == 'during':
            def hook(): dill.settings[c['o']] = want[c['o']] = conv(c['o'], c['v'])
            bad = compare(c, one(c, hook, q), where, False)
        if bad: return bad
        if dict(dill.settings) != want: return 'the settings changed to %r' % dict(dill.settings) + where
    return None
