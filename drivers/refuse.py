"""C10 driver: sessions loaded where they belong and where they do not, intact and damaged"""
import sys, io, os, types, importlib, tempfile, warnings, pickle
import dill

class Raw(io.RawIOBase):
    """a readable stream that can neither seek nor peek"""
    def __init__(self, data): self.b = io.BytesIO(data)
    def readable(self): return True
    def readinto(self, buf):
        d = self.b.read(len(buf)); buf[:len(d)] = d; return len(d)
class NoPeek:
    def __init__(self, data): self.b = io.BytesIO(data)
    def read(self, n=-1): return self.b.read(n)
    def readline(self): return self.b.readline()
    def tell(self): raise OSError('not seekable')
    def seek(self, *a): raise OSError('not seekable')

class Bare:
    """a readable stream that offers no way to seek"""
    closed = False
    def __init__(self, data): self.b = io.BytesIO(data)
    def readable(self): return True
    def read(self, n=-1): return self.b.read(n)
    def readline(self): return self.b.readline()
    def readinto(self, buf): return self.b.readinto(buf)

class Boom(Exception): pass
def explode(kind):
    if kind == 'exit': raise KeyboardInterrupt()
    raise Boom()
class Poison:
    def __init__(self, kind): self.kind = kind
    def __reduce__(self): return explode, (self.kind,)

def module(kind, name):
    if kind == 'main': return sys.modules['__main__']
    if kind in ('file', 'sub'): return importlib.import_module(name)
    if kind == 'stale':
        old = sys.modules.pop(name, None); pk = sys.modules.get('vt_sesspkg')
        m = importlib.import_module(name)
        sys.modules.pop(name)
        if old is not None: sys.modules[name] = old
        return m
    return types.ModuleType(name)

OWN = ('keep', 'val', 'fn', 'Cls', 'inst', 'bad', 'me')
def seed(m, tag):
    for k in OWN: m.__dict__.pop(k, None)
    m.keep = ['keep']; m.val = ['val', tag]
    exec('def fn(): return val', m.__dict__)
    m.me = m
    exec('class Cls:\n  def get(self): return val', m.__dict__)
    m.inst = m.Cls(); m.inst.z = m.val

CACHE = {}
def session(kind, name, damage):
    key = kind, name, damage
    if key not in CACHE:
        m = module(kind, name)
        seed(m, 'saved')
        if damage.startswith('poison'):
            m.bad = Poison('exit' if damage == 'poisonexit' else 'x')
        b = io.BytesIO()
        if kind == 'main': dill.dump_module(b)
        else: dill.dump_module(b, m)
        for k in OWN: m.__dict__.pop(k, None)
        CACHE[key] = b.getvalue()
    return CACHE[key]

def run(sc):
    main = sys.modules['__main__']
    mainsaved = dict(main.__dict__)
    tmp = tempfile.mkdtemp(dir='.')
    try:
        imp = {n: importlib.import_module(n) for n in ('vt_sessmod', 'vt_sessmod2', 'vt_sesspkg.sub')}
        # (the session of main must not contain what the driver puts there)
        for i, a in enumerate(sc['hist']):
            where = ' (attempt %d of %s)' % (i + 1, sc['hist'])
            sv, t, d = a['saved'], a['target'], a['damage']
            data = session(sv['kind'], sv['name'], d if d.startswith('poison') else '')
            tracked = [main] + list(imp.values())
            if t[0] == 'obj': target = module(t[1], t[2])
            elif t[0] == 'str': target = t[2]
            elif t[0] == 'notmodule': target = [1]
            else: target = None
            if isinstance(target, types.ModuleType) and target not in tracked: tracked.append(target)
            for m in tracked: seed(m, 'before'); m.__dict__.setdefault('__builtins__', __builtins__)
            if d == 'notpickle': data = b'this is no session \x00\xff' * 3
            elif d == 'other': data = dill.dumps([1, {'a': 2}], protocol=a['cut'] % 5)
            elif d == 'otherobj': data = pickle.dumps(types.SimpleNamespace(a=1))
            elif d == 'empty': data = b''
            elif d == 'module': data = dill.dumps(sys.modules['json'])[:-3]
            cuts = [data]
            if d == 'cut': k = min(len(data) - 2, a['cut'] * len(data) // 1000); cuts = [data[:k]]
            if d == 'cutall': cuts = [data[:k] for k in range(len(data) - 1)]
            for data in cuts:
                path = None
                if a['stream'] == 'bytesio': f = io.BytesIO(data)
                elif a['stream'] == 'path':
                    path = f = os.path.join(tmp, 's.pkl')
                    with open(path, 'wb') as fh: fh.write(data)
                elif a['stream'] == 'file':
                    path = os.path.join(tmp, 's.pkl')
                    with open(path, 'wb') as fh: fh.write(data)
                    f = open(path, 'rb')
                elif a['stream'] == 'raw': f = NoPeek(data)
                elif a['stream'] == 'buffered': f = io.BufferedReader(Raw(data))
                elif a['stream'] == 'unseekable': f = Bare(data)
                gonemod = None
                if not a['present']:
                    gonemod = sys.modules.pop(sv['name']); pk, _, sub = sv['name'].rpartition('.')
                    if pk: delattr(sys.modules[pk], sub)
                shots = [(m, list(m.__dict__.items())) for m in tracked]
                table = dict(sys.modules)
                try:
                    if a['entry'] == 'load': r = dill.load_module(f, target) if t[0] != 'none' else dill.load_module(f)
                    else: r = dill.load_module_asdict(f, update=a['entry'] == 'update')
                    err = None
                except BaseException as e: err = e
                if a['stream'] == 'file':
                    closed = f.closed; f.close()
                    if closed: return 'the caller\'s file was closed' + where
                if err is not None and type(err).__name__ == 'Timeout': raise err
                newmod = sys.modules.get(sv['name']) if gonemod else None
                if gonemod:
                    if newmod is not None and a['imports'] == 'no': return 'the module was imported' + where
                    if newmod is not None and (newmod.__dict__.get('__spec__') is None or newmod.__name__ != sv['name']): return 'the table of modules holds %r%s' % (newmod, where)
                    if newmod is not None and (a['out'] == 'error' or a['entry'] != 'load') and set(OWN) & set(newmod.__dict__): return 'the imported module was changed' + where
                    sys.modules[sv['name']] = table[sv['name']] = gonemod
                    if pk: setattr(sys.modules[pk], sub, gonemod)
                gone = [k for k in table if sys.modules.get(k) is not table[k]]
                new = [k for k in sys.modules if k not in table and k.startswith(('__runtime__', 'vt_', '__main__'))]
                if gone or new: return 'the table of imported modules changed: %s%s' % (gone + new, where)
                if a['out'] == 'error':
                    if err is None: return 'the session was accepted' + where
                    if isinstance(err, (SystemError, MemoryError)): return 'failed with %r%s' % (err, where)
                    if d == 'poison' and (a['stream'] != 'raw' or t[0] == 'obj') and not isinstance(err, Boom): return 'the error of the object was replaced by %r%s' % (err, where)
                elif err is not None: return 'refused: %s: %s%s' % (type(err).__name__, err, where)
                lands = None
                if a['out'] == 'ok' and a['entry'] == 'load':
                    if sv['kind'] == 'runtime': lands = target if t[0] == 'obj' else r
                    elif sv['kind'] == 'main': lands = main
                    else: lands = newmod if gonemod else imp[sv['name']]
                    if t[0] == 'obj': lands = target
                    if r is not (None if t[0] == 'obj' or sv['kind'] == 'main' else lands): return 'load_module returned %r%s' % (r, where)
                    if not isinstance(lands, types.ModuleType) or lands.__name__ != sv['name']: return 'wrong module %r%s' % (lands, where)
                    if lands.val != ['val', 'saved'] or lands.fn() is not lands.val or lands.me is not lands or lands.inst.z is not lands.val or lands.inst.get() is not lands.val or type(lands.inst) is not lands.Cls:
                        return 'the module was not restored' + where
                elif a['out'] == 'ok':
                    if r['val'] != ['val', 'saved'] or r['fn']() is not r['val'] or r['me'].__dict__ is not r: return 'the dictionary is not the saved state' + where
                for m, items in shots:
                    if m is lands: continue
                    if a['spares'] == 'target' and m is not target: continue
                    now = list(m.__dict__.items())
                    if [k for k, _ in now] != [k for k, _ in items] or any(u is not v for (_, u), (_, v) in zip(now, items)):
                        return 'the module %r was changed: %s%s' % (m.__name__, [k for k in {**dict(now), **dict(items)} if dict(now).get(k, 1) is not dict(items).get(k, 2)], where)
                    if m.val != ['val', 'before']: return 'the module %r was changed' % m.__name__ + where
    finally:
        import shutil; shutil.rmtree(tmp, ignore_errors=True)
        main.__dict__.clear(); main.__dict__.update(mainsaved)
        for n in ('vt_sessmod', 'vt_sessmod2', 'vt_sesspkg.sub'):
            for k in OWN: sys.modules[n].__dict__.pop(k, None)
    return None
