"""C07/C08/C09 driver: namespaces saved and loaded; every loaded namespace is unified with the specified heap"""
import zlib, sys, io, os, types, warnings, base64, importlib, json
import dill, dill.session

NAME = {'main': '__main__', 'file': 'vt_sessmod', 'sub': 'vt_sesspkg.sub', 'runtime': 'vt_rt_session', 'namesake': 'vt_sess_lam'}

import json.decoder, collections, math, itertools, functools, operator, typing, threading, subprocess, concurrent.futures, array
def detached():
    """a submodule that its package does not hold"""
    if 'vt_det.sub' not in sys.modules:
        for n in ('vt_det', 'vt_det.sub'): sys.modules[n] = types.ModuleType(n); sys.modules[n].__file__ = '/vt/' + n; sys.modules[n].__loader__ = None
        sys.modules['vt_det'].__path__ = []; sys.modules['vt_det.sub'].what = ['detached']
    return sys.modules['vt_det.sub']
STD = [lambda: json, detached, lambda: os.path, lambda: json.decoder, lambda: math, lambda: sys, lambda: concurrent.futures]
IFUN = [json.dumps, collections.OrderedDict, math.sqrt, len, itertools.chain, functools.partial, os.path.join, threading.Thread, typing.List, dict.get, subprocess.Popen, concurrent.futures.Future, array.array]
CONST = [None, False, True, (), '', Ellipsis]
def std(t): return STD[t % len(STD)]()
def ifun(t): return IFUN[t % len(IFUN)]
class World:
    def __init__(self, mk, names):
        self.mk = mk
        self.objs = {}        # node -> live object
        self.origin = {}      # node -> the node it is a copy of
        self.kind = {}
        self.refs = {}
        self.mods = []        # namespaces: (module or None, dict)
        self.tag = {}
        self.helpers = {}
        self.saved = None
        self.floor = 0
        self.fresh_module()
    def fresh_module(self):
        detached()
        name = NAME[self.mk]
        if self.mk in ('runtime', 'namesake'): m = types.ModuleType(name)
        elif self.mk == 'main': m = sys.modules['__main__']
        else: m = importlib.import_module(name)
        self.base = set(m.__dict__)
        self.mods = [(m, m.__dict__)]
        h = types.ModuleType('vt_sess_obj'); sys.modules['vt_sess_obj'] = h
        l = types.ModuleType('vt_sess_lam'); sys.modules['vt_sess_lam'] = l
        self.h = {'obj': h, 'lam': l}
    def helper(self, what, x, node):
        if what == 'obj': v = ['helper', x, node]
        else: v = eval('lambda: %r' % (['lam', x, node],), self.h['lam'].__dict__); self.h['lam'].__dict__.pop('__builtins__', None)
        setattr(self.h[what], x, v)
        self.objs[node] = v; self.kind[node] = 'h' + what; self.refs[node] = []
        self.tag[node] = v if what == 'obj' else v()
    def orig(self, node):
        while node in self.origin: node = self.origin[node]
        return node

def make(w, m, x, k, node, refs):
    d = m.__dict__
    t = node
    o = [w.objs[r] for r in refs]
    had = '__builtins__' in d
    if k == 'list': return []
    if k == 'int': return 1000003 * (t + 7)
    if k == 'const': return CONST[t % len(CONST)]
    if k == 'std': return std(t)
    if k == 'ifun': return ifun(t)
    if k == 'self': return m
    if k == 'ns': return d
    old = d.get(x, d)
    try:
        if k == 'func': exec('def %s(): return (%d, a)' % (x, t), d)
        elif k == 'class': exec('class %s:\n  tag = %d\n  def m(self): return (self.tag, a)\n  def b(self): return __class__' % (x, t), d)
        elif k == 'inst': return o[0]()
        elif k == 'meth': return o[0].m
        elif k == 'clos': exec('def _mk(v):\n  def _f(): return (%d, v, a)\n  return _f' % t, d); return d.pop('_mk')(*o)
        return d[x]
    finally:
        if old is d: d.pop(x, None)
        else: d[x] = old

def fail(msg): raise Mismatch(msg)
class Mismatch(Exception): pass

def unify(w, node, obj, mod, d, path, seen):
    """node is specified, obj is real"""
    k = w.kind[node]
    if w.floor and node <= w.floor and k != 'int':     # what a dictionary starts from: the very objects of the live module
        live = {'self': w.mods[0][0], 'ns': w.mods[0][1]}.get(k, w.objs.get(node))
        if k in ('const', 'std', 'ifun'): live = {'const': CONST[w.orig(node) % len(CONST)], 'std': std(w.orig(node)), 'ifun': ifun(w.orig(node))}[k]
        if obj is not live: fail('%s is %r, not the current object of the module' % (path, obj))
        return
    if k in ('self', 'ns', 'std', 'const', 'ifun', 'int', 'meth'):
        if k == 'self':
            if not (isinstance(obj, types.ModuleType) and obj.__dict__ is d): fail('%s is %r, not the restored module' % (path, obj))
            if mod is not None and obj is not mod: fail('%s is %r, not the restored module' % (path, obj))
        elif k == 'ns':
            if obj is not d: fail('%s is not the dictionary of the restored module' % path)
        elif k == 'std':
            if obj is not std(w.orig(node)): fail('%s is %r, not the module %s' % (path, obj, std(w.orig(node)).__name__))
        elif k == 'ifun':
            if obj is not ifun(w.orig(node)): fail('%s is %r, not %r' % (path, obj, ifun(w.orig(node))))
        elif k == 'const':
            if obj is not CONST[w.orig(node) % len(CONST)]: fail('%s is %r, not %r' % (path, obj, CONST[w.orig(node) % len(CONST)]))
        elif k == 'int':
            if obj != 1000003 * (w.orig(node) + 7): fail('%s is %r, another value than the one saved' % (path, obj))
        elif k == 'meth':
            if type(obj) is not types.MethodType: fail('%s is %r, not a bound method' % (path, obj))
            unify(w, w.refs[node][0], obj.__self__, mod, d, path + '.__self__', seen)
            if obj.__func__ is not type(obj.__self__).m: fail('%s is not bound to the method of its class' % path)
        return
    if node in w.objs:
        if w.objs[node] is not obj: fail('%s is not the object it should be: %r, expected %r' % (path, obj, w.objs[node]))
        if node in seen: return
    else:
        for n2, o2 in w.objs.items():
            if o2 is obj: fail('%s is an object that exists elsewhere (%s %d), not a restored copy' % (path, w.kind[n2], n2))
        w.objs[node] = obj
    seen.add(node)
    t = w.orig(node)
    if k == 'list':
        if type(obj) is not list: fail('%s is %r, not a list' % (path, obj))
        if len(obj) != len(w.refs[node]): fail('%s has %d items, expected %d' % (path, len(obj), len(w.refs[node])))
        for i, (r, o) in enumerate(zip(w.refs[node], obj)): unify(w, r, o, mod, d, '%s[%d]' % (path, i), seen)
        return
    if k == 'hobj':
        if obj != w.tag[t]: fail('%s is %r, expected %r' % (path, obj, w.tag[t]))
        return
    if k == 'hlam':
        if not isinstance(obj, types.FunctionType) or obj() != w.tag[t]: fail('%s is %r, not a copy of the function' % (path, obj))
        return
    attrs = w.refs[node]
    if k in ('func', 'clos'):
        if type(obj) is not types.FunctionType: fail('%s is %r, not a function' % (path, obj))
        if obj.__globals__ is not d: fail('%s is not bound to the restored namespace' % path)
        if k == 'clos':
            unify(w, attrs[0], obj.__closure__[0].cell_contents, mod, d, path + '.<cell>', seen)
            return
        if 'a' in d:
            r = obj()
            if r[0] != t or r[1] is not d['a']: fail('%s() does not see the restored namespace' % path)
    elif k == 'class':
        if not isinstance(obj, type): fail('%s is %r, not a class' % (path, obj))
        if obj.tag != t: fail('%s is another class than the one saved' % path)
        if obj.m.__globals__ is not d: fail('a method of the class %s is not bound to the restored namespace' % path)
        if obj().b() is not obj: fail('__class__ in a method of %s is not the restored class' % path)
        return
    elif k == 'inst':
        unify(w, attrs[0], type(obj), mod, d, 'type(%s)' % path, seen)
        attrs = attrs[1:]
        if 'a' in d and (obj.m()[0] != w.orig(w.refs[node][0]) or obj.m()[1] is not d['a']): fail('%s.m() does not see the restored namespace' % path)
    names = sorted(obj.__dict__)
    if names != ['at%d' % i for i in range(len(attrs))]: fail('%s has attributes %s, expected %d' % (path, names, len(attrs)))
    for i, r in enumerate(attrs): unify(w, r, getattr(obj, 'at%d' % i), mod, d, '%s.at%d' % (path, i), seen)

ADDED = {'__builtins__', '__session__', '__loader__'}
def check(w, t, want, names, extra=()):
    mod, d = w.mods[t]
    for x in names:
        if want[x] == 0:
            if x in d: fail('the name %s is bound to %r, expected unbound' % (x, d[x]))
        elif x not in d: fail('the name %s is missing' % x)
    seen = set()
    for x in names:
        if want[x]: unify(w, want[x], d[x], mod, d, x, seen)
    odd = [k for k in d if k not in names and k not in w.base and k not in ADDED]
    if odd: fail('unexpected names in the restored namespace: %s' % odd)

# names that the names of the specification may stand for
ALIASES = [dict(b='__annotations__', c='__all__', d='_'), dict(b='_private', c='print', d='__version__'), dict(b='\u00fcn\u00ef', c='list', d='__dill__'), dict(b='json', c='__wrapped__', d='__x'), {}]
def rename(v, al):
    if isinstance(v, str): return al.get(v, v)
    if isinstance(v, list): return [rename(x, al) for x in v]
    if isinstance(v, dict): return {(al.get(k, k) if k in ('a', 'b', 'c', 'd', 'x') else k): rename(x, al) for k, x in v.items()}
    return v
def run(sc):
    al = ALIASES[zlib.crc32(json.dumps(sc, sort_keys=True).encode()) % len(ALIASES)]
    return go(dict(sc, hist=rename(sc['hist'], al), hn=rename(sc['hn'], al)), 0, None, None)

fresh = None
def resume(data, sc, at, snap, pnames):
    return {'res': go(sc, at, data, snap, pnames)}

def norm(v): return dict(v) if isinstance(v, dict) else v

def go(sc, at, data, snap, pnames=()):
    global fresh
    main = sys.modules['__main__']
    mainsaved = dict(main.__dict__)
    hn = sc['hn']
    w = World(sc['mk'], hn)
    names = [x for x in hn if x != 'x']
    cur = 0
    state = [{x: 0 for x in names}]
    if sc['mk'] in ('file', 'sub', 'main'):
        for x in names: w.mods[0][1].pop(x, None)
    try:
        if at == 0:
            for i, x in enumerate(hn):
                w.helper('obj', x, i + 1); w.helper('lam', x, len(hn) + i + 1)
        else:
            for i, q in enumerate(snap, 1):
                w.kind[i] = q['k']; w.refs[i] = q['refs']; w.tag[q['orig']] = q['tag']
                if q['orig'] != i: w.origin[i] = q['orig']
            base = sc['hist'][at][1]
            for i, x in enumerate(hn):
                w.helper('obj', x, base + i + 1); w.helper('lam', x, base + len(hn) + i + 1)
            w.base |= set(pnames) - set(names)
            at += 1
        for pos in range(at, len(sc['hist'])):
            a = sc['hist'][pos]; op = a[0]
            m, d = w.mods[cur]
            if op == 'new':
                x, k, node, refs = a[1:]
                v = make(w, m, x, k, node, refs)
                w.objs[node] = v; w.kind[node] = k; w.refs[node] = list(refs)
                d[x] = v; state[cur][x] = node
            elif op == 'import':
                x, what, y, node = a[1:]
                d[x] = getattr(w.h[what], y); state[cur][x] = node
            elif op == 'alias': d[a[1]] = d[a[2]]; state[cur][a[1]] = state[cur][a[2]]
            elif op == 'contain':
                x, y, v, r = a[1:]
                o = d[x]
                if w.kind[v] == 'list': o.append(d[y])
                else:
                    k = len(w.refs[v]) - (w.kind[v] == 'inst')
                    setattr(o, 'at%d' % k, d[y])
                w.refs[v] = w.refs[v] + [r]
            elif op == 'delete': del d[a[1]]; state[cur][a[1]] = 0
            elif op == 'helper': w.helper(a[1], a[2], a[3])
            elif op == 'dump':
                snap = [{'k': w.kind[i], 'refs': list(w.refs[i]), 'tag': w.tag.get(w.orig(i)), 'orig': w.orig(i)} for i in range(1, a[2] + 1)]
                pnames = sorted(d)
                before = list(d.items())
                buf = io.BytesIO()
                mods = dict(sys.modules)
                arg = m
                kw = dict(refimported=True) if a[1] else {}
                if m is main and pos % 2: arg = None
                if sc['mk'] in ('file', 'sub') and pos % 3 == 0: arg = NAME[sc['mk']]
                if sc.get('file') and pos % 2: kw2 = None
                try: dill.dump_module(buf, arg, **kw)
                except Exception as e: return 'saving failed: %s: %s (step %d of %s)' % (type(e).__name__, str(e)[:200], pos, sc['hist'])
                data = buf.getvalue()
                after = list(d.items())
                if [k for k, v in after] != [k for k, v in before] or any(u is not v for (_, u), (_, v) in zip(before, after)):
                    return 'saving changed the live module: %s' % ([k for k, v in set_diff(before, after)],)
                if any(sys.modules.get(k) is not v for k, v in mods.items()) : return 'saving changed the table of imported modules'
                check(w, cur, state[cur], names)
            elif op == 'restart':
                if fresh is None:
                    import freshproc
                    fresh = freshproc.Fresh('sessions')
                r = fresh.call('resume', data, sc, pos, snap, pnames)
                if 'error' in r: return 'in a fresh process: ' + r['error']
                return r['res'] and 'in a fresh process: ' + r['res']
            elif op == 'load':
                form, t, base, want = a[1:]
                t -= 1
                want = {x: want[x] for x in names}
                for i, s in enumerate(snap, 1):
                    if base + i not in w.kind:
                        w.kind[base + i] = s['k']; w.refs[base + i] = [base + r for r in s['refs']]; w.origin[base + i] = i
                live = [(mm, dd, list(dd.items())) for mm, dd in w.mods]
                table = dict(sys.modules)
                target = None
                if form == 'obj': target = w.mods[t][0]
                elif form == 'str': target = NAME[sc['mk']]
                elif form == 'empty': target = types.ModuleType(NAME[sc['mk']])
                src = io.BytesIO(data + (b'' if pos % 2 else b'trailing'))
                try:
                    if form in ('dict', 'update'): r = dill.load_module_asdict(src, update=(form == 'update'))
                    else: r = dill.load_module(src, module=target) if target is not None else dill.load_module(src)
                except Exception as e: return 'loading failed: %s: %s (step %d of %s)' % (type(e).__name__, str(e)[:200], pos, sc['hist'])
                new = {k for k in sys.modules if k not in table}
                if any(sys.modules.get(k) is not v for k, v in table.items()): return 'loading changed the table of imported modules'
                if [k for k in new if k.startswith(('__runtime__', 'vt_'))]: return 'loading left %s in the table of imported modules' % sorted(new)
                if form in ('dict', 'update'):
                    if type(r) is not dict: return 'load_module_asdict returned %r' % (r,)
                    if any(r is dd for _, dd in w.mods): return 'load_module_asdict returned the dictionary of a live module'
                    w.mods.append((None, r)); state.append(None)
                    if r.get('__name__') != NAME[sc['mk']]: return '__name__ is %r' % r.get('__name__')
                elif t == len(w.mods):
                    mm = target if form == 'empty' else r
                    if form == 'empty' and r is not None: return 'load_module returned %r although the module was given' % (r,)
                    if not isinstance(mm, types.ModuleType) or mm.__name__ != NAME[sc['mk']] or mm in [q for q, _ in w.mods]: return 'load_module returned %r' % (mm,)
                    w.mods.append((mm, mm.__dict__)); state.append(None); cur = t
                else:
                    exp = None if form == 'obj' or sc['mk'] == 'main' else w.mods[t][0]
                    if r is not exp: return 'load_module returned %r, expected %r' % (r, exp)
                state[t] = dict(want)
                w.floor = base if form in ('update', 'dict') else 0
                check(w, t, want, names)
                w.floor = 0
                for i, (mm, dd, items) in enumerate(live):
                    now = list(dd.items())
                    if i == t:
                        # what is not part of the saved state stays
                        lost = [k for k, v in items if k not in dd]
                        if lost: return 'loading removed %s from the module' % lost
                        continue
                    if [k for k, v in now] != [k for k, v in items] or any(u is not v for (_, u), (_, v) in zip(now, items)):
                        return 'loading changed another module: %s (step %d of %s)' % (set_diff(items, now), pos, sc['hist'])
                for i in range(len(live)):
                    if i != t and w.mods[i][0] is not None: check(w, i, state[i], names)
    except Mismatch as e:
        return '%s (step %d of %s)' % (e, pos, sc['hist'])
    finally:
        main.__dict__.clear(); main.__dict__.update(mainsaved)
        if w.mods[0][0] is not main:
            for x in names: w.mods[0][1].pop(x, None)
        for x in ('vt_sess_obj', 'vt_sess_lam'): sys.modules.pop(x, None)
    return None

def set_diff(a, b):
    da, db = dict(a), dict(b)
    return [(k, 'lost' if k not in db else 'new' if k not in da else 'changed') for k in {**da, **db} if k not in da or k not in db or da[k] is not db[k]]
