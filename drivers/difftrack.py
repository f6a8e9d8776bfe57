"""C26 driver: record, change, query"""
import dill
from dill import __diff as diff_
diff = diff_
class Obj: pass
class Sub(list):
    __hash__ = object.__hash__
class DSub(dict):
    __hash__ = object.__hash__
class Leaf:
    __slots__ = ()
    def __hash__(self): return 8
class TLeaf(tuple):
    __slots__ = ()
    def __hash__(self): return 8
def run(sc):
    if 'special' in sc: return special(sc['special'])
    kinds = sc['kind']; n = len(kinds)
    o = {101: Leaf(), 102: TLeaf('leaf')}
    for i in range(n, 0, -1):
        k = kinds[i - 1]
        o[i] = {'obj': Obj, 'list': list, 'dict': dict, 'set': set, 'sub': Sub, 'dsub': DSub}[k]() if k != 'tuple' else (o[i + 1] if i < n else o[101], o[102])
    keys = {201: ('key', 1), 202: 'key2'}; keys.update(o)
    for step, h in enumerate(sc['hist']):
        op = h['op']; x = o[op['n']]; do = op['do']; v = o.get(op.get('v'))
        if do == 'record': r = diff.memorise(x)
        elif do == 'force': r = diff.memorise(x, force=True) if step % 2 else diff.memorise(x, True)
        elif do == 'attr': delattr(x, op['x']) if op['v'] == 0 else setattr(x, op['x'], v)
        elif do == 'key':
            if op['v'] == 0: x.pop(keys[op['k']])
            else: x[keys[op['k']]] = v
        elif do == 'append': x.append(v)
        elif do == 'item': x[op['i'] - 1] = v
        elif do == 'pop': del x[0]
        elif do == 'add': x.add(v)
        elif do == 'remove': x.remove(v)
        rep = h['report']
        for i in range(1, n + 1):
            r = rep[i - 1] if isinstance(rep, list) else rep[str(i)]
            where = ' (object %d of kind %s after %s)' % (i, kinds[i - 1], [q['op'] for q in sc['hist'][:step + 1]])
            try: got = diff.whats_changed(o[i])
            except RuntimeError as e: got = None
            if not r['known']:
                if got is not None: return 'an object never recorded is reported as %r' % (got,) + where
                if diff.has_changed(o[i]) is not True: return 'has_changed of an object never recorded' + where
                continue
            if got is None: return 'RuntimeError for a recorded object' + where
            attrs, seq = got
            want, may = ({a: (None if t == 0 else o[t]) for a, t in r[k]} for k in ('attrs', 'may'))
            if not want.keys() <= attrs.keys() <= may.keys() or any(attrs[a] is not may[a] for a in attrs): return 'attribute changes %s instead of %s' % (sorted(attrs), sorted(want)) + where
            if not r['seq'] <= bool(seq) <= r['seqmay']: return 'container change reported as %r' % (seq,) + where
            if bool(attrs or seq) != r['any']: return 'a change is%s reported' % ('' if attrs or seq else ' not') + where
            if bool(diff.has_changed(o[i])) != r['any']: return 'has_changed disagrees' + where
            if bool(diff.whats_changed(o[i], simple=True)) != r['any']: return 'whats_changed(simple) disagrees' + where
    return None

def special(name):
    import sys, os, types, collections
    if name == 'numpy':
        import numpy
        a = numpy.array([1, 2, 3]); diff.memorise(a)
        return 'numpy array reported as changed though it is not' if diff.has_changed(a) else None
    if name == 'import':
        with open('vt_newmod.py', 'w') as f: f.write('x = [1]\ndef f(): return x\n')
        sys.path.insert(0, os.getcwd())
        try:
            import vt_newmod as m
            first = diff.whats_changed(m)
            if first[0] or first[1]: return 'a module just imported is reported as changed: %r' % (first,)
            m.x.append(2)
            if set(diff.whats_changed(m)[0]) != {'x', '__builtins__'} and set(diff.whats_changed(m)[0]) != {'x'}: return 'reported %r' % (list(diff.whats_changed(m)[0]),)
            m.y = 1; del m.f
            c = diff.whats_changed(m)[0]
            if not {'x', 'y', 'f'} <= set(c) or c['f'] is not None or c['y'] != 1: return 'reported %r' % (c,)
        finally:
            sys.path.pop(0); sys.modules.pop('vt_newmod', None)
        return None
    if name == 'kinds':
        class A: pass
        for mk, ch in ((collections.OrderedDict, lambda d: d.__setitem__(1, 2)), (collections.deque, lambda d: d.append(1)), (lambda: collections.defaultdict(list), lambda d: d[1]),
                       (collections.Counter, lambda d: d.update('a')), (A, lambda a: setattr(a, 'q', 1)), (lambda: type('T', (), {}), lambda t: setattr(t, 'q', 1)),
                       (lambda: types.ModuleType('m'), lambda m: setattr(m, 'q', 1)), (lambda: (lambda: 0), lambda f: setattr(f, 'q', 1)), (lambda: [[], ()], lambda l: l[0].append(1)),
                       (lambda: {1: {2: []}}, lambda d: d[1][2].append(1)), (lambda: ([],), lambda t: t[0].append(1)), (bytearray, lambda b: b.append(1))):
            x = mk()
            try: diff.whats_changed(x); return 'no error for %r' % (x,)
            except RuntimeError: pass
            diff.memorise(x)
            r = diff.whats_changed(x)
            if r[0] or r[1] or diff.has_changed(x): return 'unchanged %r reported as %r' % (x, r)
            ch(x)
            if not diff.has_changed(x): return 'change of %r missed' % (x,)
            diff.memorise(x)   # (already recorded: no effect)
            if not diff.has_changed(x): return 'recording again without force hid the change of %r' % (x,)
        return None
    if name == 'cycle':
        # direct changes in cyclic structures are reported whatever refers back
        a, b = Obj(), Obj(); a.x = b; b.y = a; l = [a]; l.append(l); b.l = l
        diff.memorise(a)
        for q in (a, b, l):
            if diff.has_changed(q): return 'unchanged cycle reported'
        a.z = 1
        if 'z' not in diff.whats_changed(a)[0] or 'y' not in diff.whats_changed(b)[0] or not diff.whats_changed(l)[1]: return 'change in a cycle missed'
        return None
