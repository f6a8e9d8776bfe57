"""C28 driver: chains of references in small object graphs"""
import gc, weakref, types, collections
import dill
from dill import pointers

class K1(list):
    __slots__ = ('__weakref__',)
    __hash__ = object.__hash__
class K2:
    __slots__ = (*('r%d' % i for i in range(1, 25)), '__weakref__')
class K3(dict):
    __slots__ = ()
    __hash__ = object.__hash__
class Str(K2):
    __slots__ = ()
    def __str__(self): return 'beef'
def mk(kind):
    if kind == 'list': return []
    if kind == 'dict': return {}
    if kind == 'deque': return collections.deque()
    if kind == 'cell': return types.CellType()
    return {'K1': K1, 'K2': K2, 'K3': K3}[kind]()
def link(kind, a, i, b):
    if kind in ('list', 'K1', 'deque'): a.append(b)
    elif kind in ('dict', 'K3'): a['k%d' % i] = b
    elif kind == 'cell': a.cell_contents = b
    else: setattr(a, 'r%d' % i, b)
FROZEN = []
def run(sc):
    if not FROZEN: gc.collect(); gc.freeze(); FROZEN.append(1)
    nodes = (None, *map(mk, sc['kind']))    # (a tuple: lists and dictionaries are searched for)
    try: return check(sc, nodes)
    finally:
        for k, n in zip(sc['kind'], nodes[1:]):
            if hasattr(n, 'clear'): n.clear()
            elif k == 'cell':
                try: del n.cell_contents
                except ValueError: pass
            else:
                for i in range(1, 25):
                    if hasattr(n, 'r%d' % i): delattr(n, 'r%d' % i)
def check(sc, nodes):
    for a, b in sorted(sc['edges']): link(sc['kind'][a - 1], nodes[a], b, nodes[b])
    num = {id(n): i for i, n in enumerate(nodes) if i}
    obj = nodes[sc['start']]
    goal = {'K1': K1, 'K2': K2, 'K3': K3, 'list': list, 'dict': dict}[sc['goal']]
    edges = {tuple(e) for e in sc['edges']}
    ign = [nodes[i] for i in sc['ignore']]
    if sc['goal'] in ('list', 'dict') and sc['dir'] == 'parents': ign += [K1, K2, K3, collections.deque, types.CellType]    # classes have dictionaries
    fn = getattr(pointers, sc['dir'])
    def judge(how, chain):
        what = '%s gave %r' % (how, [num.get(id(x), type(x)) for x in chain] if isinstance(chain, (list, tuple)) else chain)
        if not isinstance(chain, list): return what
        if sc['dist'] == 99:
            return None if len(chain) == 1 and chain[0] is obj else what + ', expected the object alone'
        if len(chain) != sc['dist'] + 1: return what + ', expected a chain of %d' % (sc['dist'] + 1)
        if any(id(x) not in num for x in chain): return what + ', which is not in the graph'
        ids = [num[id(x)] for x in chain]
        if any((a, b) not in edges for a, b in zip(ids, ids[1:])): return what + ', where an object does not refer to the next'
        first, last = (ids[0], ids[-1]) if sc['dir'] == 'parents' else (ids[-1], ids[0])
        if first != sc['start'] or last not in sc['ends']: return what + ', expected to run from %d to one of %s' % (sc['start'], sc['ends'])
    forms = [('tuple', tuple(ign)), ('list', list(ign))]
    if len(ign) == 1 and sc['kind'][sc['ignore'][0] - 1] in ('K2', 'cell'): forms.append(('object', ign[0]))
    for form, g in forms:
        for types_ in (goal, (goal, memoryview), (complex, goal)):
            bad = judge('%s(ignore as %s)' % (sc['dir'], form), fn(obj, types_, sc['limit'], g) if len(form) % 2 else fn(obj, objtype=types_, depth=sc['limit'], ignore=g))
            if bad: return bad
    if sc['limit'] == 1:
        if not ign:
            bad = judge('default depth', fn(obj, goal))
            if bad: return bad
        if sc['dir'] == 'parents':
            p = pointers.parent(obj, goal, tuple(ign))
            if sc['dist'] in (0, 99):
                if p is not None: return 'parent gave %r' % (p,)
            elif id(p) not in num or num[id(p)] not in sc['ends']: return 'parent gave %r' % (num.get(id(p)),)
    edge = gc.get_referents if sc['dir'] == 'parents' else gc.get_referrers
    chain = pointers.find_chain(obj, lambda x: isinstance(x, goal), edge, sc['limit'], {id(x) for x in ign})
    bad = judge('find_chain', chain[::-1] if sc['dir'] == 'parents' else chain)
    if bad: return bad
    for i, n in enumerate(nodes[1:], 1):
        if gc.is_tracked(n) and pointers.at(id(n)) is not n: return 'at(id) is another object'
        if sc['kind'][i - 1] in ('K1', 'K2'):
            if pointers.reference(weakref.proxy(n)) != id(n): return 'reference of a proxy is wrong'
            if pointers.reference(n) != id(n): return 'reference of an object is wrong'
    return None
