"""objects of which each part is copied as told"""
class Node:
    def __init__(self, num, kind, held=(), attrs=None, unread=()):
        self.__dict__.update(_n=num, _k=kind, _h=tuple(held), _a=dict(attrs or {}), _u=dict(unread))
    def __dir__(self): return list(self._a) + list(self._u)
    def __getattr__(self, name):
        d = self.__dict__
        if name in d.get('_u', ()): raise d['_u'][name]('unreadable')
        if name in d.get('_a', ()): return d['_a'][name]
        raise AttributeError(name)
    def __reduce__(self):
        e = {'dumpT': TypeError, 'dumpV': ValueError, 'dumpA': AttributeError, 'dumpP': __import__('pickle').PicklingError}.get(self._k)
        if e: raise e('as told')
        return make, (self._n, self._k, self._h)
    def __eq__(self, other):
        if not isinstance(other, Base) : return NotImplemented
        return self._k not in ('neq', 'othertype', 'looks') and self._n == other._n and self._h == other._h
    __hash__ = None
    def __bool__(self): return self._n % 2 == 0
class Base: pass
Node = type('Node', (Base,), {k: v for k, v in vars(Node).items() if k not in ('__dict__', '__weakref__')})
class Other(Node): pass
class Unhashable(list): pass
def make(num, kind, held):
    e = {'loadT': TypeError, 'loadK': KeyError, 'loadR': RuntimeError, 'loadU': __import__('pickle').UnpicklingError}.get(kind)
    if e: raise e('as told')
    if kind == 'looks':
        return type('Node', (Base,), dict(vars(Node)))(num, kind, held)
    return (Other if kind in ('othertype', 'othereq') else Node)(num, kind, held)
