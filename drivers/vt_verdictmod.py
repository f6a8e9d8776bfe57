import warnings, pickle
class Res:
    def __init__(self, how): self.how = how
    def __bool__(self):
        if self.how == 'falsy': return False
        if self.how == 'boolValueError': raise ValueError('truth')
        if self.how == 'boolTypeError': raise TypeError('truth')
        return True
class Arr(Res):
    def toarray(self):
        if self.how == 'arrKeyError': raise KeyError('toarray')
        return Arr2(self.how)
class Arr2:
    def __init__(self, how): self.how = how
    def all(self): return self.how == 'arrtrue'
ERR = {}
def err(name):
    import builtins
    return getattr(builtins, name, None) or getattr(pickle, name)
def restore(state, cls):
    if state['load'] != 'ok': raise err(state['load'])('on load')
    o = CLS[cls].__new__(CLS[cls]); o.__dict__.update(state); o.copied = True
    return o
class Plain:
    def __init__(self, **k): self.__dict__.update(k); self.copied = False
    def __reduce_ex__(self, proto):
        if self.dump != 'ok': raise err(self.dump)('on dump')
        t = {'same': type(self).__name__, 'sub': 'Sub' + type(self).__name__, 'looks': 'Looks' + type(self).__name__, 'other': 'Other' + type(self).__name__}[self.typ]
        return restore, (dict(vars(self)), t)
    def __eq__(self, other):
        e = self.eq
        if e == 'warn': warnings.warn('compared'); return True
        if e == 'filter': warnings.simplefilter('always'); warnings.filterwarnings('error', 'never'); return True
        if e == 'notimpl': return NotImplemented
        if e in ('true', 'false'): return e == 'true'
        if e in ('truthy', 'falsy', 'boolValueError', 'boolTypeError'): return Res(e)
        if e.startswith('arr'): return Arr(e)
        raise err(e)('compared')
    __hash__ = None
class WithAll(Plain):
    def all(self):
        a = self.al
        if a == 'equal': return 1
        if a == 'differ': return self.copied
        if a == 'warn': warnings.warn('all'); return 1
        raise err(a)('all')
class Like(type):
    def __repr__(cls): return repr(cls.__bases__[0])
def family(c):
    n = c.__name__
    CLS[n] = c; CLS['Sub' + n] = type('Sub' + n, (c,), {})
    CLS['Looks' + n] = Like('Looks' + n, (c,), {})
    CLS['Other' + n] = type('Other' + n, (c,), {})
CLS = {}
family(Plain); family(WithAll)
