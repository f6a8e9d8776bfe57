import dataclasses, collections, enum, functools, typing, abc
def top(a, b=2, *c, k=None, **d): return a
def ident(*a, **k): return a
@functools.lru_cache(None)
def cached(x): return x
@functools.singledispatch
def single(x): return x
class Meta(type): pass
class WithMeta(metaclass=Meta): pass
class Proto(typing.Protocol):
    def m(self): ...
class Colour(enum.Enum):
    RED = 1
class Outer:
    def meth(self): pass
    @staticmethod
    def stat(): pass
    def __lt__(self, other): return True
    class Inner:
        def method(self): pass
class Base:
    def who(self): return 'base'
    @classmethod
    def cm2(cls): return cls
class Mid(Base):
    def who(self): return 'mid'
class Inst(Mid):
    def __init__(self, v): self.v = v
    def meth(self): return 'meth', self.v
    def who(self): return 'inst'
    @classmethod
    def cm(cls): return cls
class Err(ValueError): pass
class Slots:
    __slots__ = ('a', 'b')
def slots(a):
    s = Slots(); s.a = a; return s
@dataclasses.dataclass(eq=False)
class DC:
    a: int
    b: object
NT = collections.namedtuple('NT', 'x y')
