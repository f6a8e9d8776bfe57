"""importable helpers of the class driver"""
import typing
T = typing.TypeVar('T')
class ImpMeta(type):
    def hello(cls): return 'meta hello ' + cls.__name__
class Descr:
    def __init__(self, v): self.v = v
    def __get__(self, o, t=None): return ('descr', self.v)
class SetName:
    name = None
    def __set_name__(self, owner, name): self.name = name
    def __get__(self, o, t=None): return ('setname', self.name)
def helper(x): return ('helped', x)
def rebuild(cls, v):
    o = cls.__new__(cls); o.__dict__['v'] = v; return o
