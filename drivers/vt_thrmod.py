import collections, dataclasses
def f(a, b=2):
    if a > b:
        return a - b
    return [x * b for x in range(a)]
class K:
    z = 3
    def m(self): return self.z
    def __init__(self, v): self.v = v
NT = collections.namedtuple('NT', 'a b')
@dataclasses.dataclass
class D:
    a: int = 1
