"""objects with a source, in a module that can be imported by name"""
import functools
def func(x): return x + 1
lam = lambda x: x * 2
class Klass:
    """a class"""
    a = 7
    def m(self): return 'm' + str(self.a)
class Inst:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(o).__name__ == 'Inst' and self.v == o.v
    def __repr__(self): return 'Inst(%r)' % (self.v,)
def deco(f):
    @functools.wraps(f)
    def g(*a): return f(*a)
    return g
def café(x): return 'é☃𝒳' + x
def multi(a, b=3,
          *args, c=5):
    # a comment
    text = """lines
  more"""
    if a: return (a, b, args, c, text)
    return None
base = 40
def glob(x): return x + base
def rec(n): return 1 if n < 2 else n * rec(n - 1)
def tagged(x):
    # the text that marks the name of stored source
    #NAME: func
    s = '''
#NAME: glob
'''
    return len(s) + x    #NAME: rec
class Tagged:
    #NAME: nothing
    a = '#NAME: func'
    def m(self): return self.a
    #NAME: Klass
def oneline(x): return x #NAME: café
def blank(x):

    y = x + 1

    return y


