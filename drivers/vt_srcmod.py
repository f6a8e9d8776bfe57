"""what generated source files use"""
import sys
seen, frames, boom = {}, {}, [None]
def deco(f): return f
def decoarg(*a, **k): return lambda f: f
def _reg(i, o): seen.setdefault(i, o)
def _r(key, *a):
    frames['last'] = sys._getframe(1)
    if boom[0] is not None: raise ValueError(boom[0])
    return ('r', key) + a
