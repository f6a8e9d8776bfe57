"""an importable module for functions stored by value"""
GC = 42
def GF(x): return ('GF', x)
def show(x): return x() if callable(x) else x
