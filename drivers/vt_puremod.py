"""an importable module with parts to refer to"""
import types, sys
subs, classes, funcs, readers = [], [], [], []
for _i in range(6):
    exec('def f%d(): pass\nclass C%d:\n    v = 0\n    def meth(self): return self.v\nglob%d = 0\ndef r%d(): return glob%d' % (_i, _i, _i, _i, _i))
    classes.append(globals()['C%d' % _i]); funcs.append(globals()['f%d' % _i]); readers.append(globals()['r%d' % _i])
import vt_puresub0, vt_puresub1, vt_puresub2, vt_puresub3, vt_puresub4, vt_puresub5
subs += [vt_puresub0, vt_puresub1, vt_puresub2, vt_puresub3, vt_puresub4, vt_puresub5]
