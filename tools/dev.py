#!/usr/bin/env python3
"""dev.py Cxx: run a check but list distinct mismatch reasons (no early stop)"""
import sys, os, re, collections
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/lib'); sys.path.insert(0, here)
import vt, check
class Dev(vt.Ctx):
    def replay(self, driver, scenarios, label=None, confirm=True, **kw):
        kw['stop_after'] = 1 << 30
        res = vt.replay(driver, scenarios, **kw)
        c = collections.OrderedDict()
        for s, r in zip(scenarios, res):
            if r and r.get('bad'):
                c.setdefault(re.sub(r'\s+', ' ', re.sub(r'0x[0-9a-f]+|\d+', '#', str(r['bad'])))[:int(os.environ.get('W', 220))], []).append((s, r))
        self.log(label, len(scenarios), 'scenarios', sum(map(len, c.values())), 'mismatches')
        import json
        for k, v in list(c.items())[:int(os.environ.get('N', 25))]:
            print('  %5d %s' % (len(v), k)); print('        ', json.dumps(v[0][0])[:int(os.environ.get('S', 500))])
            if os.environ.get('TB') and v[0][1].get('tb'): print(v[0][1]['tb'][-1500:])
        return res
pid = sys.argv[1].upper()
ctx = Dev(pid)
check.load(pid).run(ctx)
