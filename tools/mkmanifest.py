#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in checks/ (LEVELS: how each property is decided)."""
import json, os, importlib.util, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'lib'))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(here, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet')); continue
    spec = importlib.util.spec_from_file_location('c', path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       technique=m.TECHNIQUE, level='model_checking', level_note=m.NOTE))
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
               notes='TLA+ specifications in specs/, checked and enumerated with TLC, bound to the code by replay (drivers/) and trace validation. No hooks in /repo.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
