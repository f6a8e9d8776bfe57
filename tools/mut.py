#!/usr/bin/env python3
"""mut.py Cxx FILE <<< 'old ==> new' : run a check (dev mode) on a scratch copy of dill with one textual change"""
import sys, os, shutil, subprocess, tempfile
pid, f = sys.argv[1:3]
old, new = sys.stdin.read().replace('\\n', '\n').rstrip('\n').split('==>')
old, new = old.strip('\n'), new.strip('\n')
if old.startswith(' ') and old.endswith(' '): old = old[:-1]
d = tempfile.mkdtemp(prefix='vt_mut_')
try:
    shutil.copytree(os.environ.get('VT_BASE', '/repo') + '/dill', d + '/dill')
    p = os.path.join(d, 'dill', f); s = open(p).read()
    assert s.count(old) >= 1, 'text not found'
    open(p, 'w').write(s.replace(old, new))
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'dev.py'), pid], env=dict(os.environ, VT_REPO=d, N=os.environ.get('N', '4'), S='250'), text=True, capture_output=True)
    print(r.stdout[-3000:], r.stderr[-1500:])
finally: shutil.rmtree(d)
