#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: read from stdin a JSON-less description:
  lines until '---EDIT path' blocks:  <<<< old ==== new >>>>  ; then ---DEMO python text ; ---NEEDS ; ---BREAKS
Makes seeded/ID from it by editing a scratch copy of /repo and taking git diff."""
import sys, os, re, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
t = sys.stdin.read()
sec = re.split(r'^---(\w+)[ ]?(.*)\n', t, flags=re.M)
secs = [(sec[i], sec[i+1].strip(), sec[i+2]) for i in range(1, len(sec), 3)]
root = tempfile.mkdtemp(prefix='mkseed_')
cp = os.path.join(root, 'repo')
shutil.copytree('/repo', cp, symlinks=True)
demo = needs = breaks = None
for kind, arg, body in secs:
    if kind == 'EDIT':
        p = os.path.join(cp, arg); s = open(p).read()
        for m in re.finditer(r'^<<<<\n(.*?)^====\n(.*?)^>>>>\n', body, re.M | re.S):
            old, new = m.group(1), m.group(2)
            assert s.count(old) == 1, (s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    elif kind == 'DEMO': demo = body
    elif kind == 'NEEDS': needs = (arg + ' ' + body).strip()
    elif kind == 'BREAKS': breaks = (arg + ' ' + body).strip()
diff = subprocess.run(['git', 'diff'], cwd=cp, stdout=subprocess.PIPE, text=True).stdout
cur = None
for l in diff.splitlines():
    if l.startswith('--- a/'): cur = subprocess.run(['git', 'show', 'eec956e:' + l[6:]], cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.splitlines()
    elif l.startswith('-') and l[1:].strip() and l[1:] not in cur: print('NOT ORIGINAL:', l)
assert diff and demo and needs and breaks
d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
open(os.path.join(d, 'demo.py'), 'w').write(demo)
open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nH=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ncp "$H"/*.py "$T"; cd "$T" && exec_py=/opt/venv/bin/python\n[ -x $exec_py ] || exec_py=python3\n$exec_py -W ignore demo.py\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
shutil.rmtree(root)
print('made', sid)
