#!/usr/bin/env python3
"""seedcheck.py ID... [--notests] [--checks C01,C02]: judge planted bugs in a scratch copy of /repo (never /repo itself).

For each seeded/<ID>: patch applies; the stable tests pass with it; demo.sh exits 0 without it and nonzero with it;
the property's check (or those named) reports it.  Results are appended to .work/seeds.json."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {k: v for k, v in os.environ.items() if k not in ('VERIF_SEED', 'VERIF_TIER')}
def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 'timeout', ''
def tests(root):
    with open('/opt/vp/test.sh') as f: t = f.read()
    t = t.replace('bash /opt/vp/build.sh ||', 'true ||').replace('/repo', root)
    out = root + '.json'
    with open(root + '.test.sh', 'w') as f: f.write(t)
    sh('bash %s.test.sh %s' % (root, out))
    try: a = json.load(open(out))
    except OSError: return ['no result']
    b = json.load(open('/opt/vp/BASELINE.json'))
    base = b.get('passed') or b.get('stable') or b
    return sorted(set(base) - set(a['passed']))
def one(sid, notests, checks):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    root = tempfile.mkdtemp(prefix='seed_')
    r = dict(id=sid, property=meta['property'])
    try:
        cp = os.path.join(root, 'repo'); dm = os.path.join(root, 'demo')
        shutil.copytree('/repo', cp, symlinks=True)
        os.mkdir(dm)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), dm)
        rc, o = sh('bash %s/demo.sh' % dm, cwd=cp, env=dict(PYTHONPATH=cp), timeout=300)
        r['demo_clean'] = rc
        if rc != 0: r['demo_out'] = o[-800:]
        rc, o = sh('git apply %s/patch.diff' % d, cwd=cp)
        if rc != 0: r['apply'] = o; return r
        rc, o = sh('bash %s/demo.sh' % dm, cwd=cp, env=dict(PYTHONPATH=cp), timeout=300)
        r['demo_bug'] = rc
        if rc == 0: r['demo_out'] = o[-800:]
        if not notests: r['tests_missing'] = tests(cp)
        r['checks'] = {}
        for c in checks or [meta['property']]:
            rc, o = sh('python3 %s/check.py %s' % (V, c), cwd=V, env=dict(VT_REPO=cp, VERIF_SEED='1', VERIF_TIER='quick'))
            m = re.findall(r'MISMATCH (.*)', o)
            r['checks'][c] = dict(rc=rc, violation='VIOLATION property=%s' % c in o, why=(m or [o[-300:] if rc not in (0, 1) else ''])[0][:300])
    finally: shutil.rmtree(root, ignore_errors=True)
    ok = r.get('demo_clean') == 0 and r.get('demo_bug') not in (0, None) and not r.get('tests_missing')
    r['counts'] = ok
    r['caught'] = [c for c, x in r.get('checks', {}).items() if x['violation']]
    return r
def main():
    a = sys.argv[1:]
    notests = '--notests' in a
    checks = None
    for x in a:
        if x.startswith('--checks='): checks = x[9:].split(',')
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(os.path.join(V, 'seeded')))
    os.makedirs(os.path.join(V, '.work'), exist_ok=True)
    store = os.path.join(V, '.work', 'seeds.json')
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, notests, checks), ids):
            print(json.dumps(r, indent=None), flush=True)
            try: old = json.load(open(store))
            except Exception: old = {}
            p = old.get(r['id'], {})
            if notests and 'tests_missing' in p: r['tests_missing'] = p['tests_missing']
            c = p.get('checks', {}); c.update(r.get('checks', {})); r['checks'] = c
            old[r['id']] = r
            with open(store, 'w') as f: json.dump(old, f, indent=1)
if __name__ == '__main__': main()
