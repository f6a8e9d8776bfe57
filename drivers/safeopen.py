"""C11 driver: saves and loads by path while what the path names is changed before chosen file-system calls"""
import os, sys, pickletools, shutil, tempfile, stat, warnings, types, pathlib, io, zlib
ROOT = os.path.realpath(os.getcwd())
os.environ['TMPDIR'] = os.path.join(ROOT, 'shared'); os.makedirs(os.environ['TMPDIR'], exist_ok=True)
tempfile.tempdir = None
import dill
FORK = True
DEFAULT = os.path.join(os.environ['TMPDIR'], 'session.pkl')
def mod(v):
    m = types.ModuleType('vt_so'); m.v = v; return m
def session(v):
    b = io.BytesIO(); dill.dump_module(b, module=mod(v)); return b.getvalue()
BY = {k: session(k) for k in ('mine', 'other', 'shared', 'victim')}
class Bad:
    def __reduce__(self): raise KeyError('unpicklable')
state = dict(on=False, n=0)
def put(p, what, own):
    """let the path name something else"""
    try: st = os.lstat(p)
    except OSError: st = None
    if st is not None:
        if stat.S_ISDIR(st.st_mode): os.rmdir(p)
        else: os.unlink(p)
    d = os.path.dirname(p)
    if what in ('mine', 'other', 'shared'):
        with open(p, 'wb') as f: f.write((BY[what] if not state.get('junk') else b'junk') + b'x' * 9999)
        os.chmod(p, 0o644 if what == 'other' else 0o640)
        own[what].append(os.stat(p).st_ino)
        if what == 'shared': os.link(p, os.path.join(d, 'second%d' % len(own[what])))
        own['keep'].append(os.open(p, os.O_RDONLY))   # (so that inode numbers are not reused)
    elif what == 'link': os.symlink(os.path.join(ROOT, own['dir'], 'victim'), p)
    elif what == 'linknew': os.symlink('victimnew', p)
    elif what == 'linkdir': os.symlink('victimdir', p)
    elif what == 'linkloop': os.symlink(os.path.basename(p), p)
    elif what == 'linkown': os.symlink('alias', p)
    elif what == 'dir': os.mkdir(p)
def fds():
    r = set()
    for x in os.listdir('/proc/self/fd'):
        try: r.add((x, os.readlink('/proc/self/fd/' + x)))
        except OSError: pass
    return r
BUSY = []
def run(sc):
    k = zlib.crc32(str((sc['mode'], sc['first'], sc['cont'], sc['acts'])).encode())
    own = dict(mine=[], other=[], shared=[], keep=[], dir='t')
    default = sc.get('default', k % 4 == 0)
    d = os.path.dirname(DEFAULT) if default else os.path.join(ROOT, 't')
    shutil.rmtree(d, ignore_errors=True); os.mkdir(d)
    own['dir'] = d
    p = DEFAULT if default else os.path.join(d, 'sess.pkl')
    umask = (0, 0o022, 0o077, 0o002)[k // 4 % 4]; os.umask(0)
    state['junk'] = sc['cont'] == 'bad' and sc['mode'] != 'write'
    with open(os.path.join(d, 'victim'), 'wb') as f: f.write(BY['victim'])
    os.symlink('victim', os.path.join(d, 'alias'))
    os.mkdir(os.path.join(d, 'victimdir'))
    vic = os.stat(os.path.join(d, 'victim'))
    if sc['first'] != 'absent': put(p, sc['first'], own)
    acts = [(a['at'], a['to']) for a in sc['acts']]
    did = [0]; count = [0]
    def hit():
        if BUSY: return
        BUSY.append(1)
        try:
            count[0] += 1
            while did[0] < len(acts) and acts[did[0]][0] <= count[0]:
                put(p, acts[did[0]][1], own); did[0] += 1
        finally: BUSY.pop()
    on = [False]
    def audit(ev, args):
        if on[0] and not BUSY and ev.startswith(('open', 'os.')) and args and isinstance(args[0], (str, bytes, os.PathLike)) and os.path.basename(os.fsdecode(args[0])) in ('session.pkl', 'sess.pkl'): hit()
    sys.addaudithook(audit)
    def prof(frame, ev, arg):
        if ev == 'c_call' and getattr(arg, '__module__', None) in ('posix', 'nt') and arg.__name__ in FSCALLS: hit()
    form = k // 16 % 4
    os.umask(umask)
    if default: arg = None
    elif form == 0: arg = p
    elif form == 1: arg = pathlib.Path(p)
    elif form == 2: os.chdir(d); arg = 'sess.pkl'
    else: arg = os.fsencode(p) if sc['mode'] != 'asdict' else p
    m = mod('saved'); n = mod('unread')
    if sc['cont'] == 'bad': m.bad = Bad()
    old = sc.get('old', k // 64 % 3 == 0)
    if sc['mode'] == 'write': call = (lambda: dill.dump_session(arg, m)) if old else (lambda: dill.dump_module(arg, module=m) if arg is not None else dill.dump_module(module=m))
    elif sc['mode'] == 'read': call = (lambda: dill.load_session(arg, n) if arg is not None else dill.load_session(main=n)) if old else (lambda: dill.load_module(arg, n) if arg is not None else dill.load_module(module=n))
    else: call = lambda: dill.load_module_asdict(arg) if arg is not None else dill.load_module_asdict()
    before = fds() ; err = res = None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        on[0] = True; sys.setprofile(prof)
        try: res = call()
        except BaseException as e:
            sys.setprofile(None); on[0] = False
            err = e
            leak = fds() - before
        else: sys.setprofile(None); on[0] = False; leak = fds() - before
    keep = {str(f) for f in own['keep']}
    leak = {x for x in leak if x[0] not in keep and '/proc/' not in x[1]}
    if leak: return 'file handle left open after %s: %r' % ('failure' if err else 'success', leak)
    sec = [x for x in w if issubclass(x.category, UserWarning) and 'default session file' in str(x.message)]
    if default and len(sec) != 1: return '%d security warnings for the default path' % len(sec)
    if default and not any('Security' in x.category.__name__ for x in sec): return 'warning of category %s' % sec[0].category
    if not default and sec: return 'security warning for an explicit path'
    # what links lead to is untouched
    v = os.path.join(d, 'victim'); st = os.stat(v)
    with open(v, 'rb') as f:
        if f.read() != BY['victim']: return 'the target of a symbolic link was written to'
    if (st.st_ino, st.st_mode, st.st_mtime_ns) != (vic.st_ino, vic.st_mode, vic.st_mtime_ns): return 'the target of a symbolic link was changed'
    if os.path.lexists(os.path.join(d, 'victimnew')): return 'a file was created through a symbolic link'
    if os.listdir(os.path.join(d, 'victimdir')): return 'a file was created through a symbolic link'
    allowed = set(sc['allowed'][did[0]])
    where = ' (%s, path named %s, then %r of which %d happened, %s, umask %o)' % (sc['mode'], sc['first'], acts, did[0], arg, umask)
    failed = sc['cont'] == 'bad'
    if err is not None and not (failed and isinstance(err, KeyError) or failed and sc['mode'] != 'write' and not isinstance(err, OSError)):
        if not isinstance(err, OSError): return 'unexpected %s: %s' % (type(err).__name__, err) + where
        if isinstance(err, FileNotFoundError):
            ok = 'missing' in allowed
        else: ok = 'refused' in allowed
        return None if ok else 'failed with %s: %s' % (type(err).__name__, err) + where
    if failed and err is None: return 'did not fail' + where
    good = allowed - {'missing', 'refused'}
    if not good: return 'did not refuse' + where
    if sc['mode'] != 'write':
        if failed: return None
        got = res['v'] if sc['mode'] == 'asdict' else n.v
        if got not in good: return 'loaded the session %r' % got + where
        return None
    # writing: where is it
    cand = []
    for f in sorted(os.listdir(d)):
        q = os.path.join(d, f)
        if stat.S_ISREG(os.lstat(q).st_mode) and f != 'victim': cand.append(q)
    found = None
    for q in cand:
        st = os.stat(q)
        kind = next((x for x in ('mine', 'other', 'shared') if st.st_ino in own[x]), 'created')
        with open(q, 'rb') as f: data = f.read()
        if kind in BY and data == BY[kind] + b'x' * 9999: continue
        if kind == 'created':
            if st.st_mode & 0o777 != (0o600 & ~umask): return 'session file created with permissions %o' % (st.st_mode & 0o777) + where
        elif st.st_mode & 0o777 != (0o644 if kind == 'other' else 0o640): return 'permissions of an existing file changed to %o' % (st.st_mode & 0o777) + where
        if kind not in good: return 'session written to a file that is %s' % kind + where
        if kind == 'shared' and st.st_nlink != 2 and not any(t != 'shared' for _, t in acts): return 'an existing file was replaced' + where
        found = q
        if not failed:
            try: n = dill.load_module(io.BytesIO(data)); assert n.v == 'saved'
            except BaseException as e: return 'the file does not hold the session (%r)' % e + where
            if max(pos for _, _, pos in pickletools.genops(data)) + 1 != len(data): return 'the file holds more than the session' + where
    if found is None and not failed and not (acts[:did[0]] and True): return 'the session is not in any file' + where
    if not acts:
        if failed: return None
        if found is None or os.path.realpath(found) != os.path.realpath(p) and 'second' not in found: return 'the session is not at the path' + where
        if sc['first'] in own and own[sc['first']] and os.lstat(p).st_ino not in own[sc['first']]: return 'an existing regular file was replaced by another' + where
    return None
FSCALLS = {'stat', 'lstat', 'access', 'readlink', 'unlink', 'remove', 'rename', 'replace', 'chmod', 'fchmod', 'link', 'symlink', 'truncate', 'mkdir', 'rmdir', 'listdir', 'scandir'}
