"""C12 driver: handles on scratch files, pickled in the three file modes"""
import os, sys, zlib, io, tempfile
import dill
FM = dict(handle=dill.HANDLE_FMODE, contents=dill.CONTENTS_FMODE, file=dill.FILE_FMODE)
CH = 'z1\n3456789'
CHB = 'z1\n\xff45678\r'
def text(c): return ''.join('\0' if x == 0 else CH[x] for x in c)
def enc(c): return text(c).encode('latin-1')
def data(path):
    if not os.path.lexists(path): return None
    with open(path, 'rb') as f: return f.read().decode('latin-1')
def pymode(m): return m['k'] + ('b' if m['bin'] else '') + ('+' if m['plus'] else '')
def want(c): return None if c == [99] else text(c)
def run(sc):
    if 'special' in sc:
        for p in range(6):
            for f in (sys.__stdin__, sys.__stdout__, sys.__stderr__):
                for fm in FM.values() if f.readable() and False else (0, 1):
                    if dill.copy([f], protocol=p, fmode=fm)[0] is not f: return 'standard stream %r is not itself' % f.name
        return None
    return history(sc)
def history(sc):
    global CH
    CH = CHB if any(h.get('m', {}).get('bin') for h in sc['hist']) else 'z1\n3456789'
    k = zlib.crc32(repr(sc['hist']).encode())
    d = tempfile.mkdtemp(dir='.')
    path = os.path.join(d, ('plain.txt', 'dotted.name.dat', '<odd> name')[k % 3])
    if k // 3 % 2: path = os.path.abspath(path)
    f = g = pik = None; txt = False
    def fail(msg): return '%s; history: %s' % (msg, [' '.join(str(v) for v in h.values()) for h in sc['hist']])
    try:
        for h in sc['hist']:
            do = h['do']
            if do == 'start':
                if want(h['file']) is not None:
                    with open(path, 'wb') as q: q.write(enc(h['file']))
            elif do == 'open':
                m = h['m']; txt = not m['bin']
                f = open(path, pymode(m), **({} if txt or k // 24 % 3 else dict(buffering=0)))
            elif do in ('read', 'read2'):
                q = f if do == 'read' else g
                r = q.read(h['n']); r = r if txt else r.decode('latin-1')
                if r != text(h['got']): return fail('read %r instead of %r' % (r, text(h['got']))) if do == 'read2' else fail('model: read %r' % r)
            elif do in ('write', 'write2'):
                q = f if do == 'write' else g
                s = CH[h['x']]
                if q.readable() and 'a' not in q.mode: q.seek(q.tell())
                q.write(s if txt else s.encode('latin-1'))
            elif do == 'seek': f.seek(h['p'])
            elif do == 'close': f.close()
            elif do == 'pickle':
                if not f.closed and f.writable() and 'a' in f.mode: f.flush()   # (before this, tell() is a guess)
                state = (f.closed, None if f.closed else f.tell(), f.name, f.mode)
                kw = dict(fmode=FM[h['fm']])
                if h['fm'] == 'handle' and k // 48 % 2: kw = {}
                proto = k // 192 % 6
                b = io.BytesIO(); pickler = dill.Pickler(b, proto, **kw)
                pickler.dump(f if k % 5 else [f, {'again': f}])
                pik = b.getvalue()
                if state != (f.closed, None if f.closed else f.tell(), f.name, f.mode): return fail('pickling changed the handle from %r to %r' % (state, (f.closed, None if f.closed else f.tell(), f.name, f.mode)))
            elif do == 'remove': os.remove(path)
            elif do == 'rewrite':
                if k // 7 % 2 and os.path.exists(path): os.remove(path)
                with open(path, 'wb') as q: q.write(enc(h['file']))
            elif do == 'extend':
                with open(path, 'ab') as q: q.write(CH[8].encode())
            elif do == 'shorten': os.truncate(path, 1)
            elif do == 'load':
                try: g = dill.loads(pik); err = None
                except Exception as e: g = None; err = e
                res = h['res']
                if err is not None and not (res == 'handle' or res == 'temporary'):
                    if type(err).__name__ != res and not (res == 'UnpicklingError' and isinstance(err, dill.UnpicklingError)): return fail('raised %r instead of %s' % (err, res))
                    if data(path) != want(h['file']): return fail('failed load changed the file')
                    continue
                if err is not None: return fail('raised %r' % err)
                if res not in ('handle', 'temporary'): return fail('loaded %r instead of raising %s' % (g, res))
                if not k % 5:
                    if g[0] is not g[1]['again']: return fail('shared handle loaded twice')
                    g = g[0]
                if g.closed != h['closed']: return fail('closed is %r' % g.closed)
                if res == 'temporary':
                    if not g.closed and g.read() not in ('', b''): return fail('handle of a missing file is not empty')
                    if os.path.lexists(path): return fail('a missing file opened for reading was created')
                    continue
                if g.name != path: return fail('name is %r' % (g.name,))
                if g.mode != state[3]: return fail('mode is %r instead of %r' % (g.mode, state[3]))
                if data(path) != want(h['file']): return fail('the file contains %r instead of %r after loading' % (data(path), want(h['file'])))
                if not g.closed and g.tell() != h['pos']: return fail('position is %r instead of %r' % (g.tell(), h['pos']))
                if not g.closed and (g.readable() != f_readable(h['m']) or g.writable() != f_writable(h['m'])): return fail('handle readable %r writable %r' % (g.readable(), g.writable()))
            elif do == 'check':
                if g.writable(): g.flush()
                p = g.tell()
                if p != h['pos']: return fail('position is %r after using the handle' % p)
                g.close()
                if data(path) != want(h['file']): return fail('the file contains %r instead of %r after using the handle' % (data(path), want(h['file'])))
    finally:
        for q in (f, g):
            try: q.close()
            except Exception: pass
    return None
def f_readable(m): return m['k'] == 'r' or m['plus']
def f_writable(m): return m['k'] != 'r' or m['plus']
