"""C12 driver: files opened by a descriptor"""
import dill, os, io, tempfile, zlib
FM = dict(handle=dill.HANDLE_FMODE, contents=dill.CONTENTS_FMODE, file=dill.FILE_FMODE)
FORK = True
def run(sc):
    k = zlib.crc32(repr(sc['hist']).encode())
    b = k & 1
    mode = ('w+b', 'w+', 'r+b', 'r+')[k % 4] if 0 else (('w+', 'r+')[k >> 1 & 1] + ('b' if b else ''))
    if k >> 2 & 1: f = tempfile.TemporaryFile(mode, dir='.')
    else:
        fd, p = tempfile.mkstemp(dir='.'); os.unlink(p); f = os.fdopen(fd, mode)
    enc = (lambda s: s.encode()) if b else (lambda s: s)
    dec = (lambda s: s.decode()) if b else (lambda s: s)
    ch = lambda xs: ''.join(map(str, xs))
    g = pik = None
    fds0 = None
    def fail(m): return '%s; mode %s, history %s' % (m, mode, [tuple(h.values()) for h in sc['hist']])
    def content(q):
        p = q.tell(); q.seek(0); r = dec(q.read()); q.seek(p); return r
    for h in sc['hist']:
        do = h['do']
        try:
            if do == 'write': f.seek(f.tell()); f.write(enc(str(h['x'])))
            elif do == 'read':
                r = dec(f.read(1))
                if r != str(h['got']): return fail('read %r instead of %r' % (r, h['got']))
            elif do == 'seek': f.seek(h['p'])
            elif do == 'pickle':
                f.flush(); p = f.tell()
                pik = dill.dumps(f, protocol=k >> 5 & 3, fmode=FM[h['fm']])
                if f.closed or f.tell() != p: return fail('pickling changed the handle (closed %s, position %s)' % (f.closed, not f.closed and f.tell()))
                os.fstat(f.fileno())
            elif do == 'load':
                f.flush(); p = f.tell()
                g = dill.loads(pik)
                if type(g) is not type(f) or g.mode != f.mode: return fail('loaded %r' % g)
                if h['fm'] == 'file':
                    if g.tell() != h['pos']: return fail('the copy is at %d instead of %d' % (g.tell(), h['pos']))
                if g.fileno() == f.fileno(): return fail('the copy owns the descriptor of the original')
            elif do == 'copywrite':
                g.seek(g.tell()); g.write(enc('3')); g.flush()
                if content(g) != ch(h['text']): return fail('the copy contains %r instead of %r' % (content(g), ch(h['text'])))
            elif do == 'copyclose':
                g.close(); g = None
                if not h['own']: f.seek(0)
        except (OSError, ValueError) as e: return fail('%s fails: %r' % (do, e))
    try:
        f.flush()
        if not sc['sharing'] and f.tell() != sc['pos']: return fail('the original is at %d instead of %d' % (f.tell(), sc['pos']))
        if content(f) != ch(sc['text']): return fail('the original contains %r instead of %r' % (content(f), ch(sc['text'])))
        if g: g.close()
        f.seek(0); f.read(); f.close()
    except (OSError, ValueError) as e: return fail('the original is unusable at the end: %r' % e)
