"""C15 driver: trace contexts, verbosity and handlers; bytes with and without tracing; trace logs recorded for validation"""
import dill, io, os, re, sys, logging, warnings, zlib, pickle
import streams
from dill.logger import logger, stderr_handler
FORK = True
warnings.simplefilter('ignore')
class Failing:
    def __reduce__(self): raise ZeroDivisionError('not this one')
class Hook:
    def __init__(self, f): self.f = f
    def __reduce__(self): self.f(); return str, ('hook',)
def marked(n):
    d = {'__name__': 'vt_nowhere'}; exec('def mark%d_(x): return x' % n, d); return d['mark%d_' % n]
class LeaveError(Exception): pass
def scope(sc):
    root = logging.getLogger(); root.setLevel(30); logger.setLevel(0)
    root.addHandler(logging.NullHandler())
    sys.stderr = err = io.StringIO()
    user = io.StringIO(); uh = logging.StreamHandler(user)
    places = {'stream1': io.StringIO(), 'stream2': io.StringIO(), 'file1': 'trace1.txt', 'file2': 'trace2.txt'}
    for f in ('trace1.txt', 'trace2.txt'):
        if os.path.exists(f): os.unlink(f)
    k = zlib.crc32(repr(sc).encode())
    def text(p):
        if p == 'err': return err.getvalue()
        if p == 'user': return user.getvalue()
        if p.startswith('file'): return open(places[p], encoding='utf-8').read() if os.path.exists(places[p]) else ''
        return places[p].getvalue()
    def count(mark, p): return len(re.findall(mark + '_', text(p)))
    def manager(p, k):
        if p == 'none': return dill.detect.trace()
        if p.startswith('file'): return dill.detect.trace(places[p], mode='w' if k & 1 else 'a') if k & 2 else dill.detect.trace(file_path(places[p]), mode='wa'[k & 1])
        return dill.detect.trace(places[p])
    import pathlib
    def file_path(x): return pathlib.Path(x)
    stack = []; n = 0; fds = len(os.listdir('/proc/self/fd'))
    usermark = 0
    def fork_check(where, h):
        if logger.level != h['level']: return 'the level is %d instead of %d' % (logger.level, h['level']) + where
        got = {'err': stderr_handler in logger.handlers, 'user': uh in logger.handlers}
        for x in got:
            if got[x] != (x in h['handlers']): return 'handler %s is %sattached' % (x, '' if got[x] else 'not ') + where
        extra = [x for x in logger.handlers if x not in (stderr_handler, uh)]
        want = len([p for p in h['open'] if p != 'none'])
        if len(extra) != want: return '%d handlers of contexts instead of %d' % (len(extra), want) + where
        if len(set(map(id, logger.handlers))) != len(logger.handlers): return 'a handler is attached twice' + where
    for i, h in enumerate(sc['hist']):
        where = ' after step %d of %s' % (i + 1, [tuple(v for kk, v in x.items() if kk in ('do', 'l', 'on', 'h', 'p', 'how', 'kind')) for x in sc['hist'][:i + 1]])
        do = h['do']; k = k * 1103515245 + 12345 & 0x7fffffff; q = k >> 9
        if do == 'level': logger.setLevel(h['l'])
        elif do == 'root': root.setLevel(h['l'])
        elif do == 'trace': dill.detect.trace(h['on'])
        elif do == 'handler':
            x = uh if h['h'] == 'user' else stderr_handler
            (logger.removeHandler if x in logger.handlers else logger.addHandler)(x)
        elif do == 'enter':
            m = manager(h['p'], q); stack.append((m, m.__enter__()))
        elif do == 'badenter':
            try:
                with dill.detect.trace('no_such_dir/x/y.txt'): return 'no error' + where
            except OSError: pass
        elif do == 'leave':
            m, log = stack.pop()
            if h['how'] == 'normal': r = m.__exit__(None, None, None)
            else:
                e = LeaveError(); r = m.__exit__(LeaveError, e, None)
            if r: return 'the context swallows errors' + where
        elif do == 'say':
            n += 1; stack[-1][1]('> mark%d_ %s', n, 'text')
            for p, c in h['to'].items():
                if count('> mark%d' % n, p) != c: return 'the log function wrote %d times to %s instead of %d' % (count('> mark%d' % n, p), p, c) + where
        elif do in ('pickle', 'inside'):
            n += 1; f = marked(n); inner = None
            if do == 'inside':
                n += 1; g = marked(n); plain = dill.dumps(g, 4) if logger.getEffectiveLevel() > 20 else None
                def hook():
                    with manager(h['p'], q & 2):
                        if h['kind'] == 'ok': b = dill.dumps(g, 4)
                        else:
                            try: dill.dumps([g, Failing()], 4)
                            except ZeroDivisionError: pass
                            else: raise AssertionError('no error')
                obj = [f, Hook(hook), marked(0)]
            else: obj = [f, Failing()] if h['kind'] == 'fails' else [f]
            try:
                if do == 'pickle' and h['kind'] == 'copy': c = dill.copy(obj)
                else: c = dill.loads(dill.dumps(obj))
                if do == 'pickle' and h['kind'] == 'fails': return 'no error' + where
                if c[0](5) != 5: return 'wrong copy' + where
            except ZeroDivisionError:
                if do != 'pickle' or h['kind'] != 'fails': raise
            for m, to in ((n - 1, h['to']), (n, h['inner'])) if do == 'inside' else ((n, h['to']),):
                for p, c in to.items():
                    t = text(p)
                    lines = len(re.findall(r'(?m)^[^#\n]*\w+: <function mark%d_' % m, t))
                    if lines != c: return 'the trace of a pickling is %d times in %s instead of %d' % (lines, p, c) + where
        bad = fork_check(where, h)
        if bad: return bad
    while stack: stack.pop()[0].__exit__(None, None, None)
    if len(os.listdir('/proc/self/fd')) != fds: return 'files of tracing contexts left open after %s' % [x['do'] for x in sc['hist']]
LINE = re.compile('^(?:(?P<o>(?:[\u2502|]*[\u251c|])?[\u252c+])|(?P<c>[\u2502|]*[\u2514`]))-? (?P<t>.*)$', re.S)
def events(text):
    ev = []
    for line in text.split('\n'):
        if line.startswith('@begin'): ev.append(['begin']); continue
        if line.startswith('@end'): ev.append(['end', line.endswith('ok')]); continue
        m = LINE.match(line)
        if not m: continue
        t = m.group('t')
        if m.group('o'):
            d = len(m.group('o')); ev.append(['open', d, t.split(':')[0].strip()])
        else: ev.append(['close', len(m.group('c')), t.lstrip('# ').split(' [')[0].split(':')[0].strip()])
    return ev
def attempt(f):
    try: return f()
    except Exception as e: return type(e).__name__, re.sub('0x[0-9a-f]+', '0x', str(e))
def logs(sc):
    names = [h['o'] for h in sc['hist']]
    objs = streams.build({x for x in names if ':' not in x or x.startswith(('cat:', 'lib:'))})
    kw = dict(streams.OPT[sc['opt']], protocol=sc['proto'])
    k = zlib.crc32(repr(sc).encode())
    out = io.StringIO() if k & 1 else open('tracelog.txt', 'w+', encoding='ascii' if k & 2 else 'utf-8', errors='replace')
    log = None
    def make(x):
        if x == 'fail:deep': return [streams.ns('def f(a=None): return a')['f'], {'a': {'b': (1, Failing())}}]
        if x == 'fail:func':
            f = streams.ns('def f(): return 1')['f']; f.attr = {'x': Failing()}; return [f]
        def inner(fail):
            f = streams.ns('def g(): return 1')['g']
            if fail: f.attr = Failing()
            def hook():
                if log: log('@begin')
                r = attempt(lambda: dill.dumps([f, {1: f}], protocol=4))
                if log: log('@end %s' % ('ok' if type(r) is bytes else 'failed'))
            return hook
        if x.startswith('nest:'):
            f = streams.ns('def h(): return 1')['h']; f.attr = {'y': Hook(inner(x == 'nest:fail'))}; return [f, {2: f}]
        return objs[x]
    one = []
    for x in names:
        o = make(x)
        def dump(): return dill.dumps(o, **kw)
        a = attempt(dump)
        with dill.detect.trace(out) as log:
            log('@begin'); b = attempt(dump); log('@end %s' % ('ok' if type(b) is bytes else 'failed'))
        log = None
        c = attempt(dump)
        if a == c and a != b: return 'with tracing, pickling %s gives %.200r instead of %.200r' % (x, b, a)
        if (type(a) is bytes) != (type(b) is bytes): return 'with tracing, pickling %s gives %.200r instead of %.200r' % (x, b, a)
    # one pickler used again and again, traced or not
    P = dill.Pickler(io.BytesIO(), sc['proto'], **streams.OPT[sc['opt']])
    for j, x in enumerate(names + names):
        o = make(x)
        if k >> j & 8: attempt(lambda: P.dump(o)); continue
        with dill.detect.trace(out) as log:
            log('@begin'); r = attempt(lambda: P.dump(o)); log('@end %s' % ('ok' if r is None else 'failed'))
        log = None
    out.seek(0); t = out.read(); out.close()
    return {'trace': [events(t)]}
def run(sc): return scope(sc) if 'mode' not in sc else logs(sc)
