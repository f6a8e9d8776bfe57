"""C16 driver: objects with internal state, used before and after they are pickled"""
import collections, contextvars, functools, gc, io, itertools, json, queue, random, threading, types, warnings, weakref, zlib
import dill
FORK = False
warnings.simplefilter('ignore')
VAR = contextvars.ContextVar('vt_var')
MARKS = []
def mark(): MARKS.append(1)
class Plain: v = 0
class Hexy(Plain):
    def __str__(self): return 'beef'
class Addr(Plain):
    def __str__(self): return '<x at 0x10>'
    __repr__ = __str__
class Call(Plain):
    def __call__(self): return 1
class Falsy(Plain):
    def __len__(self): return 0
class Same(Plain):
    def __eq__(self, other): return True
    def __hash__(self): return 1
class Number(Plain):
    def __str__(self): return '%x' % id(None)
class Rude(Plain):
    def __str__(self): raise ValueError('no text')
def target(m):
    if m == 8:
        def f(): pass
        f.v = 0; return f
    if m == 9:
        class C: v = 0
        return C
    return (Plain, Hexy, Addr, Call, Falsy, Same, Number, Rude)[m]()
def LRU(m): return dict(maxsize={9: None, 12: 2, 13: 128, 14: 128}.get(m, m), typed=m in (12, 14))
class Box:
    def __init__(self, x): self.x = x
SEQ = [lambda: iter((1, 2, 3)), lambda: iter(range(1, 4)), lambda: iter('123'), lambda: iter(b'\1\2\3'), lambda: iter({1: 0, 2: 0, 3: 0}), lambda: iter({'a': 1, 'b': 2, 'c': 3}.values()),
       lambda: reversed((3, 2, 1)), lambda: enumerate('abc', 1), lambda: zip([1, 2, 3], 'abc'), lambda: map(int, '123'), lambda: filter(None, [0, 1, 0, 2, 3]),
       lambda: itertools.chain([1], [2, 3]), lambda: itertools.islice([1, 2, 3, 4], 3), lambda: itertools.accumulate([1, 1, 1]), lambda: itertools.takewhile(bool, [1, 2, 3, 0, 4]),
       lambda: iter(collections.deque([1, 2, 3])), lambda: itertools.tee([1, 2, 3])[1], lambda: itertools.starmap(max, [(1, 0), (1, 2), (3, 1)]), lambda: itertools.cycle([1, 2, 3]), itertools.count]
class Helper(threading.Thread):
    """another thread, which does what it is told"""
    def __init__(self):
        super().__init__(daemon=True); self.q = queue.SimpleQueue(); self.a = queue.SimpleQueue(); self.start()
    def run(self):
        while True:
            f = self.q.get()
            if f is None: return
            try: r = (True, f())
            except Exception as e: r = (False, e)
            self.a.put(r)
    def do(self, f):
        self.q.put(f); ok, r = self.a.get()
        if ok: return r
        raise r
def build(cells):
    W = []
    for k, n, m, s, r in cells:
        ref = W[r - 1] if r else None
        W.append({'lock': threading.Lock, 'rlock': threading.RLock, 'event': threading.Event, 'sem': lambda: (threading.BoundedSemaphore if m else threading.Semaphore)(n),
            'cond': lambda: threading.Condition(ref), 'meth': lambda: ref.acquire, 'barrier': lambda: threading.Barrier(m),
            'fifo': lambda: queue.Queue(m), 'lifo': lambda: queue.LifoQueue(m), 'prio': lambda: queue.PriorityQueue(m),
            'sio': lambda: io.StringIO(''.join(map(str, s))), 'bio': lambda: io.BytesIO(bytes(s)), 'deque': lambda: collections.deque([], m - 1 if m else None),
            'list': lambda: list(s), 'liter': lambda: iter(ref), 'riter': lambda: reversed(ref), 'seqit': lambda: SEQ[m](),
            'weak': lambda: (weakref.proxy if m else weakref.ref)(ref), 'wset': lambda: weakref.WeakSet([ref]), 'box': lambda: Box(ref), 'V': lambda: target(m),
            'lru': lambda: functools.lru_cache(**LRU(m))(lambda x, y: (x, y)),
            'ctx': contextvars.Context, 'rand': lambda: random.Random(m), 'thread': lambda: threading.Timer(99, mark) if m else threading.Thread(target=mark),
            'gen': lambda: (i for i in range(9))}[k]())
    return W
def text(v): return ''.join('0' if c in ('\0', 0) else str(c) for c in v)
def do(W, i, k, m, o, x, helper, draws):
    c = W[i]
    if k in ('lock', 'rlock', 'sem', 'cond', 'meth'):
        if o == 'acq': return c(False) if k == 'meth' else c.acquire(False)
        if o == 'rel': return c.release()
        if o == 'acq2': return helper().do(lambda: c.acquire(False))
        if o == 'rel2': return helper().do(c.release)
        return {'locked': lambda: c.locked(), 'notify': lambda: c.notify(), 'wait': lambda: c.wait(0)}[o]()
    if k == 'event': return {'set': c.set, 'clr': c.clear, 'isset': c.is_set, 'wait': lambda: c.wait(0)}[o]()
    if k == 'barrier': return {'wait': lambda: c.wait(0), 'abort': c.abort, 'reset': c.reset, 'broken': lambda: c.broken}[o]()
    if k in ('fifo', 'lifo', 'prio'): return {'put': lambda: c.put_nowait(x), 'get': c.get_nowait, 'size': c.qsize, 'done': c.task_done}[o]()
    if k in ('sio', 'bio'):
        if o == 'write': return c.write(str(x) if k == 'sio' else bytes([x]))
        if o == 'read': return text(c.read(x))
        if o == 'val': return text(c.getvalue())
        return {'tell': c.tell, 'seek': lambda: c.seek(x), 'trunc': lambda: c.truncate(x), 'close': c.close}[o]()
    if k in ('deque', 'list'): return {'app': lambda: c.append(x), 'appl': lambda: c.appendleft(x), 'pop': c.pop, 'popl': lambda: c.popleft(), 'all': lambda: text(c)}[o]()
    if k in ('liter', 'riter', 'seqit', 'gen'):
        v = next(c); return v[0] if isinstance(v, tuple) else v
    if k == 'weak':
        if o == 'callable': return callable(c)
        if m: return c.v
        return 'dead' if c() is None else c().v
    if k == 'wset': return text(z.v for z in c)
    if k == 'box': return c.x.v
    if k == 'V':
        if o == 'val': return c.v
        if o == 'set': c.v = x; return None
        W[i] = c = None; gc.collect(); return None
    if k == 'lru':
        if o == 'call': a = 1.0 if x == 4 else x; r = c(a, 0); return 'ok' if r == (a, 0) else 'wrong %r' % (r,)
        if o == 'clear': return c.cache_clear()
        i = c.cache_info()
        p = c.cache_parameters()
        if p != LRU(m): return 'parameters %r' % (p,)
        return '%d/%d/%d' % (i.hits, i.misses, i.currsize)
    if k == 'ctx': return len(c) if o == 'len' else c.run(VAR.set, 1) and None
    if k == 'rand':
        v = c.random(); return 'draw%d' % draws[m].index(v) if v in draws[m] else 'another draw'
    if k == 'thread':
        if o == 'alive': return c.is_alive()
        MARKS.clear(); c.start(); c.join(); return 'ran' if MARKS else 'did not run'
def run(sc):
    cells, roots, hist = sc['cells'], sorted(i - 1 for i in sc['roots']), sc['hist']
    key = zlib.crc32(json.dumps(sc, sort_keys=True).encode())
    proto = 2 + key % 4; order = key // 4 % 3; rec = bool(key // 12 % 2); alone = key // 24 % 4
    if order == 1: roots = roots[::-1]
    worlds = {1: build(cells)}; data = None; H = []; draws = {}
    for m in (1, 2): g = random.Random(m); draws[m] = [g.random() for _ in range(40)]
    def helper():
        if not H: H.append(Helper())
        return H[0]
    try:
        for n, (u, i, o, x, want) in enumerate(hist):
            if o in ('dump', 'load'):
                try:
                    if o == 'dump':
                        objs = [worlds[1][j] for j in roots]
                        if len(objs) == 1 and alone: objs = objs[0]
                        elif order == 2: objs = {'a': objs, 'b': tuple(objs)}
                        try: data = dill.dumps(objs, proto, recurse=rec)
                        finally: objs = None
                    else:
                        g = dill.loads(data)
                        if len(roots) == 1 and alone: g = [g]
                        elif order == 2:
                            if any(a is not b for a, b in zip(g['a'], g['b'])): return 'step %d: sharing is lost' % n
                            g = g['a']
                        W = [None] * len(cells)
                        for j, z in zip(roots, g): W[j] = z
                        g = z = None; gc.collect()
                        worlds[u] = W
                    got = 'ok'
                except Exception as e: got = 'refused'; err = e
                if got != want: return 'step %d: %s %s, not %s: %s' % (n, o, got, want, '%s: %s' % (type(err).__name__, str(err)[:100]) if got == 'refused' else '')
                err = None
                continue
            k, m = cells[i - 1][0], cells[i - 1][2]
            try: got = do(worlds[u], i - 1, k, m, o, x, helper, draws)
            except ReferenceError: got = 'dead'
            except (RuntimeError, ValueError, queue.Full, queue.Empty, IndexError, StopIteration, threading.BrokenBarrierError) as e:
                got = 'BrokenBarrierError' if isinstance(e, threading.BrokenBarrierError) else type(e).__name__
            if str(got) != want: return 'step %d: %s of the %s %s answers %s, not %s (cells %s)' % (n, o, 'original' if u == 1 else 'copy', k if k != 'seqit' else 'seqit%d' % m, got, want, [c[0] for c in cells])
    finally:
        if H: H[0].q.put(None)
