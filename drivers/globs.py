"""C03 driver: generate the module the specification describes, copy `root` with dill, compare its namespace and results"""
import sys, types, warnings, builtins, io, json, tokenize, zlib
import dill

def expr(t):
    if t in ('d1', 'd2'): return t
    if t == 'K': return 'K().m()'
    if t == 'math': return 'str(math.floor(2.5))'
    if t == 'len': return 'str(len("ab"))'
    if t == 'zz': return 'zz'
    return '(%s(n - 1) if n else "stop")' % t

# the same program under other names
ACCENT = lambda n: 'é' + n
STYLES = [lambda n: n, lambda n: '_' + n, ACCENT, lambda n: '__%s__' % n, lambda n: n.upper() + '_']
def rename(src, names):
    q = dict(names, **{'"%s"' % a: '"%s"' % b for a, b in names.items()}, **{"'%s'" % a: "'%s'" % b for a, b in names.items()})
    lines = [list(l) for l in src.splitlines(True)]
    for t in reversed(list(tokenize.generate_tokens(io.StringIO(src).readline))):
        if t.type in (tokenize.NAME, tokenize.STRING) and t.string in q: lines[t.start[0] - 1][t.start[1]:t.end[1]] = q[t.string]
    return ''.join(map(''.join, lines))
def function(name, refs, ind=''):
    pre, items, outer, keys = [], [], [], ''
    for i, r in enumerate(refs):
        t, v = r['t'], r['v']; e = expr(t)
        if t == 'zz' : e = 'zz'
        if v == 'direct': x = e
        elif v == 'nested': pre += ['def in_%d(n): return %s' % (i, e)]; x = 'in_%d(n)' % i
        elif v == 'lambda': x = '(lambda n: %s)(n)' % e
        elif v == 'comp': x = '[%s for q_ in (0,)][0]' % e
        elif v == 'gen': x = 'list(%s for q_ in (0,))[0]' % e
        elif v == 'clsbody': pre += ['class L_%d:' % i, '  v = %s' % e]; x = 'L_%d.v' % i
        elif v == 'method': pre += ['class M_%d:' % i, '  def m(self, n): return %s' % e]; x = 'M_%d().m(n)' % i
        elif v == 'default': pre += ['def df_%d(n, q=%s): return q' % (i, e)]; x = 'df_%d(n)' % i
        elif v == 'deep': pre += ['def dp_%d(n):' % i, '  def dq(n): return (lambda n: %s)(n)' % e, '  return dq(n)']; x = 'dp_%d(n)' % i
        elif v == 'attr': pre += ['def at_%d(): pass' % i, 'at_%d.%s = "7"' % (i, t)]; x = 'at_%d.%s' % (i, t)
        elif v == 'shadow': x = '(lambda %s: %s)("7")' % (t, t)
        elif v == 'kwname': x = 'dict(%s="7")["%s"]' % (t, t)
        elif v == 'string': x = '("7", "%s")[0]' % t
        elif v == 'store': pre += ['def st_%d(n):' % i, '  global %s' % t, '  if n > 99: %s = 1' % t, '  return "ok"']; x = 'st_%d(n)' % i
        elif v == 'closure': outer += ['def cl_%d(n): return %s' % (i, e)]; x = 'cl_%d(n)' % i
        elif v == 'closcell': outer += ['def cl_%d(n): return %s' % (i, e)]; x = 'cl_%d(n)' % i
        elif v == 'try': pre += ['try: tv_%d = %s' % (i, e), 'except ZeroDivisionError: pass'] ; x = 'tv_%d' % i
        elif v == 'kwdef': keys += '%s dv_%d=None' % (',' if keys or POS else ', *,', i); x = '(dv_%d(n - 1) if n else "stop")' % i
        elif v == 'fstr': x = 'f"{%s}"' % e.replace('"', "'")
        else: raise ValueError(v)
        if t == 'zz' and v not in ('clsbody', 'default'):
            x = 'und(lambda: %s)' % x if v != 'try' else x
        items.append(x)
    if any(r['t'] == 'zz' for r in refs):
        pre.insert(0, 'def und(f):'); pre.insert(1, '  try: return f()'); pre.insert(2, '  except NameError: return "undefined"')
        for i, r in enumerate(refs):
            if r['t'] == 'zz' and r['v'] == 'try':
                j = pre.index('try: tv_%d = zz' % i)
                pre[j:j + 2] = ['try: tv_%d = zz' % i, 'except NameError: tv_%d = "undefined"' % i]
    body = ['  ' + p for p in pre] + ['  return "%s(" + %s")"' % (name, ''.join(x + ' + "," + ' for x in items))]
    return outer, ['def %s(n%s):' % (name, keys)] + body

def source(refs):
    out = ['import math', 'class K:', '  def m(self): return "K%s" % d2[2:]']
    for f in ('g', 'h'): out += function(f, refs[f])[1]
    outer, body = function('root', refs['root'])
    out += ['def mk():'] + ['  ' + l for l in outer + body] + ['  return root']
    return '\n'.join(out) + '\n'

count = 0; POS = False
def run(sc):
    global count, POS
    count += 1
    key = zlib.crc32(json.dumps(sc, sort_keys=True).encode())
    style = [s for s in STYLES if s is not ACCENT or sc['opt']['protocol'] > 3]   # (protocol 2 has only names in ASCII)
    # ordinary or keyword-only defaults (the former not in a circle, nor through names with root, which has none: dill says it cannot do that)
    edges = {(f, r['t']) for f in sc['refs'] for r in sc['refs'][f] if r['v'] == 'kwdef'}; left = {f for e in edges for f in e}
    while any(all(b not in left for a, b in edges if a == f) for f in left): left = {f for f in left if any(b in left for a, b in edges if a == f)}
    POS = bool(key & 256) and not left and all(b != 'root' for a, b in edges)
    names = {n: style[(key >> 3 * i) % len(style) if key % 3 else 0](n) for i, n in enumerate(('g', 'h', 'd1', 'd2', 'K', 'u'))}
    if key % 7 == 1: names['d1'] = '_'
    back = {b: a for a, b in names.items()}
    src = rename(source(sc['refs']), names)
    place = sc['place']
    main = sys.modules['__main__'].__dict__
    modname = 'vt_live_mod'
    saved = dict(main)
    if place == 'detached': ns = {'__name__': 'vt_nomod', '__builtins__': __builtins__}
    elif place == 'main': ns = main
    else:
        m = types.ModuleType(modname); sys.modules[modname] = m; ns = m.__dict__
    try:
        ns.update({names['d1']: 'd10', names['d2']: 'd20', names['u']: 'unused'})
        exec(compile(src, '<vt>', 'exec'), ns)
        root = ns.pop('mk')()
        fun = {'root': root, 'g': ns[names['g']], 'h': ns[names['h']]}
        dv = [(f, 'dv_%d' % i, r['t']) for f in fun for i, r in enumerate(sc['refs'][f]) if r['v'] == 'kwdef']
        for f, k, t in dv:
            if POS: fun[f].__defaults__ = tuple(fun[t] if i == k else x for i, x in zip(fun[f].__code__.co_varnames[1:], fun[f].__defaults__))
            else: fun[f].__kwdefaults__[k] = fun[t]
        ver = {'d1': 0, 'd2': 0}
        def rebind(when):
            for w, d in sc['rb']:
                if w == when:
                    ver[d] += 1; ns[names[d]] = d + str(ver[d])
        rebind('before')
        s = dill.dumps(root, **sc['opt'])
        rebind('between')
        c = dill.loads(s)
        where = ' [options %s, place %s]\n%s' % (sc['opt'], place, src)
        if c is root: return 'the copy is the original' + where
        own = [back.get(k, k) for k in c.__globals__ if k in back or not (k.startswith('__') and k.endswith('__')) and not hasattr(builtins, k)]
        if sc['live']:
            if c.__globals__ is not ns: return 'the copy is not bound to the live namespace' + where
        else:
            if c.__globals__ is ns: return 'the copy shares the live namespace' + where
            lost = set(sc['must']) - set(own); extra = set(own) - set(sc['may'])
            if lost: return 'the copy lacks the globals %s%s' % (sorted(lost), where)
            if extra: return 'the copy carries the unrelated globals %s%s' % (sorted(extra), where)
        if place == 'detached' and not sc['opt']['recurse']:
            # what is bound to the names is what the functions have as defaults
            cf = {'root': c, 'g': c.__globals__[names['g']], 'h': c.__globals__[names['h']]}
            for f, k, t in dv:
                if (cf[f].__defaults__[cf[f].__code__.co_varnames.index(k) - 1] if POS else cf[f].__kwdefaults__[k]) is not cf[t]: return 'default %s of the copied %s is not the copied %s%s' % (k, f, t, where)
        for i, (exp, orig) in enumerate(sc['obs']):
            if i: rebind('after')
            r = root(2)
            if r != orig: raise RuntimeError('driver and specification disagree: %s, expected %s%s' % (r, orig, where))
            try: r = c(2)
            except Exception as e: return 'calling the copy: %s: %s%s' % (type(e).__name__, e, where)
            if r != exp: return 'the copy gives %s, expected %s (observation %d)%s' % (r, exp, i, where)
        if not sc['live'] and sc['rb'] and place != 'module':
            # writing the copy's namespace is not visible in the original
            c.__globals__[names['d1']] = 'written'
            if ns[names['d1']] == 'written': return 'namespaces are shared' + where
    finally:
        if place == 'main': main.clear(); main.update(saved)
        sys.modules.pop(modname, None)
    return None
