"""worker: runs scenarios of one driver on the real dill; one JSON result line per scenario"""
import sys, os, json, signal, traceback, importlib

class Timeout(BaseException):
    pass

def main():
    name, inp, outp, per = sys.argv[1:5]
    per = float(per)
    verif = os.environ['VT_VERIF']
    sys.path.insert(0, os.path.join(verif, 'lib'))
    sys.path.insert(0, os.path.join(verif, 'drivers'))
    # json etc. must keep working whatever the scenario does to the process
    dumps, loads = json.dumps, json.loads
    out = os.open(outp, os.O_WRONLY | os.O_APPEND)
    def handler(sig, frm): raise Timeout()
    signal.signal(signal.SIGALRM, handler)
    with open(inp) as fh: lines = fh.read().splitlines()
    boot = mod = None
    try:
        mod = importlib.import_module(name)
    except BaseException as e:
        boot = 'driver could not start on this tree: ' + traceback.format_exc()[-1500:]
    fork = getattr(mod, 'FORK', False)
    for line in lines:
        i, sc = loads(line)
        if boot: res = {'bad': boot}
        elif fork: res = forked(mod, sc, per, dumps, loads)
        else: res = one(mod, sc, per)
        try: s = dumps([i, res])
        except Exception: s = dumps([i, {'bad': 'unserialisable result: %r' % (res,)}])
        os.write(out, (s + '\n').encode())
    os._exit(0)

def one(mod, sc, per):
    signal.setitimer(signal.ITIMER_REAL, per)
    try:
        res = mod.run(sc)
        if res is None: res = {}
        elif isinstance(res, str): res = {'bad': res}
    except Timeout:
        res = {'bad': 'timeout after %ss' % per}
    except BaseException as e:
        res = {'bad': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-2000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res

def forked(mod, sc, per, dumps, loads):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = one(mod, sc, per)
            try: s = dumps(res)
            except Exception: s = dumps({'bad': 'unserialisable result: %r' % (res,)})
            b = s.encode()
            while b: b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    signal.setitimer(signal.ITIMER_REAL, per + 10)
    try:
        while True:
            c = os.read(r, 1 << 16)
            if not c: break
            data += c
    except Timeout:
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
        data = b'{"bad": "timeout (hard)"}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data: return {'bad': 'process died with status %s' % st}
    return loads(data)

