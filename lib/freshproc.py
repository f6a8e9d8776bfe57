"""fresh processes for drivers: a zygote that has only imported dill, forked once per request"""
import sys, os, json, subprocess, base64

class Fresh:
    def __init__(self, driver):
        self.driver = driver
        self.p = None
    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'freshmain.py'), self.driver], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, text=True)
    def call(self, fn, data, *args, cwd=None):
        """run drivers/<driver>.<fn>(data, *args) in a fresh process; returns its JSON result or {'error': ...}"""
        if self.p is None or self.p.poll() is not None: self.start()
        self.p.stdin.write(json.dumps([fn, base64.b64encode(data).decode(), args, cwd]) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line: self.p = None; return {'error': 'fresh process server died'}
        return json.loads(line)

def serve():
    driver = sys.argv[1]
    out = os.dup(1)
    os.dup2(2, 1)
    verif = os.environ['VT_VERIF']
    sys.path.insert(0, os.path.join(verif, 'drivers'))
    sys.path.insert(0, os.path.join(verif, 'lib'))
    import dill, importlib
    m = importlib.import_module(driver)
    while True:
        line = sys.stdin.readline()
        if not line: os._exit(0)
        fn, data, args, cwd = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import signal; signal.alarm(60)
                if cwd: os.chdir(cwd)
                res = getattr(m, fn)(base64.b64decode(data), *args)
                s = json.dumps(res)
            except BaseException as e:
                s = json.dumps({'error': '%s: %s' % (type(e).__name__, str(e)[:300])})
            b = s.encode()
            while b: b = b[os.write(w, b):]
            os._exit(0)
        os.close(w)
        data = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c: break
            data += c
        os.close(r); os.waitpid(pid, 0)
        data = data or b'{"error": "fresh process died"}'
        os.write(out, data + b'\n')

