"""A process in which the library has just been imported and nothing else has
happened; each request runs in a fork of it."""
import importlib, os, pickle, signal, struct, sys, traceback


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def exact(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                return None
            out += c
        return out
    h = exact(8)
    if h is None:
        return None
    d = exact(struct.unpack('>Q', h)[0])
    return None if d is None else pickle.loads(d)


class Crash(Exception):
    """the forked process ended without an answer"""


class Pristine(object):
    """Start before the library is used.  call('module:function', *args) gives
    the function's result, computed in a fresh process."""
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                self._serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def _serve(r, w):
        while True:
            req = _recv(r)
            if req is None:
                return
            pr, pw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(pr)
                    os.close(r)
                    os.close(w)
                    name, args = req
                    m, f = name.split(':')
                    try:
                        res = ('ok', getattr(importlib.import_module(m), f)(*args))
                    except Exception as e:
                        res = ('exc', type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])
                    _send(pw, res)
                finally:
                    os._exit(0)
            os.close(pw)
            res = _recv(pr)
            os.close(pr)
            st = os.waitpid(pid, 0)[1]
            _send(w, res if res is not None else ('crash', st))

    def raw(self, name, *args):
        _send(self.w, (name, args))
        res = _recv(self.r)
        if res is None:
            raise Crash('the helper process ended')
        return res

    def call(self, name, *args):
        res = self.raw(name, *args)
        if res[0] == 'crash':
            raise Crash('a fresh process running %s ended with status %d' % (name, res[1]))
        if res[0] == 'exc':
            raise RuntimeError('%s in a fresh process: %s: %s\n%s' % (name, res[1], res[2], res[3]))
        return res[1]

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
