"""Worker-side framework: sessions, cases, oracles' verdict plumbing.

A *session* is one process that runs a sequence of *cases* in order (so later
cases see the history earlier ones left in the library's global tables).
Everything is derived from (property, seed, session), so a session can be
replayed up to the failing case.
"""
import hashlib, json, os, random, sys, time, traceback

REPO = os.environ.get('VF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg = key, msg


class Ctx(object):
    def __init__(self, prop, seed, session, ncases, out, only=None, deep=False, log=False):
        self.prop, self.seed, self.session, self.ncases = prop, seed, session, ncases
        self.deep = deep
        self.only = only
        self.out = out
        self.checks = 0          # oracle comparisons made
        self.cases_run = 0
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.desc = None
        self.trace = []          # operations of the current case (event log)
        self.k = -1

    # -- output -----------------------------------------------------------
    def emit(self, d):
        self.out.write(json.dumps(d, default=repr) + '\n')
        self.out.flush()

    def rng_for(self, *tag):
        h = hashlib.sha256(repr((self.prop, self.seed, self.session) + tag).encode()).digest()
        return random.Random(int.from_bytes(h[:8], 'big'))

    # -- recording --------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *what):
        """records one distinct, non-trivial case (by the property's rule)"""
        self.distinct.add(hashlib.md5(repr(what).encode()).hexdigest()[:16])

    def log(self, *what):
        self.trace.append(repr(what)[:400])
        if len(self.trace) > 400:
            del self.trace[:100]

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def check(self, ok, key, msg, *args):
        self.checks += 1
        if not ok:
            raise Violation(key, msg % args if args else msg)

    def eq(self, got, want, key, what=''):
        self.checks += 1
        if got != want:
            raise Violation(key, '%s: observed %s, expected %s' % (what, short(got), short(want)))

    # -- running ----------------------------------------------------------
    def run(self, fn, weights=None):
        """fn(ctx, rng, k) is one case."""
        stop = False
        for k in range(self.ncases):
            if stop:
                break
            if self.only is not None and k > self.only:
                break
            self.k = k
            self.trace = []
            rng = self.rng_for(k)
            self.emit({'t': 'case', 'k': k})
            try:
                fn(self, rng, k)
                self.cases_run += 1
            except Violation as v:
                self.report(v.key, v.msg)
                stop = len(self.viol) >= 5
            except MemoryError:
                raise
            except Exception as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                inrepo = [f for f in tb if f.filename.startswith(REPO + '/')]
                if inrepo or getattr(e, '_vf_api', False) or from_api_frame(tb):
                    self.report('exception:%s' % type(e).__name__,
                                'unexpected %r on a valid call; at %s' % (
                                    e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                  for f in reversed(tb[-4:]))))
                    stop = len(self.viol) >= 5
                else:
                    self.emit({'t': 'harness-error', 'k': k, 'tb': traceback.format_exc()[-3000:]})
                    raise

    def report(self, key, msg):
        self.viol.append(key)
        self.emit({'t': 'viol', 'k': self.k, 'key': key, 'msg': msg[:1500], 'trace': self.trace[-40:]})

    def finish(self):
        self.emit({'t': 'end', 'checks': self.checks, 'cases': self.cases_run, 'counts': self.counts,
                   'distinct': sorted(self.distinct), 'samples': self.samples})


def from_api_frame(tb):
    """The C extension leaves no frame of its own: the exception was raised by
    the call on the last line, which the props mark by calling through api.*"""
    return any(f.name.startswith('api_') for f in tb)


def api_call(f, *a, **kw):
    """Calls straight into the C extension go through here, so that an
    exception they raise on a valid input counts as observed behaviour."""
    return f(*a, **kw)


def short(x, n=300):
    if isinstance(x, (set, frozenset)):
        try:
            x = sorted(x)
        except TypeError:
            x = list(x)
        s = '{%d: %r}' % (len(x), x)
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
