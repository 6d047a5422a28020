"""C18: the workloads of the other properties once more, for what the
sanitizers see; their verdicts are left to those properties."""
import importlib
from ..core import Violation

# module, property, share of the cases
MODS = [('algebra', 'C01', 1), ('counts', 'C02', .5), ('weighted', 'C03', 1), ('operators', 'C05', 1), ('search', 'C06', 1), ('shapes', 'C07', .7),
        ('shapes', 'C08', .7), ('partition', 'C09', 1), ('reliab', 'C10', .5), ('costs', 'C11', .5), ('directed', 'C12', .5),
        ('vertexfam', 'C13', .4), ('convert', 'C14', .5), ('dumps', 'C15', .6), ('neighbours', 'C23', 1), ('rejects', 'C24', .4)]


class Quiet(object):
    """the context without its verdicts"""
    def __init__(self, ctx, mod, prop, ncases):
        self.__dict__.update(c=ctx, mod=mod, prop=prop, ncases=ncases)

    def __getattr__(self, n):
        return getattr(self.c, n)

    def __setattr__(self, n, v):
        if n == 'ncases':
            self.__dict__[n] = v
        else:
            setattr(self.c, n, v)

    def check(self, *a):
        self.c.checks += 1

    def eq(self, *a):
        self.c.checks += 1

    def report(self, *a):
        pass

    def seen(self, *a):
        self.c.seen(self.mod, *a)

    def run(self, fn, weights=None):
        def quiet(ctx, rng, k):
            try:
                fn(self, rng, k)
            except Violation:
                pass
            except MemoryError:
                raise
            except Exception:
                ctx.count('exceptions')
        n, self.c.ncases = self.c.ncases, self.ncases
        self.c.run(quiet)
        self.c.ncases = n


def session(ctx):
    i = int(ctx.session.split('.')[-1])
    name, prop, share = MODS[i % len(MODS)]
    m = importlib.import_module('vf.props.' + name)
    ctx.count('sessions of ' + name)
    m.session(Quiet(ctx, name, prop, max(1, int(ctx.ncases * share))))
