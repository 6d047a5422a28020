"""C18: any public call with any arguments, watched by the address and
undefined-behaviour sanitizers.  The only verdict here is that the process
goes on; reports of the sanitizers end it."""
import gc, os, shutil, tempfile
from ..fam import *
from ..calls import World, SPEC, STATIC


class Meddler(object):
    """an argument whose special methods change the families and the universe
    while the library is using them"""
    def __init__(self, W, rng):
        self.W, self.rng = W, rng
        self.left = 4

    def act(self):
        if self.left <= 0:
            return
        self.left -= 1
        W, rng = self.W, self.rng
        f = rng.choice(W.fams[rng.choice(sorted(W.fams))])
        t = rng.randrange(9)
        try:
            if t == 0: f.clear()
            elif t == 1: f.pop()
            elif t == 2: f |= ~f
            elif t == 3: GraphSet.set_universe([(1, 2), (2, 3)])
            elif t == 4: setset.set_universe([1, 2, 3])
            elif t == 5: W.iters.clear()
            elif t == 6: f.__init__([])
            elif t == 7: gc.collect()
            else: W.fams[rng.choice(sorted(W.fams))].pop()
        except Exception:
            pass
        for L in W.fams.values():
            while len(L) < 1:
                L.append(setset())

    def __iter__(self):
        self.act()
        return self

    def __next__(self):
        self.act()
        if self.left <= 0:
            raise StopIteration
        return self.rng.choice([1, (1, 2), self, [1], (2, 3)])

    def __len__(self): self.act(); return 3
    def __hash__(self): self.act(); return 7
    def __eq__(self, o): self.act(); return self.rng.random() < .5
    def __lt__(self, o): self.act(); return self.rng.random() < .5
    def __float__(self): self.act(); return 1.5
    def __index__(self): self.act(); return 2
    def __getitem__(self, i): self.act(); return 1 if i == 0 else 2
    def __str__(self): self.act(); return '1'
    def __bool__(self): self.act(); return True
    def __reduce__(self): self.act(); return (int, ())
    def keys(self): self.act(); return [1, (1, 2)]
    def items(self): self.act(); return [(1, 2), ((1, 2), self)]
    def read(self, *a): self.act(); return 'B\n.\n'
    def fileno(self): self.act(); return 0


KINDS_EMPTY = {'setset': setset, 'GraphSet': GraphSet, 'DiGraphSet': DiGraphSet,
               'VertexSetSet': VertexSetSet, 'EdgeVertexSetSet': EdgeVertexSetSet}


def place(rng, x, m):
    """x with m somewhere inside"""
    if isinstance(x, list) and x and rng.random() < .7:
        i = rng.randrange(len(x))
        return x[:i] + [place(rng, x[i], m)] + x[i + 1:]
    if isinstance(x, tuple) and x and rng.random() < .7:
        i = rng.randrange(len(x))
        return x[:i] + (place(rng, x[i], m),) + x[i + 1:]
    if isinstance(x, dict) and x and rng.random() < .8:
        y = dict(x)
        y[rng.choice(sorted(y, key=repr))] = m
        return y
    return m


def step(ctx, rng, W, bad):
    try:
        name, m, f, args, th = W.call(rng, bad)
    except Exception:
        return ctx.count('arguments that fail by themselves')
    if args and rng.random() < .06:
        i = rng.randrange(len(args))
        args[i] = place(rng, args[i], Meddler(W, rng))
        ctx.count('meddling arguments')
    if m == 'set_universe' and name == 'VertexSetSet' and (not args or args[0] is None):
        return
    try:
        ctx.log(name, m, repr(args)[:300])
    except Exception:
        ctx.log(name, m, '?')
    try:
        r = th()
    except MemoryError:
        ctx.count('out of memory')
    except Exception as e:
        ctx.count('calls rejected')
        ctx.seen(name, m, type(e).__name__)
    else:
        ctx.count('calls accepted')
        ctx.seen(name, m, 'ok')
        t = type(r)
        if t.__name__ in W.fams:
            if rng.random() < .3:
                L = W.fams[t.__name__]
                L[rng.randrange(len(L))] = r
        elif t not in (list, tuple, set, dict) and len(W.iters) < 8:
            try:
                if hasattr(r, '__next__') and not isinstance(r, Meddler):
                    W.iters.append(r)
            except Exception:
                pass
    ctx.checks += 1
    if W.iters and rng.random() < .3:
        try:
            next(rng.choice(W.iters))
        except Exception:
            pass
    if rng.random() < .1 and W.iters:
        W.iters.pop(rng.randrange(len(W.iters)))
    for n, L in W.fams.items():
        if len(L) == 0:
            try:
                L.append(W.kinds[n].mk(set()))
            except Exception:
                L.append(KINDS_EMPTY[n]())


def session(ctx):
    prelude(ctx)
    tmp = tempfile.mkdtemp(dir=os.getcwd())

    def case(ctx, rng, k):
        W = World(rng, tmp)
        bad = rng.choice([.2, .5, .8])
        for i in range(60):
            step(ctx, rng, W, bad)
        W.iters = []
        gc.collect()
    try:
        ctx.run(case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
