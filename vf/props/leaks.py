"""C19: one call with fixed arguments, repeated.  After warming up, repetitions
must not move the references to the caller's objects, the references to nodes
of the store, the number of Python's memory blocks, or the bytes of the heap.
Growth counts only if every one of several rounds of repetitions shows it."""
import ctypes, gc, os, random, shutil, sys, tempfile, time
from ..fam import *
from ..calls import World, CLASSES
from ..store import Store
from .nodes import OPS


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Mallinfo


def leaves(x, out, depth=0):
    """x and everything in it that has a reference count of its own"""
    if depth > 5 or id(x) in out: return
    out[id(x)] = x
    t = type(x)
    if t in (list, tuple, set, frozenset):
        for y in list(x)[:40]:
            leaves(y, out, depth + 1)
    elif t is dict:
        for k, v in list(x.items())[:40]:
            leaves(k, out, depth + 1)
            leaves(v, out, depth + 1)
    elif hasattr(t, '_ss') or isinstance(getattr(x, '__dict__', None), dict) and '_ss' in x.__dict__:
        leaves(x._ss, out, depth + 1)


IMMORTAL = 1 << 30


def consume(r, steps):
    """look at the result as a caller would, perhaps giving up half-way"""
    if r is None or isinstance(r, (int, float, str, bool, type)):
        return
    if isinstance(r, (list, tuple, set, frozenset, dict)):
        return
    if hasattr(r, '__next__') or steps:
        it = iter(r)
        for _ in range(steps):
            next(it)


def repeat(th, n, steps):
    for _ in range(n):
        try:
            consume(th(), steps)
        except Exception:
            pass


def measure(ctx, tracked):
    gc.collect()
    bad, ext, dead = ctx.st.audit()
    ctx.check(bad is None, 'audit', '%s', bad)
    out = [ext, sys.getallocatedblocks(), _libc.mallinfo2().uordblks]
    # no names or frames are held while counting
    out += map(sys.getrefcount, tracked)
    return out


N = 6
ROUNDS = 6


def examine(ctx, name, m, th, tracked, steps, names):
    """repeat; a verdict needs movement in every round"""
    t0 = time.time()
    repeat(th, 1, steps)
    dt = time.time() - t0
    if dt > .1:
        return ctx.count('calls too slow to repeat')
    repeat(th, 2, steps)
    last = measure(ctx, tracked)
    suspects = None
    history = []
    for r in range(ROUNDS):
        if r == ROUNDS - 3:
            # what only warms up (the interpreter's caches) has stopped by now
            repeat(th, 150, steps)
            last = measure(ctx, tracked)
        repeat(th, N, steps)
        now = measure(ctx, tracked)
        moved = {}
        for i, (a, b) in enumerate(zip(last, now)):
            d = b - a
            if i == 0 and d >= N or i == 1 and d >= N or i == 2 and d >= 16 * N:
                moved[i] = d
            elif i > 2 and (d >= N or d <= -N) and b < IMMORTAL:
                moved[i] = d
        suspects = moved if suspects is None else {i: moved[i] for i in suspects if i in moved and (moved[i] > 0) == (suspects[i] > 0)}
        last = now
        ctx.checks += len(now)
        if not suspects: break
        ctx.count('rounds of repetitions')
    ctx.count('calls repeated')
    # references first: blocks are freed less often because of them
    for i in sorted(suspects, key=lambda i: (i in (1, 2), i)):
        what = ['references to nodes', 'memory blocks of Python', 'bytes of the heap'][i] if i < 3 else 'references to %s' % names[i - 3]
        ctx.check(False, 'leak:%s:%s.%s' % (['nodes', 'blocks', 'heap'][i] if i < 3 else 'references', name, m),
                      '%d calls of %s.%s move the %s by %+d, again and again' % (N, name, m, what, suspects[i]))
        break
    return True


def case(ctx, rng, k):
    if rng.random() < .3:
        return fresh(ctx, rng, k)
    W = World(rng, ctx.tmp, rng.choice([3, 5, 7]))
    W.lies = False
    bad = rng.choice([.0, .3, .6])
    base = {}
    for kn in W.kinds.values():
        for x in kn.elems: leaves(x, base)
    for L in W.fams.values():
        for x in L: leaves(x, base)
    for c in CLASSES.values(): base[id(c)] = c
    for i in range(14):
        try:
            name, m, f, args, th = W.call(rng, bad)
        except Exception:
            continue
        if m == 'show_messages' or m == 'set_universe' and name == 'VertexSetSet' and (not args or args[0] is None):
            continue
        objs = dict(base)
        leaves(args, objs)
        if f is not None: leaves(f, objs)
        tracked = list(objs.values())
        names = []
        for o in tracked:
            try:
                names.append('%s %s' % (type(o).__name__, repr(o)[:60] if type(o) in (int, str, tuple, list, dict, set, type) else ''))
            except Exception:
                names.append(type(o).__name__)
        del objs
        steps = rng.choice([0, 0, 1, 3])
        try:
            ctx.log(name, m, repr(args)[:200], steps)
        except Exception:
            ctx.log(name, m, '?')
        o = None
        ok = examine(ctx, name, m, th, tracked, steps, names)
        if ok:
            try:
                th()
                ctx.seen(name, m, 'ok')
                ctx.count('calls accepted')
            except Exception as e:
                ctx.seen(name, m, type(e).__name__)
                ctx.count('calls rejected')
        del tracked
        for n, L in W.fams.items():
            for j, x in enumerate(L):
                if rng.random() < .05:
                    try:
                        L[j] = W.kinds[n].mk(random_masks(rng, min(W.kinds[n].n, 5)))
                    except Exception:
                        pass
    W.iters = []


def fresh(ctx, rng, k):
    """calls on families that are made, used once and dropped"""
    K = SetSetKind() if rng.random() < .5 else GraphKind()
    K.setup(rng, rng.choice([9, 10, 12]))
    n = K.n
    ops = rng.sample(OPS, 3) + [rng.choice(READS)]
    ops = [(o[0], o[1]) for o in ops]
    seed = rng.random()
    r2 = random.Random(seed)

    def work(times):
        for _ in range(times):
            for name, f in ops:
                a = K.mk({r2.randrange(1 << n) for _ in range(r2.choice([3, 12, 25]))}, r2)
                b = K.mk({r2.randrange(1 << n) for _ in range(r2.choice([1, 4, 12]))}, r2)
                try:
                    r = f(K, a, b)
                    consume(r, 1 if hasattr(r, '__next__') else 0)
                except (StopIteration, TypeError):
                    pass
    ctx.log([o[0] for o in ops], type(K).__name__, n)
    work(20)
    last = measure(ctx, [])
    low = None
    for r in range(5):
        work(10)
        now = measure(ctx, [])
        d = [y - x for x, y in zip(last, now)][:2]
        last = now
        low = d if low is None else [min(x, y) for x, y in zip(low, d)]
        if max(low) < 10: break
        ctx.count('rounds of fresh families')
    ctx.count('mixes of operators on fresh families')
    ctx.check(low[0] < 10, 'fresh:nodes', '10 times %s on new families, all dropped, leave at least %d references to nodes, again and again', [o[0] for o in ops], low[0])
    ctx.check(low[0] >= 10 or low[1] < 10, 'fresh:blocks', '10 times %s on new families, all dropped, leave at least %d memory blocks, again and again', [o[0] for o in ops], low[1])
    if k < 6: ctx.sample({'operators': [o[0] for o in ops], 'node references, blocks, bytes': last[:3]})
    for o in ops: ctx.seen('fresh', o[0], type(K).__name__)


READS = [
    ('len', lambda K, a, b: a.len()), ('dumps', lambda K, a, b: a.dumps()), ('iter', lambda K, a, b: iter(a)), ('rand_iter', lambda K, a, b: a.rand_iter()),
    ('max_iter', lambda K, a, b: a.max_iter()), ('choice', lambda K, a, b: a.choice()), ('compare', lambda K, a, b: (a == b, a <= b, a.isdisjoint(b), hash(a.dumps()))),
    ('probability', lambda K, a, b: a.probability({e: .5 for e in K.elems})), ('cost_le', lambda K, a, b: a.cost_le({e: 3 for e in K.elems}, 9)),
    ('copy', lambda K, a, b: a.copy()), ('pop', lambda K, a, b: a.pop()), ('flip', lambda K, a, b: a.flip(K.elems[0])), ('clear', lambda K, a, b: (a.clear(), a.update(b))),
    ('inplace', lambda K, a, b: a.__ior__(b).__iand__(b).__isub__(a)), ('in', lambda K, a, b: K.member(1) in a), ('repr', lambda K, a, b: repr(a)),
    ('bad loads', lambda K, a, b: bad_loads(K, a)), ('exhausted', lambda K, a, b: list(a)), ('sizes', lambda K, a, b: a.len(3)),
]


def bad_loads(K, a):
    t = a.dumps()
    try:
        K.cls.loads(t[:len(t) // 2])
    except Exception:
        pass


def session(ctx):
    prelude(ctx)
    ctx.st = Store()
    ctx.tmp = tempfile.mkdtemp(dir=os.getcwd())
    try:
        ctx.run(case)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
