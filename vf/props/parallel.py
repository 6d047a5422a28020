"""C21: the same searches with different numbers of worker threads and different
schedules.  In the variants 'sched' and 'tsan' the OpenMP runtime is
native/omp_rt.cc, which delays threads at random and counts what they did; in
'plain' it is the compiler's own."""
import ctypes, _graphillion
from ..fam import *
from ..frontier import count, thin, TooWide
from ..gmodel import G
from . import scale

THREADS = [1, 2, 3, 4, 5, 7, 8, 16]


class Runtime(object):
    """what native/omp_rt.cc recorded"""
    def __init__(self):
        lib = ctypes.CDLL(_graphillion.__file__)
        self.lib = lib if hasattr(lib, 'vf_omp_regions') else None
        if self.lib:
            lib.vf_omp_regions.restype = lib.vf_omp_stolen.restype = lib.vf_omp_delays.restype = lib.vf_omp_chunks.restype = ctypes.c_ulong
            lib.vf_omp_schedule.restype = ctypes.c_ulonglong
            lib.vf_omp_seed.argtypes = [ctypes.c_ulonglong]

    def seed(self, s):
        if self.lib:
            self.lib.vf_omp_seed(s)

    def now(self):
        L = self.lib
        return (L.vf_omp_regions(), L.vf_omp_chunks(), L.vf_omp_stolen(), L.vf_omp_delays()) if L else (0, 0, 0, 0)

    def schedule(self):
        return self.lib.vf_omp_schedule() if self.lib else None


def graph(rng, quick):
    t = rng.choice(['thin', 'thin', 'complete', 'grid', 'random', 'bipartite'])
    if t == 'thin':
        while True:
            name, n, E = thin(rng)
            if len(E) <= (90 if quick else 200):
                return name, n, sorted(E, key=lambda e: (max(e), min(e)))
    if t == 'complete':
        n = rng.randint(4, 6 if quick else 7)
        E = [(i, j) for i in range(n) for j in range(i + 1, n)]
    elif t == 'grid':
        w, h = rng.choice([(3, 3), (4, 4), (3, 6), (5, 5)] if not quick else [(3, 3), (4, 4)])
        n = w * h
        E = [(y * w + x, y * w + x + 1) for y in range(h) for x in range(w - 1)] + [(y * w + x, y * w + x + w) for y in range(h - 1) for x in range(w)]
        E.sort(key=lambda e: (max(e), min(e)))
    elif t == 'bipartite':
        a, b = rng.randint(2, 4), rng.randint(2, 5)
        n = a + b
        E = [(i, a + j) for i in range(a) for j in range(b)]
    else:
        n = rng.randint(6, 12)
        E = [(i, rng.randrange(i)) for i in range(1, n)]
        E += [e for e in [(i, j) for i in range(n) for j in range(i)] if e not in E and rng.random() < .2]
        E = E[:26]
        V = sorted(set(v for e in E for v in e))
        E = [(V.index(u), V.index(v)) for u, v in E]
        n = len(V)
    return t, n, E


CLASSES = ['bipartite_graphs', 'chordal_graphs', 'claw_free_graphs', 'threshold_graphs', 'interval_graphs', 'cographs', 'split_graphs',
           'block_graphs', 'weakly_chordal_graphs', 'perfect_graphs', 'trivially_perfect_graphs', 'chordal_bipartite_graphs']


def other(rng, n, E, L, m):
    """searches which the exact count doesn't cover"""
    t = rng.choice(['reliability', 'class', 'forbidden', 'regular', 'regbip', 'bip', 'chordal', 'induced', 'letterP', 'balanced', 'weighted'])
    if t in ('class', 'chordal', 'forbidden', 'weighted') and m > 12 or t in ('regular', 'regbip', 'bip', 'letterP') and m > 40:
        t = rng.choice(['reliability', 'induced'])
    if t == 'reliability':
        p = dict(((L[u], L[v]), rng.choice([0, 1, .5, .9, rng.random()])) for u, v in E)
        T = [L[v] for v in rng.sample(range(n), rng.randint(2, min(4, n)))]
        # its keys must be written as in the universe
        return t, lambda gs: GraphSet.reliability(dict((e, p[k] if k in p else p[(k[1], k[0])]) for e in GraphSet.universe() for k in [(e[0], e[1])]), T)
    if t in ('class', 'chordal'):
        from graphillion.graphclass import GraphClass
        c = rng.choice([c for c in CLASSES if hasattr(GraphClass, c)]) if t == 'class' else 'chordal_graphs'
        return c, lambda gs: getattr(GraphClass, c)()
    if t == 'forbidden':
        S = [[(L[u], L[v]) for u, v in rng.sample(E, rng.randint(1, min(3, m)))] for _ in range(2)]
        return t, lambda gs: GraphSet.forbidden_induced_subgraphs(GraphSet(S))
    if t == 'regular': return t, lambda gs: GraphSet.regular_graphs((1, 3), graphset=gs)
    if t == 'regbip': return t, lambda gs: GraphSet.regular_bipartite_graphs((1, 3), graphset=gs)
    if t == 'bip': return t, lambda gs: GraphSet.bipartite_graphs(graphset=gs)
    if t == 'letterP': return t, lambda gs: GraphSet.letter_P_graphs(graphset=gs)
    if t == 'balanced':
        a = rng.randint(1, 4)
        return t, lambda gs: GraphSet.balanced_partitions(num_comps=a)
    if t == 'weighted':
        w = dict((v, rng.randint(1, 5)) for v in L)
        return t, lambda gs: GraphSet.weighted_induced_graphs(w, 3, 12)
    return t, lambda gs: GraphSet.induced_graphs()


def case(ctx, rng, k):
    rt = ctx.rt
    name, n, E = graph(rng, not ctx.deep)
    m = len(E)
    L = labels(rng, n)
    GraphSet.set_universe([(L[u], L[v]) for u, v in E], traversal='as-is' if rng.random() < .8 or m > 30 else 'bfs')
    base = None
    if rng.random() < .3:
        base = GraphSet.graphs(num_edges=range(rng.randint(0, m // 2), m))
    for rep in range(2):
        want = None
        if rng.random() < .3:
            q, call = other(rng, n, E, L, m)
        else:
            q, call, cond, leave = scale.question(rng, n, E, L)
            try:
                if base is None:
                    want = count(n, E, limit=300, **cond) - leave
            except TooWide:
                pass
        ctx.log(name, n, m, q, 'base' if base is not None else '')
        b = base if rng.random() < .7 else None
        if b is not None and q in ('partitions', 'induced', 'reliability'):
            b = None
        first = None
        scheds = set()
        for t in [1] + rng.sample(THREADS, 3 if ctx.prop == 'C21' else 2):
            GraphSet.omp_set_num_threads(t)
            rt.seed(rng.randrange(1, 1 << 62) if rng.random() < .9 else 0)
            was = rt.now()
            F = call(b)
            now = rt.now()
            if t > 1:
                for what, x, y in zip(('parallel regions', 'chunks of work', 'chunks taken by other threads than the first', 'delays injected'), was, now):
                    ctx.count(what, y - x)
                if rt.schedule() is not None and now[1] > was[1]:
                    ctx.seen(q, t, rt.schedule())
                    ctx.count('schedules')
                elif rt.lib is None:
                    ctx.seen(name, m, q, t)
            ctx.checks += 1
            if first is None:
                first = F
                if want is not None and b is None:
                    ctx.eq(F.len(), want, 'parallel:one-thread:' + q, 'graphs found with one thread')
            elif isinstance(F, float) or isinstance(first, float):
                ctx.check(abs(F - first) < 1e-12, 'parallel:' + q, '%s gives %r with %d threads and %r with one', q, F, t, first)
            else:
                ctx.check(F == first, 'parallel:' + q, '%s on %s of %d edges gives %d graphs with %d threads and %d with one (difference %d)',
                          q, name, m, F.len(), t, first.len(), (F ^ first).len())
            ctx.count('threads: %d' % t)
    if k < 2:
        ctx.sample({'universe': '%s of %d edges' % (name, m), 'search': q, 'threads': t})


def session(ctx):
    ctx.rt = Runtime()
    prelude(ctx)
    ctx.run(case)
    GraphSet.omp_set_num_threads(1)
