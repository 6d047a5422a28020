"""C17: programs of questions asked in a process with a past and in a fresh
one; families kept over changes of the universe."""
import gc
from random import Random
from . import relab, dumps, algebra, operators, weighted, search, partition, reliab, vertexfam, convert, costs
from .relab import *
from .directed import arcs
from ..pristine import Pristine, Crash

PAST = [algebra, operators, weighted, search, partition, reliab, vertexfam, convert, costs]


def plan(seed):
    """(make universe, questions, description) from a seed alone"""
    rng = Random(seed)
    r = rng.random()
    quiet = lambda rng: None
    sd = rng.random()
    if r < .6:
        if rng.random() < .7:
            n, E = shape(rng, rng.choice([4, 8, 11]))
        else:
            n, E = rng.choice([lambda: thin_grid(rng, ((2, 7), (3, 4), (3, 5))), lambda: shape(rng, 18, 'gnp', 12),
                               lambda: shape(rng, 16, 'bipartite', 9)])()
        g = G(n, E)
        return (lambda: env(Random(sd), n, E, g, False, quiet), [rng.choice(OPS) for _ in range(8)],
                [rng.random() for _ in range(8)], ('undirected', n, tuple(E)))
    if r < .8:
        n, A = arcs(rng, rng.choice([5, 10, 16]))
        return (lambda: denv(Random(sd), n, A, False, quiet),
                [rng.choice([dop_search, dop_search, dop_weights, op_operator, op_operator]) for _ in range(8)],
                [rng.random() for _ in range(8)], ('directed', n, tuple(A)))
    n = rng.choice([3, 6, 8, 10, 24, 60])
    return (lambda: senv(Random(sd), n, False, quiet),
            [sop_new, sop_new] + [rng.choice([sop_new, sop_op, sop_op, sop_op, sop_flip, sop_weights]) for _ in range(8)],
            [rng.random() for _ in range(10)], ('sets', n))


def look(f):
    """an observation of a family that doesn't depend on time"""
    t = f.dumps()
    n = t.count('\n')
    return dumps.canon(t) if n < 800 else (f.len(), n)


def program(seed, between=None):
    mk, ops, seeds, _ = plan(seed)
    s = mk()
    F, obs, m = [], [], 0
    for op, sd in zip(ops, seeds):
        r = op(Random(sd), s, F)
        new, m = [look(f) for _, f in F[m:]], len(F)
        obs.append((r, new, F[-1][1].len() if F else None))
        if between is not None:
            between(s, F)
    return obs if between is None else (obs, s, F)


def grow(rng, past):
    """a universe a little larger than any before"""
    past['size'] += rng.choice([0, 1, 1, 2, 3])
    return past['size']


def disturb(rng, past):
    """something the process does besides; leaves another universe behind"""
    t = rng.randrange(9)
    if t <= 1:
        n = grow(rng, past)
        setset.set_universe(range(n))
        a = setset([{0}, {n - 1}, {n // 2}, set()])
        b = setset({'include': {0}}) if n < 60 else a
        keep = [a.minimal(), b.maximal(), a.join(a), b.len(), a.add_some_element(), a.remove_add_some_elements(),
                b.supersets(a), b.non_subsets(a), b.non_supersets(a), a.hitting()]
        if rng.random() < .3:
            past['kept'] = keep
    elif t == 2:
        n, E = shape(rng, rng.choice([6, 12, 20]))
        GraphSet.set_universe([(u, v) for u, v in E])
        a = GraphSet.paths(E[0][0], E[0][1]) | GraphSet.cliques(2)
        b = GraphSet.matchings()
        for f in (a.minimal(), b.maximal(), a - b, a.larger(2), b.non_subgraphs(a)):
            f.len()
        a.remove_some_edge(), b.add_some_edge(), b.remove_add_some_edges()
    elif t == 3:
        n, A = arcs(rng, 12)
        DiGraphSet.set_universe([(u, v) for u, v in A])
        DiGraphSet.directed_cycles().len()
        DiGraphSet.rooted_forests().maximal()
    elif t == 4:
        for bad in (lambda: GraphSet.set_universe([(1, 1)]), lambda: GraphSet([[('no', 'edge')]]), lambda: GraphSet().including('nobody'),
                    lambda: GraphSet.loads('x y\n'), lambda: setset([5]), lambda: DiGraphSet.set_universe([(1,)]),
                    lambda: GraphSet.paths('nobody', 'else'), lambda: GraphSet({'include': 3})):
            try:
                bad()
            except Exception:
                past['rejected'] = past.get('rejected', 0) + 1
    elif t == 5:
        gc.collect()
        past.pop('kept', None)
    elif t == 6:
        setset.set_universe(range(12))
        f = setset({}) if rng.random() < .5 else setset([{i, i + 1} for i in range(11)])
        past['iter'] = [iter(f), f.min_iter({}), f.max_iter({}), f.rand_iter()]
        for it in past['iter']:
            next(it)
    elif t == 7:
        GraphSet.set_universe([(i, i + 1) for i in range(1, rng.randint(3, 9))] + [(1, 20)])
        VertexSetSet([[1], [2, 3]]).add_some_vertex()
        GraphSet({}).to_edgevertexsetset().len()
        GraphSet.trees().to_vertexsetset().minimal()
    else:
        GraphSet.set_universe([(1, 2), (2, 3), (3, 1), (3, 4)])
        f = GraphSet({})
        while f and rng.random() < .9:
            f.pop()
        f.clear()


def differ(ctx, what, base, obs, where):
    ctx.checks += 1
    ctx.check(len(base) == len(obs), 'history:questions', 'different programs')
    for j, (a, b) in enumerate(zip(base, obs)):
        x, y = a[0], b[0]
        ctx.checks += 2
        if (x is None) != (y is None) or x is not None and not (x[0] == y[0] and agree(x[1], y[1])):
            ctx.check(False, 'history:%s' % (x or y)[0], '%r: question %d (%s) is answered %s in a fresh process and %s %s', what, j,
                      (x or y)[0], brief(x, y), brief(y, x), where)
        ctx.check(a[1] == b[1], 'history:diagram', '%r: question %d (%s) gives another diagram in a fresh process than %s: %r, %r', what, j,
                  x and x[0], where, a[1], b[1])
        ctx.check(a[2] == b[2], 'history:len', '%r: after question %d the size is %r in a fresh process and %r %s', what, j, a[2], b[2], where)


def revisit(ctx, rng, stash):
    """families kept from before, under their own universe again"""
    for what, s, F, base, seed in rng.sample(stash, min(2, len(stash))):
        s.restore()
        ctx.count('families revisited', len(F))
        now = [look(f) for _, f in F]
        old = [d for o in base for d in o[1]]
        ctx.check(now == old, 'kept', '%r: a kept family is another one after the universe was changed and set again: %r, %r',
                  what, now[:3], old[:3])
        mk, ops, seeds, _ = plan(seed)
        G2, obs, m = [], [], 0
        for op, sd in zip(ops, seeds):
            r = op(Random(sd), s, G2)
            new, m = [look(f) for _, f in G2[m:]], len(G2)
            obs.append((r, new, G2[-1][1].len() if G2 else None))
        differ(ctx, what, base, obs, 'after the universe was changed and set again')
        for (a, f), (b, h) in zip(F, G2):
            ctx.check(f == h, 'kept:equal', '%r: a kept family differs from the same family asked for again', what)


def session(ctx):
    srv = Pristine()
    try:
        prelude(ctx)
        past = {'size': 2}
        stash = []

        def case(ctx, rng, k):
            if k % 3 == 0:
                m = rng.choice(PAST)
                ctx.count('cases of ' + m.__name__.split('.')[-1] + ' in between')
                m.case(ctx, rng, k)
            if rng.random() < .1:
                GraphSet.show_messages(rng.random() < .1)
            for _ in range(rng.randint(0, 4)):
                disturb(rng, past)
                ctx.count('disturbances')
            seed = rng.random()
            what = plan(seed)[3]
            ctx.log(what)
            often = rng.choice([0, .3, .8])

            def between(s, F):
                if rng.random() < often:
                    while True:
                        disturb(rng, past)
                        if rng.random() < .6:
                            break
                    s.restore()
                    ctx.count('disturbances within a program')
            try:
                base = srv.call('vf.props.history:program', seed)
            except Crash as e:
                ctx.check(False, 'history:crash', '%r: %s', what, e)
            obs, s, F = program(seed, between)
            differ(ctx, what, base, obs, 'in this one')
            for r, _, _ in base:
                if r is not None:
                    ctx.count(r[0])
                    if isinstance(r[1], tuple) and r[1] and r[1][0] in ('members', 'counts') and r[1][1]:
                        ctx.seen(what, r)
            stash.append((what, s, F, base, seed))
            if len(stash) > 6:
                del stash[rng.randrange(6)]
            if rng.random() < .5:
                revisit(ctx, rng, stash)
        ctx.run(case)
        ctx.count('elements in the largest universe', past['size'])
    finally:
        srv.close()
