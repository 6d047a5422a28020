"""C07 and C08: the ready-made searches against their definitions, by brute force."""
from ..fam import *
from ..gmodel import G
from .search import universe, base_family


def bc(x):
    return bin(x).count('1')


def regular(g, S, lo, hi, conn):
    if S == 0:
        return False
    d = set(x for x in g.deg(S) if x)
    return len(d) == 1 and lo <= min(d) <= hi and (not conn or len(g.comps(S)) == 1)


def paths_like(g, S):
    return bool(g.anypath(S)) and g.forest(S)


def terminals(rng, s, lo=1, hi=4):
    return rng.sample(range(s.n), min(s.n, rng.randint(lo, hi)))


# each returns (name, call(graphset) , predicate(S) , ignored masks)
def gen_C07(rng, s):
    g, L, n = s.g, s.L, s.n
    Ls = lambda vs: rng.choice([list, list, tuple])([L[v] for v in vs])
    t = rng.choice(['comp', 'clique', 'biclique', 'trees', 'forests', 'cycles', 'paths', 'paths', 'paths1', 'letterP',
                    'ssub', 'stree', 'scycle', 'spath'])
    if t in ('comp', 'ssub'):
        T = terminals(rng, s)
        f = GraphSet.connected_components if t == 'comp' else GraphSet.steiner_subgraphs
        a = [L[v] for v in T]
        return (t, lambda gs: f(a, graphset=gs) if gs is not None else f(a),
                lambda S: g.groups(S, [T], 0), a)
    if t == 'clique':
        k = rng.randint(2, 5)
        return (t, lambda gs: GraphSet.cliques(k, graphset=gs),
                lambda S: g.size(S) == k * (k - 1) // 2 and len(g.comps(S)) == 1 and bc(g.verts(S)) == k, k)
    if t == 'biclique':
        k = rng.randint(1, 3)

        def pred(S):
            return (g.size(S) == k * k and len(g.comps(S)) == 1 and bc(g.verts(S)) == 2 * k and
                    all(x in (0, k) for x in g.deg(S)) and g.bipartite(S))
        return t, lambda gs: GraphSet.bicliques(k, k, graphset=gs), pred, k
    if t == 'trees':
        r = rng.choice([None] + list(range(n)))
        sp = rng.random() < .4

        def pred(S):
            if not g.forest(S) or sp and not g.spanning(S):
                return False
            if r is None:
                return len(g.comps(S)) == 1
            return g.groups(S, [[r]], 0)
        kw = {}
        if r is not None or rng.random() < .5:
            kw['root'] = None if r is None else L[r]
        if sp or rng.random() < .5:
            kw['is_spanning'] = sp
        return t, lambda gs: GraphSet.trees(graphset=gs, **kw), pred, kw
    if t == 'forests':
        T = terminals(rng, s, 1, 4)
        sp = rng.random() < .4

        def pred(S):
            return (g.forest(S) and g.groups(S, [[v] for v in T], 0) and
                    (not sp or all(d or v in T for v, d in enumerate(g.deg(S)))))
        a = [L[v] for v in T]
        return t, lambda gs: GraphSet.forests(a, is_spanning=sp, graphset=gs), pred, (a, sp)
    if t == 'cycles':
        h = rng.random() < .4
        return (t, lambda gs: GraphSet.cycles(is_hamilton=h, graphset=gs),
                lambda S: g.cycle(S) and (not h or g.spanning(S)), h)
    if t == 'paths':
        a, b = rng.randrange(n), rng.randrange(n)
        h = rng.random() < .35
        if a == b:
            h = False
        return (t, lambda gs: GraphSet.paths(L[a], L[b], is_hamilton=h, graphset=gs),
                lambda S: g.path(S, a, b) and (not h or g.spanning(S)), (L[a], L[b], h))
    if t == 'paths1':
        h = rng.random() < .35
        a = rng.choice([None] + list(range(n)))
        return (t, lambda gs: GraphSet.paths(None if a is None else L[a], is_hamilton=h, graphset=gs),
                lambda S: paths_like(g, S) and (a is None or g.deg(S)[a] == 1) and (not h or g.spanning(S)),
                (None if a is None else L[a], h))
    if t == 'letterP':
        def pred(S):
            d = g.deg(S)
            return len(g.comps(S)) == 1 and max(d) == 3 and d.count(3) == 1 and d.count(1) == 1
        return t, lambda gs: GraphSet.letter_P_graphs(graphset=gs), pred, ()
    T = terminals(rng, s)
    a = [L[v] for v in T]
    if t == 'stree':
        return (t, lambda gs: GraphSet.steiner_trees(a, graphset=gs), lambda S: g.forest(S) and g.groups(S, [T], 0), a)
    if t == 'scycle':
        # of one terminal, the vertex alone is (oddly) listed too: not judged
        return (t, lambda gs: GraphSet.steiner_cycles(a, graphset=gs),
                lambda S: g.cycle(S) and all(g.verts(S) >> v & 1 for v in T), a, {0} if len(T) == 1 else set())
    return (t, lambda gs: GraphSet.steiner_paths(a, graphset=gs),
            lambda S: paths_like(g, S) and all(g.verts(S) >> v & 1 for v in T), a)


def gen_C08(rng, s):
    g, L, n = s.g, s.L, s.n
    maxd = max(g.deg((1 << s.m) - 1))
    t = rng.choice(['match', 'perfect', 'kmatch', 'bmatch', 'kfactor', 'ffactor', 'regular', 'regular', 'bip', 'bip',
                    'regbip', 'degdist', 'degdist', 'degdist'])
    if t == 'match':
        return t, lambda gs: GraphSet.matchings(graphset=gs), lambda S: max(g.deg(S)) <= 1, ()
    if t == 'perfect':
        return t, lambda gs: GraphSet.perfect_matchings(graphset=gs), lambda S: set(g.deg(S)) == {1}, ()
    if t == 'kmatch':
        k = rng.randint(0, 4)
        return t, lambda gs: GraphSet.k_matchings(k, graphset=gs), lambda S: max(g.deg(S)) <= k, k
    if t == 'bmatch' or t == 'ffactor':
        hi = maxd + 1
        b = {v: rng.randint(0, hi) for v in range(n) if rng.random() < .8}
        if t == 'ffactor' and rng.random() < .6:
            # the degrees of some subgraph, so that there is one
            S0 = rng.randrange(1 << s.m)
            b = {v: d for v, d in enumerate(g.deg(S0)) if d or rng.random() < .5}
        f = {L[v]: d for v, d in b.items()}
        if t == 'bmatch':
            return (t, lambda gs: GraphSet.b_matchings(f, graphset=gs),
                    lambda S: all(d <= b.get(v, 0) for v, d in enumerate(g.deg(S))), f)
        return (t, lambda gs: GraphSet.f_factors(f, graphset=gs),
                lambda S: all(d == b.get(v, 0) for v, d in enumerate(g.deg(S))), f)
    if t == 'kfactor':
        k = rng.randint(0, 4)
        return t, lambda gs: GraphSet.k_factors(k, graphset=gs), lambda S: set(g.deg(S)) == {k}, k
    if t in ('regular', 'regbip'):
        conn = rng.random() < .5
        r = rng.random()
        if r < .3:
            deg, lo, hi = None, 1, n
        elif r < .65:
            lo = hi = deg = rng.randint(1, 3)
        elif r < .7:
            w = rng.choice([256, 1 << 16, 1 << 32])
            lo = hi = deg = rng.randint(1, 3) + w
            if rng.random() < .6:
                lo = rng.randint(1, 2)
                deg = (lo, hi)
        else:
            lo = rng.randint(1, 3)
            hi = rng.randint(lo, 4)
            deg = (lo, hi)
        kw = dict(is_connected=conn)
        if deg is not None:
            kw['degree'] = deg
        if conn and rng.random() < .5:
            del kw['is_connected']
        if t == 'regular':
            return (t, lambda gs: GraphSet.regular_graphs(graphset=gs, **kw),
                    lambda S: regular(g, S, lo, hi, conn), kw)
        return (t, lambda gs: GraphSet.regular_bipartite_graphs(graphset=gs, **kw),
                lambda S: regular(g, S, lo, hi, conn) and g.bipartite(S), kw)
    if t == 'bip':
        conn = rng.random() < .5
        return (t, lambda gs: GraphSet.bipartite_graphs(is_connected=conn, graphset=gs),
                lambda S: g.bipartite(S) and (not conn or len(g.comps(S)) <= 1), conn)
    conn = rng.random() < .5
    A = GraphSet.DegreeDistribution_Any
    if rng.random() < .7:
        # the distribution of some subgraph, with some degrees left open
        d = g.deg(rng.randrange(1, 1 << s.m))
        dist = {k: d.count(k) for k in set(d)}
        for k in list(dist):
            if rng.random() < .4:
                dist[k] = A
        if rng.random() < .3:
            dist[rng.randint(1, 5)] = A
    else:
        dist = {k: rng.choice([A, A, 0, 1, 2, 3]) for k in range(0, 5) if rng.random() < .7}
    if rng.random() < .5 or not dist:
        dist[0] = A

    def pred(S):
        d = g.deg(S)
        if conn and len(g.comps(S)) != 1:
            return False
        for k in set(d) | set(dist):
            w = dist.get(k, 0)
            if w != A and d.count(k) != w:
                return False
        return True
    if rng.random() < .15:
        # degrees and numbers of vertices beyond any graph at hand
        big = rng.choice([200, 255, 256, 300, 70000, 1 << 32])
        if rng.random() < .5:
            dist[big + rng.randint(0, 3)] = rng.choice([A, A, 0, 0, 1])
        elif dist:
            x = rng.choice(sorted(dist))
            dist[x] = big + max(dist[x], 0)
    it = list(dist.items())
    rng.shuffle(it)
    dd = dict(it)
    # the graph without edges is not judged when connectedness is asked for
    return (t, lambda gs: GraphSet.degree_distribution_graphs(dd, conn, graphset=gs), pred, (dd, conn),
            {0} if conn else set())


GEN = {'C07': gen_C07, 'C08': gen_C08}


def case(ctx, rng, k):
    s = universe(ctx, rng, rng.choice([3, 5, 7, 8, 9, 10, 11]))
    g, K = s.g, s.K
    full = list(g.all())
    for rep in range(14):
        q = GEN[ctx.prop](rng, s)
        name, call, pred, arg = q[:4]
        free = q[4] if len(q) > 4 else set()
        base = base_family(rng, s)
        bobj = None if base is None else K.mk(base)
        ctx.log(name, arg, None if base is None else sorted(base)[:20])
        got = call(bobj)
        ctx.check(isinstance(got, GraphSet), 'result-type', '%s gave %r', name, type(got))
        want = {S for S in (full if base is None else base) if pred(S)}
        gm = K.masks(got, limit=len(want) + 300)
        ctx.checks += 1
        if gm - free != want - free:
            raise Violation('%s%s' % (name, '' if base is None else ':base'),
                            '%s(%r)%s on %r (%r): %d found, %d by definition; missing %r extra %r' % (
                                name, arg, '' if base is None else ' of a base family of %d' % len(base), K.edges,
                                K.how, len(gm), len(want), [K.raw(x) for x in sorted(want - gm - free)[:3]],
                                [K.raw(x) for x in sorted(gm - want - free)[:3]]))
        if base is not None:
            ctx.check(gm <= base, name + ':outside-base', '%s returned graphs outside the base collection', name)
            ctx.eq(K.masks(bobj), base, 'base-changed', 'the base collection after ' + name)
        ctx.eq(len(got), len(gm), 'count', 'len of the result of ' + name)
        ctx.count(name + ('' if base is None else ' (base)'))
        if want and len(want) < len(full):
            ctx.count('non-trivial answers')
            ctx.seen(K.edges, name, repr(arg), len(want))
    if k < 2:
        ctx.sample({'universe': repr(K.edges), 'search': name, 'arg': repr(arg)[:200], 'found': len(want)})


def session(ctx):
    prelude(ctx)
    ctx.run(case)
