"""C13: vertex-set families of a graph against evaluation on all vertex sets."""
from ..fam import *


def adjacency(n, E):
    a = [0] * n
    for u, v in E:
        a[u] |= 1 << v
        a[v] |= 1 << u
    return a


def balls(n, a, d):
    """vertices at distance 1..d of each vertex"""
    out = []
    for v in range(n):
        seen = cur = 1 << v
        for _ in range(min(d, n)):
            nx = 0
            for u in bits(cur):
                nx |= a[u]
            cur = nx & ~seen
            seen |= nx
        out.append(seen & ~(1 << v))
    return out


def setup(rng, n, E, style=None):
    """a vertex universe given directly or through a graph; extra vertices
    may be outside every edge"""
    K = VertexKind()
    if E and rng.random() < .4 and len({v for e in E for v in e}) == n:
        L, edges = relabel(rng, n, E, style)
        set_graph_universe(rng, edges)
    else:
        # given directly, a tuple would mean a vertex and its weight
        L, edges = relabel(rng, n, E, style or rng.choice(['seq', 'int', 'neg', 'str']))
        order = [v if rng.random() < .7 else (v, rng.randint(-2, 5)) for v in L]
        rng.shuffle(order)
        VertexSetSet.set_universe(order)
    K.elems, K.n = L, n
    K.index = {v: i for i, v in enumerate(L)}
    if rng.random() < .3:
        edges = edges + [rng.choice([e, e[::-1]]) for e in rng.sample(edges, min(2, len(edges)))]   # repeated
        rng.shuffle(edges)
    return K, edges


def small(ctx, rng, k):
    n, E = shape(rng, rng.choice([1, 3, 6, 9, 12]))
    if rng.random() < .25:
        n += rng.randint(1, 2)          # isolated vertices
    if rng.random() < .07:
        n, E = rng.randint(1, 6), []
    if n > 11:
        n, E = 11, [e for e in E if max(e) < 11]
    K, edges = setup(rng, n, E)
    a = adjacency(n, E)
    ctx.log('vertices', K.elems, 'edges', edges)
    ctx.count('graphs')
    full = (1 << n) - 1
    ctx.seen(n, sorted(E), edges)

    def compare(r, pred, key, what):
        want = {S for S in range(full + 1) if pred(S)}
        got = K.masks(r)
        if got != want:
            ex = sorted(got ^ want, key=popcount)[0]
            ctx.check(False, 'vertexsets:' + key, '%s over vertices %r: %d members, expected %d; e.g. %r %s', what, K.elems,
                      len(got), len(want), K.raw(ex), 'is missing' if ex in want else 'does not belong')
        ctx.check(isinstance(r, VertexSetSet), 'vertexsets:type', '%s is a %s', key, type(r).__name__)
        ctx.eq(r.len(), len(want), 'vertexsets:len', 'len of ' + what)
        ctx.count(key)

    def indep(S, nb):
        return all(not nb[v] & S for v in bits(S))

    keep = list(edges)
    for rep in range(2):
        d = rng.choice([1, 1, 2, 2, 3, 4, 50])
        nb = balls(n, a, d)
        f = VertexSetSet.independent_sets
        r = f(edges, d) if d > 1 or rng.random() < .3 else f(edges)
        compare(r, lambda S: indep(S, nb), 'independent_sets', 'independent_sets(%r, %d)' % (edges, d))
        d = rng.choice([1, 1, 2, 2, 3, 4, 50])
        nb2 = balls(n, a, d)
        f = VertexSetSet.dominating_sets
        r = f(edges, d) if d > 1 or rng.random() < .3 else f(edges)
        compare(r, lambda S: all(S >> v & 1 or nb2[v] & S for v in range(n)), 'dominating_sets',
                'dominating_sets(%r, %d)' % (edges, d))
        compare(VertexSetSet.vertex_covers(edges), lambda S: indep(full & ~S, a), 'vertex_covers', 'vertex_covers(%r)' % edges)
        compare(VertexSetSet.cliques(edges), lambda S: all(a[v] | 1 << v | ~S == -1 for v in bits(S)), 'cliques',
                'cliques(%r)' % edges)
        ctx.check(edges == keep, 'vertexsets:argument', 'the edge list %r became %r', keep, edges)
        edges = [rng.choice([e, e[::-1]]) for e in edges]
        rng.shuffle(edges)
        keep = list(edges)


def chain_counts(n, cyc, ok, width):
    """number of 0/1 strings of length n whose every window (cyclic or, when
    not, padded with zeros flagged None at the ends) satisfies ok; transfer by
    explicit states of width-1 symbols"""
    states = {}
    if not cyc:
        cur = {(None,) * (width - 1): 1}
        for i in range(n):
            nx = {}
            for s, c in cur.items():
                for b in (0, 1):
                    w = s + (b,)
                    if ok(w):
                        nx[w[1:]] = nx.get(w[1:], 0) + c
            cur = nx
        for _ in range(width // 2):
            nx = {}
            for s, c in cur.items():
                w = s + (None,)
                if ok(w):
                    nx[w[1:]] = nx.get(w[1:], 0) + c
            cur = nx
        return sum(cur.values())
    from itertools import product
    tot = 0
    for first in product((0, 1), repeat=width - 1):
        cur = {first: 1}
        for i in range(n - (width - 1)):
            nx = {}
            for s, c in cur.items():
                for b in (0, 1):
                    w = s + (b,)
                    if ok(w):
                        nx[w[1:]] = nx.get(w[1:], 0) + c
            cur = nx
        for i in range(width - 1):
            nx = {}
            for s, c in cur.items():
                w = s + (first[i],)
                if ok(w):
                    nx[w[1:]] = nx.get(w[1:], 0) + c
            cur = nx
        tot += sum(cur.values())
    return tot


def big(ctx, rng, k):
    """paths, cycles, stars and complete (multipartite) graphs of any size"""
    what = rng.choice(['path', 'cycle', 'star', 'bipartite', 'matching'])
    n = rng.choice([10, 25, 60])
    d = rng.choice([1, 1, 2, 3])
    if what in ('path', 'cycle'):
        E = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if what == 'cycle' else [])
        cyc = what == 'cycle'
        ind = chain_counts(n, cyc, lambda w: not (w[-1] == 1 and 1 in w[:-1]), d + 1)
        dom = chain_counts(n, cyc, lambda w: w[d] is None or 1 in w, 2 * d + 1)
        cov = chain_counts(n, cyc, lambda w: w[0] != 0 or w[1] != 0, 2)
        cl = 1 + n + len(E)
    elif what == 'star':
        E = [(0, i) for i in range(1, n)]
        ind = 2 ** (n - 1) + 1 if d == 1 else n + 1
        dom = 2 ** (n - 1) + 1 if d == 1 else 2 ** n - 1
        cov = 2 ** (n - 1) + 1
        cl = 1 + n + len(E)
    elif what == 'bipartite':
        p = rng.randint(2, 7)
        q = rng.randint(2, 7)
        n = p + q
        E = [(i, p + j) for i in range(p) for j in range(q)]
        ind = 2 ** p + 2 ** q - 1 if d == 1 else n + 1
        dom = (2 ** p - 1) * (2 ** q - 1) + 2 if d == 1 else 2 ** n - 1
        cov = 2 ** p + 2 ** q - 1
        cl = 1 + n + len(E)
    else:
        n += n % 2
        E = [(2 * i, 2 * i + 1) for i in range(n // 2)]
        ind = dom = cov = 3 ** (n // 2)
        cl = 1 + n + len(E)
    L = labels(rng, n, rng.choice(['seq', 'int', 'neg', 'str']))
    edges = [(L[u], L[v]) if rng.random() < .5 else (L[v], L[u]) for u, v in E]
    VertexSetSet.set_universe(L)           # in the graph's order: small diagrams
    ctx.log('big', what, n, d)
    ctx.eq(VertexSetSet.independent_sets(edges, d).len(), ind, 'vertexsets:count', 'independent sets (%s, n=%d, d=%d)' % (what, n, d))
    ctx.eq(VertexSetSet.dominating_sets(edges, d).len(), dom, 'vertexsets:count', 'dominating sets (%s, n=%d, d=%d)' % (what, n, d))
    ctx.eq(VertexSetSet.vertex_covers(edges).len(), cov, 'vertexsets:count', 'vertex covers (%s, n=%d)' % (what, n))
    if n <= 25:
        ctx.eq(VertexSetSet.cliques(edges).len(), cl, 'vertexsets:count', 'cliques (%s, n=%d)' % (what, n))
    ctx.count('big:' + what)
    ctx.seen(what, n, d)


def case(ctx, rng, k):
    (big if rng.random() < .06 else small)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
