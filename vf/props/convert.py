"""C14: conversions to vertex and edge-vertex families, member by member."""
from ..fam import *
from ..gmodel import G
from .vertexfam import chain_counts


def views(rng, K, extra):
    """the vertex- and edge-vertex elements that go with the graph universe"""
    V = VertexKind()
    V.elems = list(K.vertices) + extra
    V.n = len(V.elems)
    V.index = {v: i for i, v in enumerate(V.elems)}
    W = EVKind()
    W.elems = list(K.vertices) + K.edges
    W.n = len(W.elems)
    W.nv = len(K.vertices)
    W.index = {x: i for i, x in enumerate(W.elems)}
    W.close = {W.nv + i: (1 << W.index[e[0]]) | (1 << W.index[e[1]]) for i, e in enumerate(K.edges)}
    return V, W


def make(ctx, rng, K, masks):
    """the family of these masks by one of several routes"""
    r = rng.randrange(5)
    if r == 0 or not masks:
        return K.mk(masks, rng)
    if r == 1:                                  # removing from the power set
        g = GraphSet({})
        return g - K.mk(set(range(1 << K.n)) - masks, rng) if K.n <= 9 else g & K.mk(masks, rng)
    if r == 2:
        g = GraphSet()
        for m in masks:
            g.add(K.member(m, rng))
        return g
    if r == 3:
        return GraphSet.loads(K.mk(masks, rng).dumps())
    g = K.mk(masks, rng)
    h = g.copy()
    h.add([])
    h.flip(K.elems[0])
    return g


def small(ctx, rng, k):
    n, E = shape(rng, rng.choice([1, 3, 6, 9, 12]))
    L, edges = relabel(rng, n, E, rng.choice([None, 'seq', 'int', 'neg', 'str']))
    K = GraphKind().adopt(rng, edges)
    extra = []
    if rng.random() < .35 and not any(isinstance(v, tuple) for v in L):
        vs = list(L)
        if rng.random() < .4:
            new = [v for v in ([77, 78] if isinstance(L[0], int) else ['p', 'qq']) if v not in L]
            extra = new[:rng.randint(1, 2)]
            vs += extra
        rng.shuffle(vs)
        VertexSetSet.set_universe(vs)
        ctx.count('explicit vertex universe')
        ctx.log('vertex universe', vs)
    V, W = views(rng, K, extra)
    ev_ok = not any(isinstance(v, tuple) for v in L)        # (u, v) would be ambiguous
    ctx.log('edges', edges, K.how)
    fams = []
    for rep in range(3):
        masks = random_masks(rng, K.n)
        if rep == 2 and rng.random() < .5:
            # a family with structure, from the library's own search
            g = rng.choice([lambda: GraphSet.trees(), lambda: GraphSet.matchings(), lambda: GraphSet.cycles(),
                            lambda: GraphSet.paths(L[0], L[-1]) if len(L) > 1 else GraphSet(),
                            lambda: GraphSet.connected_components([L[0]]), lambda: GraphSet({})])()
            masks = K.masks(g)
        else:
            g = make(ctx, rng, K, masks)
        before = g.dumps()
        ctx.log('family', sorted(masks))
        for again in range(rng.choice([1, 1, 2])):
            todo = ['v', 'ev'] if ev_ok else ['v']
            rng.shuffle(todo)
            for which in todo:
                if which == 'v':
                    r = g.to_vertexsetset()
                    T, want, cls = V, {sum(1 << V.index[v] for v in {x for i in bits(m) for x in edges[i]}) for m in masks}, VertexSetSet
                else:
                    r = g.to_edgevertexsetset()
                    T, want, cls = W, {W.closure(m << W.nv) for m in masks}, EdgeVertexSetSet
                got = T.masks(r)
                if got != want:
                    ex = sorted(got ^ want, key=popcount)[0]
                    ctx.check(False, 'convert:' + which, 'edges %r, family %r: %d members, expected %d; e.g. %r %s', edges,
                              [K.raw(m) for m in sorted(masks)[:12]], len(got), len(want), T.raw(ex),
                              'is missing' if ex in want else 'does not belong')
                ctx.check(type(r) is cls, 'convert:type', '%s is a %s', which, type(r).__name__)
                ctx.eq(r.len(), len(want), 'convert:len', 'len of ' + which)
                ctx.check(g.dumps() == before and K.masks(g) == masks, 'convert:source', 'conversion %s changed its source', which)
                if want:
                    m = rng.choice(sorted(want))
                    ctx.check(T.raw(m) in r or set(T.raw(m)) in r, 'convert:member', '%r not in the converted family', T.raw(m))
                fams.append((which, r, want))
                ctx.count(which)
                ctx.seen(which, sorted(E), K.how[0], sorted(masks))
    # results of different conversions live in one universe
    for which, T in (('v', V), ('ev', W)):
        L2 = [(r, w) for t, r, w in fams if t == which]
        if len(L2) > 1:
            (a, x), (b, y) = rng.sample(L2, 2)
            ctx.check(T.masks(a | b) == x | y and T.masks(a - b) == x - y and (a == b) == (x == y), 'convert:combine',
                      'converted families do not combine')
            ctx.check(T.masks(L2[0][0]) == L2[0][1], 'convert:later', 'an earlier conversion changed')


def big(ctx, rng, k):
    what = rng.choice(['path-power', 'trees', 'paths', 'matchings', 'cycle-power', 'star-power'])
    if what in ('path-power', 'cycle-power'):
        n = rng.choice([20, 60, 150])
        cyc = what[0] == 'c'
        E = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if cyc else [])
        # vertex sets of subgraphs: those without a vertex alone
        vs = chain_counts(n, cyc, lambda w: w[1] != 1 or w[0] == 1 or w[2] == 1, 3)
    elif what == 'star-power':
        n = rng.choice([20, 100, 300])
        E = [(0, i) for i in range(1, n)]
        vs = 2 ** (n - 1)
    else:
        n, E = thin_grid(rng, ((3, 6), (3, 8), (2, 20), (4, 4)))
        vs = None
    L, edges = relabel(rng, n, E, rng.choice(['seq', 'int', 'neg', 'str']), shuffle=False)
    K = GraphKind().adopt(rng, edges, 'as-is')
    ctx.log('big', what, n)
    if what.endswith('power'):
        g = GraphSet({})
    elif what == 'trees':
        g = GraphSet.trees(is_spanning=True)
        vs = 1
    elif what == 'paths':
        g = GraphSet.paths(L[0], L[-1])
    else:
        g = GraphSet.matchings()
    before = g.dumps()
    size = g.len()
    v = g.to_vertexsetset()
    if vs is None:
        # sizes: a path has one vertex more than edges, a matching twice as many
        ks = [rng.randint(0, len(E)) for _ in range(3)]
        it = iter(g.rand_iter())
        for _ in range(min(size, 30)):
            m = next(it)
            vv = {x for e in m for x in e}
            ctx.check(vv in v, 'convert:big-member', '%r not among the vertex sets', vv)
        lens = {(2 * j if what == 'matchings' else j + 1): g.graph_size(j) for j in range(len(E) + 1)}
        tot = 0
        for j in range(n + 1):
            sub = v.graph_size(j)
            c = sub.len()
            tot += c
            src = lens.get(j)
            if src is None or src.len() == 0:
                ctx.eq(c, 0, 'convert:big-size', '%d-vertex members of the %s' % (j, what))
            else:
                ctx.check(1 <= c <= src.len(), 'convert:big-size', '%d-vertex members: %d from %d', j, c, src.len())
                ctx.check(src.to_vertexsetset() == sub, 'convert:commutes', 'conversion does not commute with size (%d)', j)
        ctx.eq(v.len(), tot, 'convert:big-len', 'vertex sets by size')
    else:
        ctx.eq(v.len(), vs, 'convert:big-count', 'vertex sets of %s n=%d' % (what, n))
        if what == 'trees':
            ctx.check(set(L) in v, 'convert:big-member', 'the full vertex set is missing')
    e = g.to_edgevertexsetset()
    ctx.eq(e.len(), size, 'convert:ev-len', 'edge-vertex sets of %s' % what)
    it = iter(g.rand_iter())
    for _ in range(min(size, 20)):
        m = next(it)
        mem = [x for x in m] + sorted({x for ed in m for x in ed})
        ctx.check(mem in e, 'convert:ev-member', '%r not among the edge-vertex sets', mem)
    it = iter(e.rand_iter())
    W = views(rng, K, [])[1]
    for _ in range(min(size, 20)):
        mem = next(it)
        x = W.tomask(mem)
        ctx.check(W.closure(x >> W.nv << W.nv) == x, 'convert:ev-endpoints', '%r is not a subgraph with its endpoints', mem)
        ctx.check(K.raw(x >> W.nv) in g, 'convert:ev-origin', '%r comes from no member', mem)
    ctx.check(g.dumps() == before, 'convert:source', 'a conversion changed its source')
    ctx.count('big:' + what)
    ctx.seen(what, n)


def case(ctx, rng, k):
    (big if rng.random() < .05 else small)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
