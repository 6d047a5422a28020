"""C09: partitions, induced subgraphs and graph classes, by brute force."""
from fractions import Fraction
from ..fam import *
from ..gmodel import G
from .search import universe
from .shapes import bc
from graphillion.graphclass import GraphClass


def full_comps(g, S):
    """components including isolated vertices"""
    c = list(g.comps(S))
    v = g.verts(S)
    return c + [1 << i for i in range(g.n) if not v >> i & 1]


def is_partition(g, S):
    """every edge of the universe inside a component belongs to S"""
    return all(g.induced_edges(c) & ~S == 0 for c in g.comps(S))


def induced_in(g, S, F):
    """F, a non-empty subgraph, is an induced subgraph of S"""
    if F == 0:
        return True
    return F & ~S == 0 and S & g.induced_edges(g.verts(F)) == F


# ------------------------------------------------- graph class recognition
def adjacency(g, S):
    adj = {}
    for i, (u, v) in enumerate(g.edges):
        if S >> i & 1:
            adj.setdefault(u, set()).add(v)
            adj.setdefault(v, set()).add(u)
    return adj


def has_induced(adj, k, edges):
    """is the pattern on vertices 0..k-1 an induced subgraph?  by backtracking"""
    pe = set(edges) | set((b, a) for a, b in edges)

    def go(m):
        j = len(m)
        if j == k:
            return True
        for v in adj:
            if v in m:
                continue
            if all(((j, i) in pe) == (m[i] in adj[v]) for i in range(j)):
                if go(m + [v]):
                    return True
        return False
    return go([])


def cyc(k):
    return k, [(i, (i + 1) % k) for i in range(k)]


P4 = (4, [(0, 1), (1, 2), (2, 3)])
CLAW = (4, [(0, 1), (0, 2), (0, 3)])
DIAMOND = (4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)])
GEM = (5, [(0, 1), (1, 2), (2, 3), (4, 0), (4, 1), (4, 2), (4, 3)])
TWOK2 = (4, [(0, 1), (2, 3)])
W4 = (5, [(0, 1), (1, 2), (2, 3), (3, 0), (4, 0), (4, 1), (4, 2), (4, 3)])


def chordal(adj):
    """by eliminating simplicial vertices"""
    a = {v: set(n) for v, n in adj.items()}
    while a:
        for v in a:
            N = a[v]
            if all(y in a[x] for x in N for y in N if x != y):
                for x in N:
                    a[x].discard(v)
                del a[v]
                break
        else:
            return False
    return True


def cograph(adj):
    """every induced subgraph on >= 2 vertices, or its complement, is disconnected"""
    def comps(vs, nb):
        left, out = set(vs), []
        while left:
            st = [left.pop()]
            c = set(st)
            while st:
                x = st.pop()
                for y in nb(x):
                    if y in left:
                        left.discard(y)
                        c.add(y)
                        st.append(y)
            out.append(c)
        return out

    def go(vs):
        if len(vs) <= 1:
            return True
        c = comps(vs, lambda x: adj[x] & vs)
        if len(c) == 1:
            c = comps(vs, lambda x: vs - adj[x] - {x})
            if len(c) == 1:
                return False
        return all(go(x) for x in c)
    return go(set(adj))


def split(adj):
    """degree sequence criterion of Hammer and Simeone"""
    d = sorted((len(n) for n in adj.values()), reverse=True)
    m = max([i + 1 for i, x in enumerate(d) if x >= i] or [0])
    return sum(d[:m]) == m * (m - 1) + sum(d[m:])


def threshold(adj):
    """remove an isolated or dominating vertex until nothing is left"""
    a = {v: set(n) for v, n in adj.items()}
    while a:
        for v in a:
            if not a[v] or len(a[v]) == len(a) - 1:
                for x in a[v]:
                    a[x].discard(v)
                del a[v]
                break
        else:
            return False
    return True


def block_graph(g, S):
    """every biconnected component is a clique: two vertices on a common cycle are
    adjacent, i.e. every cycle induces a clique"""
    adj = adjacency(g, S)
    # blocks by brute force: two edges are equivalent iff some cycle holds both
    m = [i for i in range(g.m) if S >> i & 1]
    cl = {i: i for i in m}

    def find(x):
        while cl[x] != x:
            x = cl[x]
        return x
    sub = S
    while sub:
        if g.cycle(sub):
            bs = [i for i in m if sub >> i & 1]
            for b in bs[1:]:
                cl[find(b)] = find(bs[0])
        sub = (sub - 1) & S
    blocks = {}
    for i in m:
        blocks.setdefault(find(i), []).append(i)
    for bl in blocks.values():
        vs = set(v for i in bl for v in g.edges[i])
        if len(bl) != len(vs) * (len(vs) - 1) // 2:
            return False
    return True


def holes(adj, lens):
    return any(has_induced(adj, *cyc(k)) for k in lens if k <= len(adj))


CLASSES = {
    'claw_free_graphs': lambda g, S, a: not has_induced(a, *CLAW),
    'diamond_free_graphs': lambda g, S, a: not has_induced(a, *DIAMOND),
    'gem_free_graphs': lambda g, S, a: not has_induced(a, *GEM),
    'odd_hole_free_graphs': lambda g, S, a: not holes(a, (5, 7, 9)),
    'chordal_graphs': lambda g, S, a: chordal(a),
    'cographs': lambda g, S, a: cograph(a),
    'split_graphs': lambda g, S, a: split(a),
    'block_graphs': lambda g, S, a: block_graph(g, S),
    'ptolemaic_graphs': lambda g, S, a: chordal(a) and not has_induced(a, *GEM),
    'threshold_graphs': lambda g, S, a: threshold(a),
    'gridline_graphs': lambda g, S, a: not has_induced(a, *CLAW) and not has_induced(a, *DIAMOND) and
    not holes(a, (5, 7, 9)),
    'domino_graphs': lambda g, S, a: not has_induced(a, *CLAW) and not has_induced(a, *GEM) and
    not has_induced(a, *W4),
    'linear_domino_graphs': lambda g, S, a: not has_induced(a, *CLAW) and not has_induced(a, *DIAMOND),
    # without the connectedness that chordal_bipartite_graphs() adds: judged on connected ones below
    'chordal_bipartite_graphs': lambda g, S, a: g.bipartite(S) and not holes(a, (6, 8, 10)),
    'claw_graphs': lambda g, S, a: len(a) == 4 and g.size(S) == 3 and has_induced(a, *CLAW),
    'diamond_graphs': lambda g, S, a: len(a) == 4 and g.size(S) == 5,
    'gem_graphs': lambda g, S, a: len(a) == 5 and g.size(S) == 7 and has_induced(a, *GEM),
    'odd_hole_graphs': lambda g, S, a: g.cycle(S) and g.size(S) % 2 == 1 and g.size(S) >= 5,
}


def judge(ctx, s, name, arg, got, pred, space=None, free=lambda S: False):
    g, K = s.g, s.K
    want = {S for S in (space or g.all()) if pred(S)}
    gm = K.masks(got, limit=len(want) + 300)
    ctx.checks += 1
    bad = {S for S in gm ^ want if not free(S)}
    if bad:
        raise Violation(name, '%s(%r) on %r (%r): %d found, %d by definition; missing %r extra %r' % (
            name, arg, K.edges, K.how, len(gm), len(want), [K.raw(x) for x in sorted((want - gm) & bad)[:3]],
            [K.raw(x) for x in sorted((gm - want) & bad)[:3]]))
    ctx.eq(len(got), len(gm), 'count', 'len of ' + name)
    ctx.count(name)
    if want and len(want) < 1 << s.m:
        ctx.seen(K.edges, name, repr(arg), len(want))
    return len(want)


MAXW = 2 ** 32 - 1        # weights and their bounds


def weights(rng, s):
    t = rng.random()
    if t < .2:
        return None, [1] * s.n
    hi = rng.choice([1, 3, 10, 1000, 10 ** 6, 2 ** 29, 2 ** 31, 2 ** 32 - 1])
    w = [1] * s.n
    d = {}
    for v in range(s.n):
        if rng.random() < .85:
            w[v] = rng.randint(0, hi) if rng.random() < .9 else hi
            d[s.L[v]] = w[v]
    return d, w


def case(ctx, rng, k):
    kind = rng.choice(['part', 'part', 'bal', 'bal', 'induced', 'forbid', 'forbid', 'class', 'class'])
    dense = kind == 'class' and rng.random() < .6
    s = universe(ctx, rng, rng.choice([3, 5, 7, 8, 9, 10]) if not dense else 10,
                 rng.choice(['complete', 'wheel', 'gnp', 'theta', 'cycle', 'bipartite']) if dense else None)
    g, L, K = s.g, s.L, s.K
    n = 0
    space = None
    if kind in ('part', 'bal'):
        space = [S for S in g.all() if is_partition(g, S)]
    elif kind == 'induced':
        space = [S for S in g.all() if S and len(g.comps(S)) == 1 and g.induced_edges(g.verts(S)) == S]
    for rep in range(4 if kind == 'class' else 8 if space is None else 24):
        if kind == 'part':
            kw = {}
            lo, hi = 1, 32767
            if rng.random() < .8:
                lo = kw['num_comp_lb'] = rng.randint(1, max(1, s.n))
            if rng.random() < .8:
                hi = kw['num_comp_ub'] = rng.randint(lo, s.n + 1)
            ctx.log('partitions', kw)
            n = judge(ctx, s, 'partitions', kw, GraphSet.partitions(**kw),
                      lambda S: lo <= len(full_comps(g, S)) <= hi, space)
        elif kind == 'bal':
            d, w = weights(rng, s)
            tot = sum(w)
            cw = lambda c: sum(w[v] for v in range(s.n) if c >> v & 1)
            kw = {'weight_list': d} if d is not None or rng.random() < .5 else {}
            lo, hi, ratio, nc = 0, None, 0, None
            mark = sorted(cw(x) for x in full_comps(g, rng.choice(space)))     # bounds some partition just meets
            near = rng.random() < .6
            if rng.random() < .5:
                lo = kw['lower'] = min(max(0, mark[0] + rng.choice([0, 0, 1, -1])) if near else rng.randint(0, tot), MAXW // 4)
            if near and rng.random() < .6:
                hi = kw['upper'] = min(max(lo, 1, mark[-1] + rng.choice([0, 0, 1, -1])), MAXW)
            elif rng.random() < .5 or tot > MAXW // 4 and rng.random() < .7:
                hi = kw['upper'] = min(rng.randint(max(lo, 1), tot + 2) if max(lo, 1) <= tot + 2 else lo, MAXW)
            else:
                hi = MAXW // 4          # the documented default
            if rng.random() < .5:
                ratio = kw['ratio'] = rng.choice([1.0, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0])
            if rng.random() < .5:
                nc = kw['num_comps'] = rng.randint(1, s.n)

            def pred(S):
                c = [cw(x) for x in full_comps(g, S)]
                if nc is not None and len(c) != nc:
                    return False
                if min(c) < lo or hi is not None and max(c) > hi:
                    return False
                return not ratio or max(c) <= Fraction(ratio) * min(c)
            ctx.log('balanced_partitions', kw)
            n = judge(ctx, s, 'balanced_partitions' + (':ratio' if ratio else ''), kw,
                      GraphSet.balanced_partitions(**kw), pred, space)
        elif kind == 'induced':
            if rng.random() < .1:
                # whether the empty graph (a single vertex) counts is not judged
                n = judge(ctx, s, 'induced_graphs', (), GraphSet.induced_graphs(), lambda S: True, space, free=lambda S: S == 0)
            d, w = weights(rng, s)
            tot = sum(w)
            kw = {'weight_list': d} if d is not None else {}
            lo, hi = 0, None
            vw = lambda S: sum(w[v] for v in range(s.n) if g.verts(S) >> v & 1)
            mark, near = vw(rng.choice(space)), rng.random() < .6                # bounds some induced subgraph just meets
            if rng.random() < .7:
                lo = kw['lower'] = min(max(0, mark + rng.choice([0, 0, 1, -1])) if near else rng.randint(0, tot), MAXW // 2)
            if rng.random() < .7:
                hi = kw['upper'] = min(max(lo, mark + rng.choice([0, 0, 1, 5])) if near else rng.randint(lo, tot + 1), MAXW)
            else:
                hi = MAXW // 2          # the documented default
            ctx.log('weighted_induced_graphs', kw)

            def wpred(S):
                c = vw(S)
                return lo <= c and (hi is None or c <= hi)
            n = judge(ctx, s, 'weighted_induced_graphs', kw, GraphSet.weighted_induced_graphs(**kw), wpred, space,
                      free=lambda S: S == 0)
        elif kind == 'forbid':
            t = rng.random()
            if t < .1:
                F = set()
            elif t < .7:
                F = {rng.randrange(1, 1 << s.m) & rng.randrange(1 << s.m) or 1 for _ in range(rng.randint(1, 6))}
            else:
                F = random_masks(rng, s.m) - {0}
            fo = K.mk(F)
            ctx.log('forbidden_induced_subgraphs', sorted(F)[:20])
            n = judge(ctx, s, 'forbidden_induced_subgraphs', sorted(F), GraphSet.forbidden_induced_subgraphs(fo),
                      lambda S: not any(induced_in(g, S, f) for f in F))
            ctx.eq(K.masks(fo), F, 'base-changed', 'the forbidden family')
        else:
            name = rng.choice(sorted(CLASSES))
            ctx.log(name)
            p = CLASSES[name]
            free = lambda S: False
            if name == 'chordal_bipartite_graphs':
                # the library lists the connected ones only; the definition does not ask for it
                free = lambda S: not g.connected(S)
            n = judge(ctx, s, name, (), getattr(GraphClass, name)(), lambda S: p(g, S, adjacency(g, S)), free=free)
    if k < 2:
        ctx.sample({'universe': repr(K.edges), 'kind': kind, 'found': n})


def session(ctx):
    prelude(ctx)
    ctx.run(case)
