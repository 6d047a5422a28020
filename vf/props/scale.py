"""C25: searches over universes of up to hundreds of edges, counted exactly by
an independent dynamic program; identities between answers; members checked
against the definition."""
from ..fam import *
from fractions import Fraction
from math import comb
from .. import model as M
from ..frontier import count, holds, thin, TooWide
from .neighbours import NAMES


class Any(object):
    def __contains__(self, d): return True


def degset(rng, hi):
    t = rng.randrange(5)
    if t == 0:
        a = rng.randint(0, hi)
        return range(a, a + rng.randint(1, 3))
    if t == 1: return range(0, rng.randint(1, hi + 1))
    if t == 2: return range(0, hi + 1, 2)
    if t == 3: return range(rng.randint(0, 1), 40)
    a = rng.randint(0, hi)
    return range(a, a + 1)


def question(rng, n, E, L):
    """(name, call(graphset), conditions, number of graphs to leave out)"""
    m = len(E)
    deg = [0] * n
    for u, v in E:
        deg[u] += 1
        deg[v] += 1
    md = max(deg)
    P = range(n)
    near = rng.random() < .3
    def terms(k):
        a = rng.randrange(max(1, n - 8)) if near else 0
        pool = list(P)[a:a + 8] if near else list(P)
        return rng.sample(pool, min(k, len(pool)))
    pos = range(1, m + 2)
    t = rng.choice(['graphs'] * 6 + ['paths', 'hampaths', 'cycles', 'trees', 'sptrees', 'rooted', 'forests', 'steiner', 'stree', 'scycle', 'spath',
                    'comp', 'match', 'perfect', 'kmatch', 'bmatch', 'kfactor', 'ffactor', 'regular', 'bip', 'degdist', 'degdist', 'partitions',
                    'induced', 'linear', 'size'])
    if t == 'graphs':
        kw, c = {}, {}
        if rng.random() < .6:
            gr = [terms(rng.choice([1, 2, 2, 3]))]
            nc = 0
            if rng.random() < .3:
                rest = [v for v in P if v not in gr[0]]
                if rest:
                    gr.append(rng.sample(rest, min(len(rest), rng.choice([1, 2]))))
            arg = [[L[v] for v in g] for g in gr]
            if rng.random() < .3:
                nc = rng.choice([1, 2])
                arg += [[]] * nc
                rng.shuffle(arg)
            kw['vertex_groups'] = arg
            c.update(groups=gr, nc=nc)
        if rng.random() < .5:
            degs = [degset(rng, min(md, 4)) if rng.random() < .4 else None for v in P]
            if rng.random() < .5:
                D = degset(rng, min(md, 4))
                degs = [D if rng.random() < .9 else None for v in P]
            kw['degree_constraints'] = dict((L[v], D) for v, D in enumerate(degs) if D is not None)
            c['degs'] = degs
        if rng.random() < .4:
            a = rng.randint(0, m)
            kw['num_edges'] = c['sizes'] = range(a, a + rng.randint(1, 20))
        if rng.random() < .5:
            kw['no_loop'] = c['acyclic'] = True
        return t, lambda gs: GraphSet.graphs(graphset=gs, **kw), c, 0
    if t in ('paths', 'hampaths'):
        if n < 2:
            return question(rng, n, E, L)
        a, b = rng.sample(list(P), 2)
        D = [{1} if v in (a, b) else {2} if t == 'hampaths' else {0, 2} for v in P]
        return (t, lambda gs: GraphSet.paths(L[a], L[b], is_hamilton=t == 'hampaths', graphset=gs), dict(degs=D, groups=[[a, b]], nc=0), 0)
    if t == 'cycles':
        h = rng.random() < .3
        return t, lambda gs: GraphSet.cycles(is_hamilton=h, graphset=gs), dict(degs=[{2} if h else {0, 2}] * n, nc=1), 0
    if t == 'trees':
        return t, lambda gs: GraphSet.trees(graphset=gs), dict(acyclic=True, nc=1), 0
    if t == 'sptrees':
        return t, lambda gs: GraphSet.trees(is_spanning=True, graphset=gs), dict(acyclic=True, nc=1, degs=[pos] * n), 0
    if t == 'rooted':
        r = terms(1)[0]
        return t, lambda gs: GraphSet.trees(root=L[r], graphset=gs), dict(acyclic=True, groups=[[r]], nc=0), 0
    if t == 'forests':
        R, sp = terms(rng.randint(1, 4)), rng.random() < .5
        return (t, lambda gs: GraphSet.forests([L[v] for v in R], is_spanning=sp, graphset=gs),
                dict(acyclic=True, groups=[[v] for v in R], nc=0, degs=[None if v in R or not sp else pos for v in P]), 0)
    T = terms(rng.randint(2, 4))
    A = [L[v] for v in T]
    if len(T) < 2:
        t = 'match'
    if t == 'steiner': return t, lambda gs: GraphSet.steiner_subgraphs(A, graphset=gs), dict(groups=[T], nc=0), 0
    if t == 'comp': return t, lambda gs: GraphSet.connected_components(A, graphset=gs), dict(groups=[T], nc=0), 0
    if t == 'stree': return t, lambda gs: GraphSet.steiner_trees(A, graphset=gs), dict(groups=[T], nc=0, acyclic=True), 0
    if t == 'scycle':
        return t, lambda gs: GraphSet.steiner_cycles(A, graphset=gs), dict(nc=1, degs=[{2} if v in T else {0, 2} for v in P]), 0
    if t == 'spath':
        return (t, lambda gs: GraphSet.steiner_paths(A, graphset=gs),
                dict(nc=1, acyclic=True, degs=[{1, 2} if v in T else {0, 1, 2} for v in P]), 0)
    if t == 'match': return t, lambda gs: GraphSet.matchings(graphset=gs), dict(degs=[{0, 1}] * n), 0
    if t == 'perfect': return t, lambda gs: GraphSet.perfect_matchings(graphset=gs), dict(degs=[{1}] * n), 0
    if t == 'kmatch':
        k = rng.randint(0, 4)
        return t, lambda gs: GraphSet.k_matchings(k, graphset=gs), dict(degs=[range(k + 1)] * n), 0
    if t == 'kfactor':
        k = rng.randint(1, 3)
        return t, lambda gs: GraphSet.k_factors(k, graphset=gs), dict(degs=[{k}] * n), 0
    if t == 'bmatch':
        b = [rng.randint(0, 4) for _ in P]
        return (t, lambda gs: GraphSet.b_matchings(dict((L[v], x) for v, x in enumerate(b)), graphset=gs),
                dict(degs=[range(x + 1) for x in b]), 0)
    if t == 'ffactor':
        b = [0] * n
        for u, v in E:
            if rng.random() < .5:
                b[u] += 1
                b[v] += 1
        return (t, lambda gs: GraphSet.f_factors(dict((L[v], x) for v, x in enumerate(b)), graphset=gs),
                dict(degs=[{x} for x in b]), 0)
    if t == 'regular':
        k, conn = rng.randint(1, 3), rng.random() < .5
        return (t, lambda gs: GraphSet.regular_graphs(k, conn, graphset=gs), dict(degs=[{0, k}] * n, **(dict(nc=1) if conn else {})),
                0 if conn else 1)
    if t == 'bip':
        return t, lambda gs: GraphSet.bipartite_graphs(is_connected=False, graphset=gs), dict(bip=True), 0
    if t == 'degdist':
        d = [0] * n
        p = rng.choice([.1, .5, .9])
        for u, v in E:
            if rng.random() < p:
                d[u] += 1
                d[v] += 1
        hist = {}
        for x in d:
            hist[x] = hist.get(x, 0) + 1
        for x in list(hist):
            if rng.random() < .6:
                hist[x] = None
        if rng.random() < .5:
            hist[0] = None
        if set(hist) == {0}:
            hist[1] = None
        conn = rng.random() < .4
        arg = dict((x, GraphSet.DegreeDistribution_Any if k is None else k) for x, k in hist.items())
        return t, lambda gs: GraphSet.degree_distribution_graphs(arg, conn, graphset=gs), dict(hist=hist, **(dict(nc=1) if conn else {})), 0
    if t == 'partitions':
        a = rng.choice([1, 2, 3, 5])
        b = a + rng.choice([0, 0, 1, 3])
        return t, lambda gs: GraphSet.partitions(a, b), dict(flat=(a, b)), 0
    if t == 'induced':
        return t, lambda gs: GraphSet.induced_graphs(), dict(flat=True, nc=1), 0
    if t == 'linear' and m > 120:
        t = 'size'
    if t == 'linear':
        w = [rng.randint(-3, 6) if rng.random() < .7 else 0 for _ in E]
        top = sum(x for x in w if x > 0)
        a = rng.randint(0, max(top, 1))
        b = a + rng.choice([0, 3, 30])
        lc = [([(L[u], L[v], x) for (u, v), x in zip(E, w)], (a, b))]
        return t, lambda gs: GraphSet.graphs(linear_constraints=lc, graphset=gs), dict(weights=w, sums=(a, b)), 0
    a = rng.randint(0, m)
    b = a + rng.choice([1, 1, 5])
    return 'size', lambda gs: GraphSet.graphs(num_edges=range(a, b), graphset=gs), dict(sizes=range(a, b)), 0


class Both(object):
    def __init__(self, A, B): self.A, self.B = A, B
    def __contains__(self, x): return x in self.A and x in self.B


def conj(a, b):
    """conditions holding for both, or None"""
    c = dict(a)
    for k, v in b.items():
        if k not in c or c[k] is None:
            c[k] = v
        elif k == 'degs':
            c[k] = [y if x is None else x if y is None else Both(x, y) for x, y in zip(c[k], v)]
        elif k == 'sizes':
            c[k] = Both(c[k], v)
        elif k in ('acyclic', 'bip'):
            c[k] = c[k] or v
        else:
            return None
    if c.get('flat') is not None and ('groups' in c or 'nc' in c and c['flat'] is not True):
        return None
    return c


def members(ctx, rng, n, E, index, F, cond, name, leave):
    """sampled members and their neighbours against the definition"""
    for _ in range(2):
        if not F:
            return
        S = set(index[e] for e in F.choice())
        ctx.check(holds(n, E, S, **cond), 'scale:member:' + name, '%s() contains %r, which does not satisfy %r', name, sorted(S)[:60], str(cond)[:300])
        for _ in range(6):
            T = S ^ set(rng.sample(range(len(E)), min(len(E), rng.randint(1, 2))))
            if not T and leave:
                continue
            K = [ctx.uni[i] for i in T]
            ctx.eq(K in F, holds(n, E, T, **cond), 'scale:membership:' + name, 'membership of %r in %s() with %s' % (sorted(T)[:60], name, str(cond)[:300]))
    ctx.count('members sampled')


def identities(ctx, rng, F, G, m, cf, cg):
    U = ctx.uni
    e = rng.choice(U)
    ctx.eq(F.including(e).len() + F.excluding(e).len(), cf, 'scale:identity:split', 'graphs with and without %r' % (e,))
    a = (F | G).len()
    b = (F & G).len()
    ctx.eq(a + b, cf + cg, 'scale:identity:union', 'sizes of union and intersection')
    ctx.eq((F - G).len(), cf - b, 'scale:identity:difference', 'size of the difference')
    ctx.eq((F ^ G).len(), a - b, 'scale:identity:symmetric', 'size of the symmetric difference')
    ctx.eq((~F).len(), 2 ** m - cf, 'scale:identity:complement', 'size of the complement')
    ctx.check(~~F == F and (F & G) | (F - G) == F, 'scale:identity:equal', 'double complement or partition differs')
    if m <= 100:                # else the diagrams grow
        k = rng.randint(0, m)
        ctx.eq(F.smaller(k).len() + F.graph_size(k).len() + F.larger(k).len(), cf, 'scale:identity:sizes', 'graphs below, of and above %d edges' % k)
    ctx.check((F & G) <= F and F <= (F | G), 'scale:identity:subset', 'subset relations')
    if cf and m <= 100:
        hi = next(F.max_iter())
        lo = next(F.min_iter())
        ctx.check(F.larger(len(hi)).len() == 0 and F.smaller(len(lo)).len() == 0, 'scale:identity:extremes', 'graphs larger than the largest or smaller than the smallest')
    ctx.count('identities')


def det(M):
    """exact determinant (Bareiss)"""
    M = [r[:] for r in M]
    n, prev, sign = len(M), 1, 1
    for i in range(n - 1):
        if M[i][i] == 0:
            for j in range(i + 1, n):
                if M[j][i]:
                    M[i], M[j] = M[j], M[i]
                    sign = -sign
                    break
            else:
                return 0
        for j in range(i + 1, n):
            for x in range(i + 1, n):
                M[j][x] = (M[j][x] * M[i][i] - M[j][i] * M[i][x]) // prev
        prev = M[i][i]
    return sign * M[-1][-1] if n else 1


GRID_PATHS = {2: 2, 3: 12, 4: 184, 5: 8512, 6: 1262816, 7: 575780564, 8: 789360053252}
GRID_CYCLES = {2: 1, 3: 13, 4: 213, 5: 9349, 6: 1222363, 7: 487150371}
DOMINO = {2: 2, 4: 36, 6: 6728, 8: 12988816}


def known(ctx, rng):
    """numbers from the literature and determinants, on dense or square graphs
    listed in any order"""
    t = rng.choice(['complete', 'grid', 'bipartite', 'random', 'directed'])
    ctx.count('known:' + t)
    if t == 'complete':
        n = rng.randint(4, 9)
        E = [(i, j) for i in range(n) for j in range(i + 1, n)]
    elif t == 'grid':
        w = rng.randint(2, 7)
        n = w * w
        E = [(y * w + x, y * w + x + 1) for y in range(w) for x in range(w - 1)] + [(y * w + x, y * w + x + w) for y in range(w - 1) for x in range(w)]
    elif t == 'bipartite':
        a, b = rng.randint(2, 5), rng.randint(2, 5)
        n = a + b
        E = [(i, a + j) for i in range(a) for j in range(b)]
    else:
        n = rng.choice([6, 9, 14])
        E = [(i, rng.randrange(i)) for i in range(1, n)]
        E += [e for e in [(i, j) for i in range(n) for j in range(max(0, i - 4), i)] if e not in E and rng.random() < .4]
    if t == 'directed':
        return known_directed(ctx, rng, n, E)
    L = labels(rng, n)
    U = [(L[u], L[v]) if rng.random() < .5 else (L[v], L[u]) for u, v in E]
    rng.shuffle(U)
    # a diagram from a bad order would be too large
    GraphSet.set_universe(U, **({} if len(E) < 30 or t != 'grid' else dict(traversal='bfs', source=L[0])))
    lap = [[0] * n for _ in range(n)]
    for u, v in E:
        lap[u][u] += 1; lap[v][v] += 1; lap[u][v] -= 1; lap[v][u] -= 1
    key = 'scale:known:' + t
    ctx.log('known', t, n, len(E))
    ctx.eq(GraphSet.trees(is_spanning=True).len(), det([r[1:] for r in lap[1:]]), key, 'spanning trees of a %s graph on %d vertices' % (t, n))
    if t == 'complete':
        f = 1
        for i in range(2, n):
            f *= i
        ctx.eq(GraphSet.cycles(is_hamilton=True).len(), f // 2, key, 'Hamiltonian cycles of K%d' % n)
        a, b = rng.sample(L, 2)
        ctx.eq(GraphSet.paths(a, b, is_hamilton=True).len(), f // (n - 1), key, 'Hamiltonian paths between two vertices of K%d' % n)
        tel = [1, 1]
        for i in range(2, n + 1):
            tel.append(tel[-1] + (i - 1) * tel[-2])
        ctx.eq(GraphSet.matchings().len(), tel[n], key, 'matchings of K%d' % n)
        bell = [[1]]
        for i in range(n - 1):
            r = [bell[-1][-1]]
            for x in bell[-1]:
                r.append(r[-1] + x)
            bell.append(r)
        ctx.eq(GraphSet.partitions().len(), bell[-1][-1], key, 'partitions of K%d' % n)
        ctx.eq(GraphSet.cliques(3).len(), n * (n - 1) * (n - 2) // 6, key, 'triangles of K%d' % n)
    elif t == 'grid':
        ctx.eq(GraphSet.paths(L[0], L[-1]).len(), GRID_PATHS[w], key, 'corner paths of the grid of %d by %d vertices' % (w, w))
        if w in GRID_CYCLES:
            ctx.eq(GraphSet.cycles().len(), GRID_CYCLES[w], key, 'cycles of the grid of %d by %d vertices' % (w, w))
        ctx.eq(GraphSet.perfect_matchings().len(), DOMINO.get(w, 0), key, 'perfect matchings of the grid of %d by %d vertices' % (w, w))
    elif t == 'bipartite':
        from math import comb, factorial
        ctx.eq(GraphSet.matchings().len(), sum(comb(a, i) * comb(b, i) * factorial(i) for i in range(min(a, b) + 1)), key, 'matchings of K%d,%d' % (a, b))
        ctx.eq(GraphSet.bipartite_graphs(is_connected=False).len(), 2 ** (a * b), key, 'bipartite subgraphs of K%d,%d' % (a, b))
        ctx.eq(GraphSet.bicliques(2, 2).len(), comb(a, 2) * comb(b, 2), key, '2,2-bicliques of K%d,%d' % (a, b))
    ctx.seen('known', t, n, len(E))


def known_directed(ctx, rng, n, E):
    arcs = []
    for u, v in E:
        arcs += rng.choice([[(u, v)], [(v, u)], [(u, v), (v, u)]])
    V = sorted(set(x for a in arcs for x in a))
    ix = dict((v, i) for i, v in enumerate(V))
    n = len(V)
    L = labels(rng, n)
    U = [(L[ix[u]], L[ix[v]]) for u, v in arcs]
    rng.shuffle(U)
    DiGraphSet.set_universe(U)
    r = rng.randrange(n)
    lap = [[0] * n for _ in range(n)]
    for u, v in arcs:
        lap[ix[v]][ix[v]] += 1
        lap[ix[u]][ix[v]] -= 1
    want = det([[x for j, x in enumerate(row) if j != r] for i, row in enumerate(lap) if i != r])
    ctx.eq(DiGraphSet.rooted_trees(L[r], is_spanning=True).len(), want, 'scale:known:directed', 'spanning arborescences of %r from %r' % (U, L[r]))
    ctx.seen('known directed', n, len(U), want)


def sparse(rng, n):
    """a few sets of n elements, small, large and of sizes around a byte"""
    out = set()
    U = range(n)
    base = [sum(1 << i for i in rng.sample(U, rng.randint(0, n))) for _ in range(2)]
    for _ in range(rng.choice([1, 3, 6, 12])):
        t = rng.randrange(6)
        if t == 0: k = rng.choice([0, 1, 2, n - 2, n - 1, n])
        elif t == 1: k = min(n, rng.randint(253, 259))
        elif t == 2: k = min(n, rng.choice([127, 128, 129, 511, 512, 513]))
        else: k = rng.randint(0, n)
        if t < 4:
            m = sum(1 << i for i in rng.sample(U, k))
        else:
            m = rng.choice(base)
            for _ in range(rng.choice([0, 1, 3])):
                m ^= 1 << rng.randrange(n)
        out.add(m)
    return out


def wide(ctx, rng):
    """families of a few known sets of hundreds of elements"""
    n = rng.choice([200, 254, 255, 256, 257, 258, 300, 400] * 3 + [513, 513, 700, 1025])
    if rng.random() < .5:
        K = SetSetKind().setup(rng, n)
    else:
        v = rng.randint(30, n)
        E = [(i, rng.randrange(max(0, i - 3), i)) for i in range(1, v)]
        more = set(E)
        while len(more) < n:
            i = rng.randrange(1, v)
            more.add((i, rng.randrange(max(0, i - 60), i)))
        L = labels(rng, v, rng.choice(['seq', 'int', 'str']))
        E = [(L[a], L[b]) if rng.random() < .5 else (L[b], L[a]) for a, b in sorted(more)][:n]
        K = GraphKind().adopt(rng, E, rng.choice(['as-is', 'as-is', 'bfs']))
    n = K.n
    full = (1 << n) - 1
    F, G = sparse(rng, n), sparse(rng, n)
    if rng.random() < .5:
        for m in rng.sample(sorted(F), min(2, len(F))):
            r = sum(1 << i for i in rng.sample(range(n), n // 2))
            G |= {m & r, m | r, m & ~r, m}
    f, g = K.mk(F, rng), K.mk(G, rng)
    ctx.log('wide', K.name, n, len(F), len(G))
    ctx.count('wide universe of %d' % n)

    def expect(obj, want, what):
        if len(want) > 600:      # a sample
            some = rng.sample(sorted(want), 6)
            for m in some + [m ^ 1 << rng.randrange(n) for m in some]:
                ctx.eq(set(K.raw(m)) in obj, m in want, 'scale:wide:' + what.split(' ')[0], 'membership of a set of %d elements after %s' % (M.size(m), what))
            ctx.eq(obj.len(), len(want), 'scale:wide:' + what.split(' ')[0], 'len() after ' + what)
            return
        got = K.masks(obj, limit=len(want) + 50)
        if got != want:
            ctx.check(False, 'scale:wide:' + what.split(' ')[0], '%s on %s over %d elements: F has sizes %r, G %r: %d sets are missing, %d are extra', what, K.name, n,
                      sorted(map(M.size, F)), sorted(map(M.size, G)), len(want - got), len(got - want))
        ctx.checks += 1
        ctx.eq(obj.len(), len(want), 'scale:wide:len', 'len() after ' + what)
        ctx.seen('wide', K.name, n, what.split(' ')[0], hash(frozenset(want)))

    expect(f, F, 'made')
    expect(f | g, F | G, 'union')
    expect(f & g, F & G, 'intersection')
    expect(f - g, F - G, 'difference')
    expect(f ^ g, F ^ G, 'symmetric_difference')
    expect(f.join(g), M.join(F, G), 'join')
    expect(f.meet(g), M.meet(F, G), 'meet')
    expect(K.subsets_of(f, g), M.subs(F, G), 'subsets')
    expect(K.supersets_of(f, g), M.sups(F, G), 'supersets')
    expect(K.non_subsets_of(f, g), M.nsubs(F, G), 'non_subsets')
    expect(K.non_supersets_of(f, g), M.nsups(F, G), 'non_supersets')
    expect(f.minimal(), M.minimal(F), 'minimal')
    expect(f.maximal(), M.maximal(F), 'maximal')
    expect(K.quotient(f, g), M.quotient(F, G), 'quotient')
    expect(K.remainder(f, g), M.remainder(F, G), 'remainder')
    expect(K.comp(f), {full ^ m for m in F}, 'complement')
    sizes = sorted(set(map(M.size, F)))
    for k in set([rng.choice(sizes), rng.choice(sizes) + 1, max(0, rng.choice(sizes) - 1), rng.choice([0, 1, 127, 128, 255, 256, 257, 512, n - 1, n, n + 1, 65536])]):
        expect(f.smaller(k), {m for m in F if M.size(m) < k}, 'smaller %d' % k)
        expect(f.larger(k), {m for m in F if M.size(m) > k}, 'larger %d' % k)
        expect(K.exact(f, k), {m for m in F if M.size(m) == k}, 'size %d' % k)
    for i in rng.sample(range(n), 3) + [n - 1]:
        b = 1 << i
        expect(K.including(f, K.elem(i, rng)), {m for m in F if m & b}, 'including')
        expect(K.excluding(f, K.elem(i, rng)), {m for m in F if not m & b}, 'excluding')
        h = f.copy()
        K.flip(h, i, rng)
        expect(h, {m ^ b for m in F}, 'flip')
    names = NAMES[K.name]
    expect(getattr(f, names[0])(), {m ^ 1 << i for m in F for i in bits(m)}, names[0])
    expect(getattr(f, names[1])(), {m ^ 1 << i for m in F for i in bits(full ^ m)}, names[1])
    few = {m for m in F if M.size(m) * (n - M.size(m)) < 2000}
    if few:
        expect(getattr(K.mk(few, rng), names[2])(), {m ^ 1 << i ^ 1 << j for m in few for i in bits(m) for j in bits(full ^ m)}, names[2])
    for m in list(F)[:3] + list(G)[:3]:
        ctx.eq(K.member(m, rng if K.name == 'GraphSet' else None) in f if K.name == 'GraphSet' else set(K.raw(m)) in f, m in F, 'scale:wide:membership', 'membership of a set of %d elements' % M.size(m))
    got = [K.tomask(m) for m in f.rand_iter()]
    ctx.check(len(got) == len(F) and set(got) == F, 'scale:wide:random', 'random iteration yields %d sets of %d', len(got), len(F))
    ctx.check(f.__class__.loads(f.dumps()) == f, 'scale:wide:dumps', 'loading what was written gives another family')
    # weights, costs and probabilities
    ws = [rng.randint(-1000, 1000) for _ in range(n)]
    W = dict(zip(K.elems, ws))
    tot = dict((m, sum(ws[i] for i in bits(m))) for m in F)
    for it, rev in ((f.min_iter, False), (f.max_iter, True)):
        order = [K.tomask(m) for m in it(W)]
        ctx.check(set(order) == F and len(order) == len(F), 'scale:wide:weighted', 'weighted iteration yields other sets')
        ctx.eq([tot[m] for m in order], sorted(tot.values(), reverse=rev), 'scale:wide:weighted', 'weights in order')
    b = rng.choice(sorted(tot.values())) + rng.choice([-1, 0, 1])
    expect(f.cost_le(W, b), {m for m in F if tot[m] <= b}, 'cost_le')
    ps = [rng.choice([0, 1, .5, .25, .75]) if rng.random() < .1 else rng.choice([.875, .96875, .9990234375, 1]) for _ in range(n)]
    want = sum((Fraction(1) * prod(Fraction(ps[i] if m >> i & 1 else 1 - ps[i]) for i in range(n)) for m in F), Fraction(0))
    got = f.probability(dict(zip(K.elems, ps)))
    ctx.check(abs(Fraction(got) - want) <= want / 10 ** 9 + Fraction(1, 10 ** 300), 'scale:wide:probability', 'probability %r of %r', got, float(want))
    # what is beyond listing
    c = ~f
    ctx.eq(c.len(), 2 ** n - len(F), 'scale:wide:inverse', 'size of the complement')
    if n <= 520:
        k = rng.choice([rng.choice(sizes), rng.randint(0, n)])
        ctx.eq(K.exact(c, k).len(), comb(n, k) - sum(M.size(m) == k for m in F), 'scale:wide:binomial', 'sets of %d of %d elements not in the family' % (k, n))
    H = sorted(F)[:4]
    want = 0
    for S in range(1 << len(H)):
        u = 0
        for j in bits(S):
            u |= H[j]
        want += (-1) ** M.size(S) * 2 ** (n - M.size(u))
    ctx.eq(K.hitting(K.mk(H, rng)).len(), want, 'scale:wide:hitting', 'hitting sets of sets of %r elements' % [M.size(m) for m in H])
    ctx.eq((c.len(), f.len()), (2 ** n - len(F), len(F)), 'scale:wide:kept', 'sizes after all')


def prod(xs):
    r = Fraction(1)
    for x in xs:
        r *= x
    return r


def case(ctx, rng, k):
    if rng.random() < .1:
        return wide(ctx, rng)
    if rng.random() < .15:
        return known(ctx, rng)
    small = rng.random() < .15
    name, n, E = thin(rng, not small)
    m = len(E)
    E = sorted(E, key=lambda e: (max(e), min(e)))
    rev = rng.random() < .3
    L = labels(rng, n, rng.choice(['seq', 'int', 'neg', 'str', None]))
    if rev:
        E = E[::-1]
    uni = [(L[u], L[v]) if rng.random() < .5 else (L[v], L[u]) for u, v in E]
    how = 'as-is'
    if rng.random() < .3 and name in ('ladder', 'grid3', 'cycle', 'path2', 'cyclegrid', 'cater'):
        how = rng.choice(['bfs', 'dfs'] if name == 'cycle' else ['bfs'])
        listing = list(uni)
        rng.shuffle(listing)
        GraphSet.set_universe(listing, traversal=how, source=L[rng.choice([0, n - 1])])
    else:
        GraphSet.set_universe(uni, traversal='as-is')
    ctx.uni = uni
    index = dict((e, i) for i, e in enumerate(uni))
    prev = None
    ctx.count('universe of %d to %d edges' % (m // 50 * 50, m // 50 * 50 + 49))
    for rep in range(4):
        q, call, cond, leave = question(rng, n, E, L)
        ctx.log(name, n, m, how, q, str(cond)[:300])
        try:
            want = count(n, E, limit=2500 if m < 60 else 1000, **cond) - leave
        except TooWide:
            ctx.count('too wide to count')
            continue
        F = call(None)
        got = F.len()
        ctx.eq(got, want, 'scale:count:' + q, '%s() with %s on %s of %d edges (%s)' % (q, str(cond)[:300], name, m, how))
        if small:
            ctx.eq(sum(1 for x in range(1 << m) if holds(n, E, set(i for i in range(m) if x >> i & 1), **cond)) - leave, want, 'oracle', 'counts of the two oracles')
        if leave == 0 or got:
            members(ctx, rng, n, E, index, F, cond, q, leave)
        if prev is not None:
            G, cg, c2 = prev
            identities(ctx, rng, F, G, m, got, cg)
            if q not in ('partitions', 'induced') and leave == 0:
                c = conj(cond, c2)
                if c is not None:
                    try:
                        both = count(n, E, limit=1500, **c)
                    except TooWide:
                        both = None
                    H = call(G)
                    ctx.check(H == (F & G), 'scale:base:' + q, '%s() of a base family differs from its intersection', q)
                    if both is not None:
                        ctx.eq(H.len(), both, 'scale:base:' + q, '%s() of a base family with %s on %s of %d edges' % (q, str(c)[:300], name, m))
                        ctx.count('answers within a base family')
        if leave == 0:
            prev = F, got, cond
        ctx.count(q)
        if want > 2 ** 64:
            ctx.count('answers beyond 2^64')
        if 0 < want < 2 ** m:
            ctx.seen(name, m, q, want)
    if k < 4:
        ctx.sample({'universe': '%s of %d edges' % (name, m), 'search': q, 'conditions': str(cond)[:200]})


def session(ctx):
    prelude(ctx)
    ctx.run(case)
