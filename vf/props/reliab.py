"""C10: probability of a family and network reliability."""
from fractions import Fraction as Fr
from ..fam import *
from ..gmodel import G
from .counts import Cubes
from .picks import tree_count


def prob(rng):
    r = rng.random()
    if r < .15:
        return 0.0 if rng.random() < .5 else 0
    if r < .3:
        return 1.0 if rng.random() < .5 else 1
    if r < .4:
        return rng.choice([1e-9, 1 - 1e-9, 1e-300, 0.5])
    if r < .6:
        return rng.randint(0, 16) / 16.
    return rng.random()


def close(ctx, got, want, key, msg, *a):
    """want is exact; got may carry the rounding of a few hundred operations"""
    w = float(want)
    tol = 1e-11 + 1e-11 * abs(w)
    ctx.check(isinstance(got, float) and abs(got - w) <= tol, key, '%s: observed %r, expected %r', msg % a, got, w)
    # a probability that is exactly zero (certain) because of zeros and ones must not be lost
    if want == 0:
        ctx.check(got == 0, key, '%s: observed %r for an impossible event', msg % a, got)


def family(ctx, rng):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    ev = name == 'EdgeVertexSetSet'
    K = KINDS[name]().setup(rng, rng.randint(1, 9) if not ev else rng.randint(3, 9))
    n = K.n
    for _ in range(4):
        M = random_masks(rng, n)
        M = {K.closure(m) for m in M} if ev else M
        o = K.mk(M, rng)
        if not ev and rng.random() < .4:
            o, M = ~o, set(range(1 << n)) - M
        for _ in range(3):
            p = [prob(rng) for _ in range(n)]
            q = [Fr(x) for x in p]
            want = Fr(0)
            for m in M:
                t = Fr(1)
                for i in range(n):
                    t *= q[i] if m >> i & 1 else 1 - q[i]
                want += t
            d = {K.elems[i]: p[i] for i in range(n)}
            ctx.log('probability', name, K.elems, sorted(M)[:50], p)
            items = list(d.items())
            rng.shuffle(items)
            close(ctx, o.probability(dict(items)), want, 'probability', 'probability over %s of %d members', name, len(M))
            ctx.count('probabilities:' + name)
            ctx.seen(name, n, hash(frozenset(M)), repr(p))
        ctx.eq(K.masks(o), M, 'probability:operand', 'members after probability()')


def big_family(ctx, rng):
    what = rng.choice(['cubes', 'trees'])
    if what == 'cubes':
        K = SetSetKind().setup(rng, rng.choice([20, 64, 150, 400]))
        n = K.n
        o, c = K.mkdict(0, 0), Cubes.cube(n, 0, 0)
        for _ in range(rng.randint(1, 4)):
            inc = exc = 0
            for _ in range(rng.randint(0, 4)):
                inc |= 1 << rng.randrange(n)
            for _ in range(rng.randint(0, 4)):
                exc |= 1 << rng.randrange(n)
            exc &= ~inc
            o2, c2 = K.mkdict(inc, exc), Cubes.cube(n, inc, exc)
            if rng.random() < .4:
                o, c = o - o2, c - c2
            else:
                o, c = (o ^ o2, c ^ c2) if rng.random() < .5 else (o & o2, c & c2)
            if len(c.terms) > 80:
                break
        p = [rng.random() if rng.random() < .9 else rng.choice([0., 1.]) for _ in range(n)]
        q = [Fr(x) for x in p]
        want = Fr(0)
        for co, inc, exc in c.terms:
            t = Fr(co)
            for i in bits(inc):
                t *= q[i]
            for i in bits(exc):
                t *= 1 - q[i]
            want += t
    else:
        # all spanning trees, equal probabilities: count * p^(v-1) (1-p)^(rest)
        nv, E = thin_grid(rng, ((2, 8), (3, 5), (3, 4)))
        K = GraphKind().adopt(rng, relabel(rng, nv, E, shuffle=False)[1], 'as-is')
        n = K.n
        o = GraphSet.trees(is_spanning=True)
        x = Fr(rng.randint(1, 15), 16)
        p = [float(x)] * n
        want = tree_count(K, []) * x ** (nv - 1) * (1 - x) ** (n - nv + 1)
    got = o.probability({K.elems[i]: p[i] for i in range(n)})
    w = float(want)
    ctx.check(abs(got - w) <= 1e-8 + 1e-8 * w, 'probability:big', 'probability of a big family (%s) over %d elements: '
              'observed %r, expected %r', what, n, got, w)
    ctx.count('big probabilities')
    ctx.seen('big', what, n, w)


def network(ctx, rng):
    nv, E = shape(rng, rng.choice([4, 7, 9, 11]))
    L, edges = relabel(rng, nv, E)
    K = GraphKind().adopt(rng, edges)
    pos = {l: i for i, l in enumerate(L)}
    g = G(nv, [(pos[u], pos[v]) for u, v in edges])
    m = len(edges)
    for _ in range(5):
        terms = rng.sample(range(nv), rng.randint(1, min(nv, rng.choice([2, 2, 3, 8]))))
        p = [prob(rng) for _ in range(m)]
        q = [Fr(x) for x in p]
        d = {edges[i]: p[i] for i in range(m)}
        if rng.random() < .2:
            for i in range(m):
                if rng.random() < .3:
                    d.pop(edges[i])
                    q[i] = Fr(1)
        want = Fr(0)
        for S in range(1 << m):
            c = g.comp_of(S, terms[0])
            if all(c >> t & 1 for t in terms):
                t = Fr(1)
                for i in range(m):
                    t *= q[i] if S >> i & 1 else 1 - q[i]
                    if not t:
                        break
                want += t
        ctx.log('reliability', edges, K.how, terms, d)
        close(ctx, GraphSet.reliability(d, [L[t] for t in terms]), want, 'reliability',
              'reliability of %r (%r) for terminals %r with %r', edges, K.how, [L[t] for t in terms], d)
        ctx.count('reliabilities with %s terminals' % (len(terms) if len(terms) < 4 else 'more'))
        ctx.seen(edges, terms, repr(d))


def big_network(ctx, rng):
    """series-parallel networks and trees of any size"""
    what = rng.choice(['path', 'cycle', 'tree', 'sp', 'ladder'])
    if what == 'path':
        n = rng.choice([30, 200, 600])
        E = [(i, i + 1) for i in range(n)]
    elif what == 'cycle':
        n = rng.choice([30, 200])
        E = [(i, (i + 1) % n) for i in range(n)]
    elif what == 'tree':
        n = rng.choice([40, 150])
        E = [(max(0, i - rng.randint(1, 4)), i) for i in range(1, n)]
    elif what == 'ladder':
        n = rng.choice([10, 40])
        E = []
        for i in range(n):
            E.append((2 * i, 2 * i + 1))
            if i + 1 < n:
                E += [(2 * i, 2 * i + 2), (2 * i + 1, 2 * i + 3)]
    else:
        # random series-parallel network between 0 and 1 (series expansions only: stays simple)
        E = [(0, 1)]
        nxt = 2
        for _ in range(rng.choice([20, 60])):
            u, v = rng.choice(E)
            E += [(u, nxt), (nxt, v)]
            nxt += 1
    nv = max(max(e) for e in E) + 1
    p = {}
    for e in E:
        p[e] = rng.randint(1, 15) / 16. if rng.random() < .9 else rng.choice([0., 1.])
    L = labels(rng, nv, rng.choice(['seq', 'neg', 'tuple']))
    edges = [(L[u], L[v]) for u, v in E]
    GraphSet.set_universe(edges, traversal=rng.choice(['as-is', 'bfs', 'greedy']) if what != 'sp' else 'greedy')
    if what in ('path', 'tree'):
        terms = rng.sample(range(nv), rng.choice([2, 2, 3]))
        # edges of the minimal subtree
        need = set()
        adj = {}
        for e in E:
            adj.setdefault(e[0], []).append((e[1], e))
            adj.setdefault(e[1], []).append((e[0], e))
        par, order = {terms[0]: None}, [terms[0]]
        for v in order:
            for u, e in adj[v]:
                if u not in par:
                    par[u] = (v, e)
                    order.append(u)
        for t in terms[1:]:
            while par[t]:
                need.add(par[t][1])
                t = par[t][0]
        want = Fr(1)
        for e in need:
            want *= Fr(p[e])
    elif what == 'cycle':
        a, b = sorted(rng.sample(range(nv), 2))
        terms = [a, b]
        x = y = Fr(1)
        for i, e in enumerate(E):
            if a <= i < b:
                x *= Fr(p[e])
            else:
                y *= Fr(p[e])
        want = x + y - x * y
    else:
        terms = [0, 1]
        want = sp_reduce(E, p, 0, 1)
    got = GraphSet.reliability({edges[i]: p[E[i]] for i in range(len(E))}, [L[t] for t in terms])
    ctx.log('network', what, nv, len(E), terms)
    ctx.check(abs(got - float(want)) <= 1e-9, 'reliability:big', 'reliability of a %s with %d edges: observed %r, expected %r',
              what, len(E), got, float(want))
    ctx.count('big networks:' + what)
    ctx.seen(what, nv, float(want))


def sp_reduce(E, p, s, t):
    """two-terminal reliability by series and parallel reductions, exactly"""
    m = {}

    def add(u, v, x):
        k = (min(u, v), max(u, v))
        m[k] = x + m[k] - x * m[k] if k in m else x
    for e in E:
        add(e[0], e[1], Fr(p[e]))
    while len(m) > 1:
        adj = {}
        for k in m:
            for v in k:
                adj.setdefault(v, []).append(k)
        for v, ks in adj.items():
            if v not in (s, t) and len(ks) <= 2:
                break
        else:
            raise AssertionError('not series-parallel')
        if len(ks) == 1:
            m.pop(ks[0])
        else:
            a, b = ks
            u, w = (a[0] if a[1] == v else a[1]), (b[0] if b[1] == v else b[1])
            x = m.pop(a) * m.pop(b)
            add(u, w, x)
    return m.get((min(s, t), max(s, t)), Fr(0))


def case(ctx, rng, k):
    r = rng.random()
    (family if r < .45 else network if r < .8 else big_family if r < .9 else big_network)(ctx, rng)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
