"""C04: uniformity of random picks.

Every statistic is tested twice: a p-value below 1e-5 only asks for ten times
as many fresh samples, and a violation needs p < 1e-7 on those as well, so a
uniform generator is reported with probability < 1e-12 per test.
"""
from math import comb, exp, lgamma, log, sqrt, erfc, factorial
from ..fam import *
from .counts import Cubes


def chi2_sf(x, df):
    """P(chi^2_df >= x), by the incomplete gamma function"""
    a, x = df / 2., x / 2.
    if x <= 0:
        return 1.
    if x < a + 1:
        s = t = 1. / a
        n = a
        while abs(t) > abs(s) * 1e-15:
            n += 1
            t *= x / n
            s += t
        return max(0., 1 - s * exp(-x + a * log(x) - lgamma(a)))
    b = x + 1 - a
    c = 1e300
    d = 1. / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1. / d
        h *= d * c
        if abs(d * c - 1) < 1e-14:
            break
    return h * exp(-x + a * log(x) - lgamma(a))


def uniform_p(hist, cells, n):
    e = n / float(cells)
    x = sum((c - e) ** 2 for c in hist.values()) / e + (cells - len(hist)) * e
    return chi2_sf(x, cells - 1)


def judge(ctx, key, what, draw, cells, n):
    """draw() returns one of `cells` outcomes, which must be equally likely"""
    if cells < 2:
        return
    for scale, limit in ((1, 1e-5), (10, 1e-7)):
        h = {}
        for _ in range(n * scale):
            x = draw()
            h[x] = h.get(x, 0) + 1
        ctx.count('draws', n * scale)
        ctx.checks += 1
        p = uniform_p(h, cells, n * scale)
        if p >= limit:
            ctx.count('tests of uniformity')
            return
        ctx.count('second tests')
    top = sorted(h.items(), key=lambda i: -i[1])
    ctx.check(False, key, '%s is not uniform: p = %.3g over %d samples in %d cells, %d of them never seen; '
              'most frequent %r', what, p, n * scale, cells, cells - len(h), top[:3])


def make(ctx, rng):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    ev = name == 'EdgeVertexSetSet'
    K = KINDS[name]().setup(rng, rng.randint(2, 7) if not ev else rng.randint(3, 8))
    return K, ev


def family(rng, K, ev):
    n = K.n
    s = rng.choice([None, 'skewed', 'skewed', 'tail'])
    if s == 'skewed':
        # one element in one member only, many members without it
        M = {m & ~1 for m in random_masks(rng, n, shape_='dense')}
        M = set(rng.sample(sorted(M), min(len(M), 14))) | {(1 << n) - 1}
        if rng.random() < .5:
            M.add(0)
    elif s == 'tail':
        M = {(1 << i) - 1 for i in range(n + 1)} if rng.random() < .5 else {1 << i for i in range(n)} | {0}
    else:
        M = random_masks(rng, n)
    M = {K.closure(m) for m in M} if ev else set(M)
    o = K.mk(M, rng)
    if not ev and rng.random() < .25:
        o, M = ~o, set(range(1 << n)) - M
    return o, M


def small(ctx, rng, k):
    K, ev = make(ctx, rng)
    fams = [family(rng, K, ev) for _ in range(2)]
    o, M = fams[0]
    if not M:
        ctx.check(not list(o.rand_iter()), 'empty', 'random iteration of the empty family yields something')
        return
    ctx.log(K.name, K.elems, sorted(M)[:60])
    ctx.seen(K.name, K.n, hash(frozenset(M)))
    ctx.count('families')
    c = len(M)
    noise = fams[1][0] if rng.random() < .5 else None

    def first():
        if noise is not None and rng.random() < .3:
            next(noise.rand_iter(), None)
        m = K.tomask(next(o.rand_iter()))
        if m not in M:
            raise Violation('pick:member', 'a random pick is not a member: %r' % K.raw(m))
        return m
    what = 'the first random pick from %d members of %s' % (c, K.name)
    judge(ctx, 'pick:first', what, first, c, max(300, min(25 * c, 6000)))
    if c < 2:
        return
    other = fams[1][0].rand_iter() if rng.random() < .5 else None

    def order(n):
        def f():
            nonlocal other
            it = o.rand_iter()
            out = []
            for _ in range(n):
                out.append(K.tomask(next(it)))
                if other is not None and rng.random() < .3 and next(other, None) is None:
                    other = fams[1][0].rand_iter()
            if len(set(out)) != n or not set(out) <= M:
                raise Violation('pick:member', 'random iteration yields %r' % out)
            return tuple(out)
        return f
    if c <= 5:
        judge(ctx, 'pick:order', 'the order of random iteration over %d members of %s' % (c, K.name),
              order(c), factorial(c), max(300, 25 * factorial(c)))
    elif c <= 14:
        judge(ctx, 'pick:second', 'the first two random picks from %d members of %s' % (c, K.name),
              order(2), c * (c - 1), 25 * c * (c - 1))
    if 5 < c <= 12:
        f = order(c)
        j = rng.randrange(1, c)
        judge(ctx, 'pick:later', 'random pick no. %d from %d members of %s' % (j, c, K.name),
              lambda: f()[j], c, 25 * c)


def zlimit(ctx, key, what, hits, n, p):
    """|z| beyond 7.5 has probability < 1e-13"""
    ctx.checks += 1
    sd = sqrt(max(n * p * (1 - p), 1e-300))
    slack = 7.5 * sd + 12            # + 12: the Poisson tail at small p
    if abs(hits - n * p) > slack:
        raise Violation(key, '%s: %d of %d picks, expected %.1f +- %.1f' % (what, hits, n, n * p, sd))


def big(ctx, rng, k):
    what = rng.choice(['cubes', 'cubes', 'size', 'huge', 'tree'])
    N = 1200
    if what == 'cubes' or what == 'huge':
        n = rng.choice([20, 40, 70, 130]) if what == 'cubes' else rng.choice([400, 1100])
        if what == 'huge':
            N = 100 if n == 400 else 25
        K = SetSetKind().setup(rng, n)
        o = c = None
        for _ in range(rng.randint(1, 3)):
            inc = exc = 0
            for _ in range(rng.choice([0, 1, 2, 3])):
                inc |= 1 << rng.randrange(n)
            for _ in range(rng.choice([0, 1, 2, 3])):
                exc |= 1 << rng.randrange(n)
            exc &= ~inc
            o2, c2 = K.mkdict(inc, exc), Cubes.cube(n, inc, exc)
            o, c = (o2, c2) if o is None else (o | o2, c | c2)
        total = c.count()

        def cnt(e, f):      # members with elements e and f
            m = (1 << e) | (1 << f)
            return (c & Cubes.cube(n, m, 0)).count()
    elif what == 'size':
        n, r = rng.choice([(30, 7), (60, 30), (100, 3), (50, 49), (90, 12)])
        K = SetSetKind().setup(rng, n)
        o = K.mkdict(0, 0).set_size(r)
        total = comb(n, r)

        def cnt(e, f):
            return comb(n - 1, r - 1) if e == f else comb(n - 2, r - 2)
    else:
        nv, E = thin_grid(rng, ((3, 5), (4, 6), (3, 8)))
        K = GraphKind().adopt(rng, relabel(rng, nv, E, shuffle=False)[1], 'as-is')
        n = K.n
        o = GraphSet.trees(is_spanning=True)
        lap = lambda con: tree_count(K, con)
        total = lap([])

        def cnt(e, f):
            return lap(sorted({e, f}))
    ctx.log('big', what, n, total)
    ctx.count('big families')
    pairs = [(rng.randrange(n), rng.randrange(n)) for _ in range(6)] + [(e, e) for e in rng.sample(range(n), 6)]
    want = [cnt(e, f) / total for e, f in pairs]
    hits = [0] * len(pairs)
    it = o.rand_iter()
    single = rng.random() < .5 or total < 20 * N
    for _ in range(N):
        if single:
            it = o.rand_iter()
        S = K.tomask(next(it))
        for j, (e, f) in enumerate(pairs):
            hits[j] += (S >> e & 1) & (S >> f & 1)
    ctx.count('draws', N)
    for j, (e, f) in enumerate(pairs):
        zlimit(ctx, 'pick:frequency', 'members with elements no. %d and %d picked from a family of %d (%s)' % (
            e, f, total, what), hits[j], N, want[j])
    ctx.seen(what, n, total)


def tree_count(K, con):
    """spanning trees with the given edges, by the determinant of the Laplacian after contracting them"""
    uf = {v: v for v in K.vertices}

    def find(v):
        while uf[v] != v:
            v = uf[v]
        return v
    for i in con:
        a, b = map(find, K.edges[i])
        if a == b:
            return 0
        uf[a] = b
    vs = sorted({find(v) for v in K.vertices})
    ix = {v: i for i, v in enumerate(vs)}
    L = [[0] * len(vs) for _ in vs]
    for u, v in K.edges:
        a, b = ix[find(u)], ix[find(v)]
        if a != b:
            L[a][a] += 1
            L[b][b] += 1
            L[a][b] -= 1
            L[b][a] -= 1
    return bareiss([r[1:] for r in L[1:]])


def bareiss(A):
    """exact determinant of an integer matrix"""
    A = [list(r) for r in A]
    n = len(A)
    if n == 0:
        return 1
    sign, prev = 1, 1
    for k in range(n - 1):
        if A[k][k] == 0:
            for i in range(k + 1, n):
                if A[i][k]:
                    A[k], A[i] = A[i], A[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i][j] = (A[i][j] * A[k][k] - A[i][k] * A[k][j]) // prev
        prev = A[k][k]
    return sign * A[-1][-1]


def case(ctx, rng, k):
    (big if rng.random() < .2 else small)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
