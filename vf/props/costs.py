"""C11: cost-bounded subfamilies."""
from ..fam import *
from .counts import Cubes, popc

I32 = 1 << 31


def cost(rng, style):
    if style == 'small':
        return rng.randint(-3, 4)
    if style == 'pos':
        return rng.randint(0, 9)
    if style == 'zero':
        return 0
    if style == 'tied':
        return rng.choice([7, 7, 7, 14])
    if style == 'one':
        return 1
    if style == 'extreme':
        return rng.choice([I32 - 1, I32 - 1, -I32 + 1, -I32, I32 - 2, 0, 1])
    if style == 'big':
        return rng.randint(-I32 + 1, I32 - 1)
    if style == 'pow':
        return rng.choice([1, -1]) * 2 ** rng.randint(0, 30)
    return rng.randint(-100, 100)


STYLES = ['small', 'small', 'pos', 'zero', 'tied', 'one', 'extreme', 'big', 'pow', 'mid']


def bound(rng, sums, c):
    r = rng.random()
    if sums and r < .45:
        return rng.choice(sums)
    if sums and r < .7:
        return rng.choice(sums) + rng.choice([-1, 1])
    lo, hi = sum(x for x in c if x < 0), sum(x for x in c if x > 0)
    if r < .85:
        return rng.randint(lo - 1, hi + 1)
    return rng.choice([0, -1, 1, I32 - 1, -I32, I32, lo, hi, lo - 1, hi + 1, 10 ** 12, -10 ** 12,
                       (1 << 63) - 1, -(1 << 63) + 1])


def small(ctx, rng, k):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    K = KINDS[name]().setup(rng, rng.randint(1, 9) if name != 'EdgeVertexSetSet' else rng.randint(3, 9))
    n = K.n
    ev = name == 'EdgeVertexSetSet'
    fams = []
    for _ in range(rng.randint(1, 3)):
        M = random_masks(rng, n)
        M = {K.closure(m) for m in M} if ev else M
        fams.append((K.mk(M, rng), M))
    vectors = [[cost(rng, s) for _ in range(n)] for s in [rng.choice(STYLES) for _ in range(2)]]
    tables = [{m: sum(c[i] for i in bits(m)) for m in set().union(*(M for _, M in fams))} for c in vectors]
    ctx.log(name, K.elems[:40], getattr(K, 'how', None), vectors)
    for _ in range(12):
        o, M = rng.choice(fams)
        j = rng.randrange(2)
        c, T = vectors[j], tables[j]
        order = list(range(n))
        rng.shuffle(order)
        d = {K.elems[i]: c[i] for i in order}
        b = bound(rng, [T[m] for m in M], c)
        how = 'le' if name == 'setset' else rng.choice(['le', 'ge', 'eq'])
        ctx.log('cost_' + how, d, b, sorted(M)[:40])
        keep = dict(d)
        r = getattr(o, 'cost_' + how)(d, b)
        want = {m for m in M if (T[m] <= b if how == 'le' else T[m] >= b if how == 'ge' else T[m] == b)}
        ctx.check(isinstance(r, K.cls), 'cost:type', 'cost_%s of a %s is a %s', how, name, type(r).__name__)
        ctx.eq(K.masks(r), want, 'cost:' + how, 'cost_%s(%r, %d) of %s' % (how, d, b, name))
        ctx.check(d == keep, 'cost:argument', 'cost_%s changed its argument %r to %r', how, keep, d)
        ctx.eq(len(r), len(want), 'cost:len', 'len')
        ctx.count('%s results' % how)
        if want and want != M:
            ctx.seen(name, how, b, c, sorted(M))
        if rng.random() < .25:
            fams.append((r, want))           # results restrict further
        if rng.random() < .2:
            i = rng.randrange(n)
            c[i] = cost(rng, 'mid')          # the same vector, changed in place
            for m in T:
                T[m] = sum(c[i] for i in bits(m))
    for o, M in fams:
        ctx.eq(K.masks(o), M, 'cost:operand', 'a family restricted by cost afterwards')


def poly(c, inc=0, exc=0):
    """sum -> number of supersets of inc avoiding exc with that cost"""
    P = {0: 1}
    for i, x in enumerate(c):
        if exc >> i & 1:
            continue
        if inc >> i & 1:
            P = {s + x: k for s, k in P.items()}
            continue
        Q = dict(P)
        for s, k in P.items():
            Q[s + x] = Q.get(s + x, 0) + k
        P = Q
    return P


def big(ctx, rng, k):
    """families of up to 2^600 members: counts against the sum's distribution"""
    name = rng.choice(['setset', 'GraphSet', 'DiGraphSet', 'VertexSetSet'])
    n = rng.choice([20, 60, 150, 600])
    if name == 'GraphSet':
        K = GraphKind().adopt(rng, relabel(rng, n + 1, [(i, i + 1) for i in range(n)], shuffle=False)[1])
    elif name == 'DiGraphSet':
        K = DiKind().adopt(rng, [('a%d' % i, 'b%d' % i) for i in range(n)])
    elif name == 'VertexSetSet':
        K = VertexKind()
        K.elems = list(range(n))
        GraphSet.set_universe([(1, 2)])
        VertexSetSet.set_universe(K.elems)
        K.n, K.index = n, {i: i for i in range(n)}
    else:
        K = SetSetKind().setup(rng, n)
    unit = rng.choice([1, 1, 3, 1 << 20, I32 // 4 - 1])
    c = [unit * rng.randint(-3, 3) for _ in range(n)]
    inc = exc = 0
    for _ in range(rng.randint(0, 6)):
        inc |= 1 << rng.randrange(n)
        exc |= 1 << rng.randrange(n)
    exc &= ~inc
    o = K.mkdict(inc, exc)
    P = poly(c, inc, exc)
    tot = sum(P.values())
    S = sorted(P)
    d = {K.elems[i]: c[i] for i in range(n)}
    for _ in range(6):
        b = rng.choice([rng.choice(S), rng.choice(S), rng.randint(S[0] - 1, S[-1] + 1), S[0], S[-1], S[0] - 1, S[-1] + 1,
                        S[len(S) // 2]])
        how = 'le' if name == 'setset' else rng.choice(['le', 'ge', 'eq'])
        ctx.log('big', name, n, unit, how, b)
        r = getattr(o, 'cost_' + how)(d, b)
        want = sum(k for s, k in P.items() if (s <= b if how == 'le' else s >= b if how == 'ge' else s == b))
        ctx.eq(r.len(), want, 'cost:big', 'number of members of %s with cost_%s %d over %d elements of cost +-%d..' % (
            name, how, b, n, unit))
        ctx.eq(o.len(), tot, 'cost:big-operand', 'size of the family restricted by cost')
        if want:
            for m in range(3):
                x = K.tomask(next(r.rand_iter()))
                s = sum(c[i] for i in bits(x))
                ctx.check((s <= b if how == 'le' else s >= b if how == 'ge' else s == b) and x & inc == inc and not x & exc,
                          'cost:big-member', 'a member of cost_%s %d costs %d', how, b, s)
        ctx.count('big results')
        ctx.seen('big', name, n, how, b, c)


def searched(ctx, rng, k):
    """families that come out of a search, against enumeration of the rest"""
    nv, E = thin_grid(rng, ((3, 3), (3, 4), (2, 7)))
    K = GraphKind().adopt(rng, relabel(rng, nv, E, shuffle=False)[1], 'as-is')
    vs = [K.edges[0][0], K.edges[-1][1]]
    o = rng.choice([lambda: GraphSet.paths(*vs), lambda: GraphSet.cycles(), lambda: GraphSet.matchings(),
                    lambda: GraphSet.trees(vs[0])])()
    if o.len() > 4000:
        o = o.graph_size(rng.randint(1, 4))
    M = K.masks(o)
    c = [cost(rng, rng.choice(STYLES)) for _ in range(K.n)]
    d = {K.elems[i]: c[i] for i in range(K.n)}
    T = {m: sum(c[i] for i in bits(m)) for m in M}
    if not M:
        return
    b = bound(rng, list(T.values()), c)
    ctx.log('searched', K.edges, d, b)
    ctx.eq(K.masks(o.cost_le(d, b)), {m for m in M if T[m] <= b}, 'cost:le', 'cost_le of a search result')
    ctx.eq(K.masks(o.cost_ge(d, b)), {m for m in M if T[m] >= b}, 'cost:ge', 'cost_ge of a search result')
    ctx.eq(K.masks(o.cost_eq(d, b)), {m for m in M if T[m] == b}, 'cost:eq', 'cost_eq of a search result')
    ctx.count('search results restricted')
    ctx.seen('searched', d, b, len(M))


def case(ctx, rng, k):
    r = rng.random()
    if r < .88:
        small(ctx, rng, k)
    elif r < .96:
        big(ctx, rng, k)
    else:
        searched(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
