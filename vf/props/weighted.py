"""C03: weighted iteration."""
import heapq
from fractions import Fraction
from ..fam import *


def weight(rng, style):
    if style == 'int':
        return rng.randint(-3, 6)
    if style == 'pos':
        return rng.randint(1, 4)
    if style == 'dyadic':
        return rng.randint(-400, 400) / 64.
    if style == 'zero':
        return 0
    if style == 'tied':
        return rng.choice([1, 1, 1, 2])
    if style == 'neg':
        return -rng.randint(1, 50)
    if style == 'bigneg':
        return -rng.randint(1 << 31, 1 << 40)
    if style == 'big':
        return rng.choice([-1, 1]) * rng.randint(0, 1 << 45)
    if style == 'wide':
        return rng.choice([-1, 1]) * 2. ** rng.randint(-10, 30)
    return rng.uniform(-3, 3)          # decimal


STYLES = ['int', 'int', 'pos', 'dyadic', 'zero', 'tied', 'neg', 'bigneg', 'big', 'wide', 'decimal']


class Run(object):
    """one weighted iterator and its monitor"""
    def __init__(self, ctx, K, obj, M, w, up, arg, kw, tol):
        self.ctx, self.K, self.w, self.up, self.tol = ctx, K, w, up, tol
        self.left = set(M)
        self.it = (obj.min_iter if up else obj.max_iter)(*arg, **kw)
        self.prev = None
        self.total = len(M)
        self.desc = '%s over %s with weights %r' % ('min_iter' if up else 'max_iter', K.name, w)
        self.done = False
        s = [self.sum(m) for m in M]
        self.best = (min(s) if up else max(s)) if s else None

    def sum(self, m):
        return sum(self.w[i] for i in bits(m))

    def step(self):
        ctx = self.ctx
        try:
            m = self.K.tomask(next(self.it))
        except StopIteration:
            ctx.check(not self.left, 'weighted:missing', '%s stops with %d of %d members missing', self.desc,
                      len(self.left), self.total)
            self.done = True
            return
        ctx.check(m in self.left, 'weighted:member', '%s yields %r: not a member or seen before', self.desc,
                  self.K.raw(m))
        self.left.discard(m)
        s = self.sum(m)
        if self.prev is None:
            ctx.check(abs(s - self.best) <= self.tol, 'weighted:first', '%s begins with weight %r; the optimum is %r',
                      self.desc, float(s), float(self.best))
        else:
            ok = s >= self.prev - self.tol if self.up else s <= self.prev + self.tol
            ctx.check(ok, 'weighted:order', '%s yields weight %r after %r', self.desc, float(s), float(self.prev))
        self.prev = s
        ctx.count('members yielded')


def small(ctx, rng, k):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    K = KINDS[name]().setup(rng, rng.randint(1, 8) if name != 'EdgeVertexSetSet' else rng.randint(3, 9))
    n = K.n
    ev = name == 'EdgeVertexSetSet'
    # weights that come with the universe
    uw = [1] * n
    st0 = rng.choice(STYLES)
    if name in ('GraphSet', 'EdgeVertexSetSet') and rng.random() < .5:
        ws = [weight(rng, st0) if rng.random() < .8 else None for _ in K.edges]
        set_graph_universe(rng, K.edges, ws)
        for i, x in enumerate(ws):
            if x is not None:
                uw[K.index[K.edges[i]]] = x
        ctx.count('weighted universes')
    elif name == 'DiGraphSet' and rng.random() < .5:
        ws = [weight(rng, st0) if rng.random() < .8 else None for _ in K.edges]
        DiGraphSet.set_universe([e + (x,) if x is not None else e for e, x in zip(K.edges, ws)])
        uw = [1 if x is None else x for x in ws]
        ctx.count('weighted universes')
    else:
        st0 = 'int'
    ctx.log(name, K.elems, 'universe weights', uw)
    objs = []
    for _ in range(rng.randint(1, 3)):
        M = random_masks(rng, n)
        M = {K.closure(m) for m in M} if ev else M
        o = K.mk(M, rng)
        if not ev and rng.random() < .3:
            o, M = ~o, set(range(1 << n)) - M
        objs.append((o, M))
    runs = []
    for _ in range(rng.randint(2, 5)):
        o, M = rng.choice(objs)
        kw = {}
        mode = rng.choice(['arg', 'arg', 'partial', 'none', 'empty', 'default'])
        st = st0
        if mode == 'none':
            w, arg = uw, rng.choice([(), (None,)])
        elif mode == 'empty':
            w, arg = [1] * n, ({},)
        else:
            st = rng.choice(STYLES)
            w = [weight(rng, st) for _ in range(n)]
            d = {K.elems[i]: w[i] for i in range(n)}
            if mode != 'arg':
                for i in range(n):
                    if rng.random() < .4:
                        d.pop(K.elems[i])
                        w[i] = 1
            arg = (d,)
            if mode == 'default' and name == 'setset':
                dv = weight(rng, 'int')
                w = [d.get(K.elems[i], dv) for i in range(n)]
                kw['default'] = dv
            elif rng.random() < .3 and name == 'setset':
                d['not an element'] = 99
            before = dict(d)
        tol = 0 if st != 'decimal' else 1e-9
        ctx.count('weights:' + st)
        ctx.log('iterate', sorted(M)[:40], mode, w)
        runs.append(Run(ctx, K, o, M, w, rng.random() < .5, arg, kw, tol))
        ctx.seen(name, n, hash(frozenset(M)), repr(w))
    full = len(runs)
    budget = 260
    while runs and budget:
        budget -= 1
        r = rng.choice(runs)
        r.step()
        if r.done:
            runs.remove(r)
            ctx.count('iterators run to the end')
        elif rng.random() < .004:
            runs.remove(r)
            ctx.count('iterators abandoned')
    for o, M in objs:
        ctx.eq(K.masks(o), M, 'weighted:operand', 'members after weighted iteration')


def subset_sums(w, k):
    """the k smallest sums of subsets"""
    base = sum(x for x in w if x < 0)
    a = sorted(abs(x) for x in w)
    out = [base]
    if not a:
        return out
    h = [(base + a[0], 0)]
    while h and len(out) < k:
        s, i = heapq.heappop(h)
        out.append(s)
        if i + 1 < len(a):
            heapq.heappush(h, (s + a[i + 1], i + 1))
            heapq.heappush(h, (s + a[i + 1] - a[i], i + 1))
    return out[:k]


def big(ctx, rng, k):
    """families too big to list: the first members against independent algorithms"""
    what = rng.choice(['power', 'size', 'tree', 'path', 'matching'])
    up = rng.random() < .5
    sign = 1 if up else -1
    if what in ('power', 'size'):
        K = SetSetKind().setup(rng, rng.choice([20, 60, 100, 200]))
        st = rng.choice(['int', 'dyadic', 'big'])
        w = [weight(rng, st) for _ in range(K.n)]
        o = K.mkdict(0, 0)
        m = rng.randint(0, K.n)
        first = subset_sums([sign * x for x in w], 12)
        if what == 'size':
            o = o.set_size(m)
            first = [sum(sorted(sign * x for x in w)[:m])]
        member = lambda S: what == 'power' or popcount(S) == m
    else:
        nv, E = thin_grid(rng)
        K = GraphKind().adopt(rng, relabel(rng, nv, E, shuffle=False)[1], 'as-is')
        w = [weight(rng, 'pos') if what == 'path' else weight(rng, rng.choice(['int', 'dyadic'])) for _ in range(K.n)]
        vs = K.vertices
        if what == 'tree':
            o = GraphSet.trees(is_spanning=True)
            uf = {v: v for v in vs}

            def find(v):
                while uf[v] != v:
                    v = uf[v]
                return v
            tot = 0
            for x, i in sorted((sign * w[i], i) for i in range(K.n)):
                a, b = find(K.edges[i][0]), find(K.edges[i][1])
                if a != b:
                    uf[a] = b
                    tot += x
            first = [tot]

            def member(S):
                return popcount(S) == len(vs) - 1 and len(reach(K, S, vs[0])) == len(vs)
        elif what == 'path':
            up, sign = True, 1
            s, t = rng.sample(vs, 2)
            o = GraphSet.paths(s, t)
            dist = {s: 0}
            h = [(0, s)]
            while h:
                d, v = heapq.heappop(h)
                if d > dist[v]:
                    continue
                for i, e in enumerate(K.edges):
                    if v in e:
                        u = e[0] if e[1] == v else e[1]
                        if d + w[i] < dist.get(u, 1 << 60):
                            dist[u] = d + w[i]
                            heapq.heappush(h, (dist[u], u))
            first = [dist[t]]

            def member(S):
                deg = {}
                for i in bits(S):
                    for v in K.edges[i]:
                        deg[v] = deg.get(v, 0) + 1
                return deg.get(s) == 1 and deg.get(t) == 1 and all(d == 2 for v, d in deg.items() if v not in (s, t)) \
                    and len(reach(K, S, s)) == len(deg)
        else:
            up, sign = True, 1
            o = GraphSet.matchings()
            w = [abs(x) + 1 for x in w]
            first = sorted([0] + w)[:2]

            def member(S):
                ends = [v for i in bits(S) for v in K.edges[i]]
                return len(ends) == len(set(ends))
        if not o:
            return
    ctx.log('big', what, up, K.n)
    ctx.count('big:' + what)
    d = {K.elems[i]: w[i] for i in range(K.n)}
    it = o.min_iter(d) if up else o.max_iter(d)
    prev, seen = None, set()
    for j in range(12):
        try:
            S = K.tomask(next(it))
        except StopIteration:
            break
        ctx.check(member(S), 'weighted:member', 'weighted iteration over a big family (%s) yields %r', what, K.raw(S))
        ctx.check(S not in seen, 'weighted:twice', 'weighted iteration over a big family yields %r twice', K.raw(S))
        seen.add(S)
        x = sign * sum(w[i] for i in bits(S))
        if j < len(first):
            ctx.eq(x, first[j], 'weighted:first', 'weight no. %d of %s (%s)' % (j, what, 'min' if up else 'max'))
        ctx.check(prev is None or x >= prev, 'weighted:order', 'weight %r after %r (%s)', x, prev, what)
        prev = x
        ctx.count('members yielded')
    ctx.seen(what, K.n, repr(w)[:200])


def reach(K, S, v):
    seen, todo = set(), [v]
    es = [K.edges[i] for i in bits(S)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for a, b in es:
            if a == x:
                todo.append(b)
            elif b == x:
                todo.append(a)
    return seen


def case(ctx, rng, k):
    (big if rng.random() < .12 else small)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
