"""C12: searches on directed universes against evaluation on all arc sets."""
from math import comb, factorial
from ..fam import *
from .search import rand_range


class DG(object):
    """arcs over vertices 0..n-1; an arc set is a mask"""
    def __init__(self, n, arcs):
        self.n, self.arcs, self.m = n, arcs, len(arcs)

    def all(self):
        return range(1 << self.m)

    def degs(self, S):
        i, o = [0] * self.n, [0] * self.n
        for k in bits(S):
            u, v = self.arcs[k]
            o[u] += 1
            i[v] += 1
        return i, o

    def walk(self, S, s):
        """number of arcs met following the only out-arcs from s until the walk
        stops or returns to s; (length, end)"""
        nxt = {self.arcs[k][0]: self.arcs[k][1] for k in bits(S)}
        x, c = s, 0
        while x in nxt:
            x = nxt[x]
            c += 1
            if x == s or c > self.m:
                break
        return c, x

    def cycle(self, S, ham=False):
        i, o = self.degs(S)
        if not S or max(i) > 1 or max(o) > 1 or i != o:
            return False
        s = self.arcs[bits(S)[0]][0]
        c, x = self.walk(S, s)
        return x == s and c == popcount(S) and (not ham or c == self.n)

    def path(self, S, s, t, ham=False):
        i, o = self.degs(S)
        if max(i) > 1 or max(o) > 1 or i[s] or o[t]:
            return False
        c, x = self.walk(S, s)
        return x == t and c == popcount(S) and (not ham or c == self.n - 1)

    def acyclic_branching(self, S):
        i, o = self.degs(S)
        if S and max(i) > 1:
            return False
        par = {self.arcs[k][1]: self.arcs[k][0] for k in bits(S)}
        for v in par:
            x, c = v, 0
            while x in par:
                x = par[x]
                c += 1
                if c > self.n:
                    return False
        return True

    def forest(self, S, roots, span):
        if not self.acyclic_branching(S):
            return False
        i, o = self.degs(S)
        if span and any(not i[v] and not o[v] for v in range(self.n)):
            return False
        if roots:
            return {v for v in range(self.n) if not i[v] and o[v]} == set(roots)
        return True

    def tree(self, S, root, span):
        if not self.acyclic_branching(S):
            return False
        i, o = self.degs(S)
        for v in range(self.n):
            if not i[v] and o[v] and v != root:
                return False
        if i[root]:
            return False
        return not span or popcount(S) == self.n - 1


def arcs(rng, maxm):
    k = rng.choice(['rand', 'rand', 'rand', 'both', 'tournament', 'cycle', 'dag', 'star', 'disjoint'])
    nv = rng.randint(2, 6)
    if k == 'rand':
        A = [(u, v) for u in range(nv) for v in range(nv) if u != v]
        rng.shuffle(A)
        A = A[:rng.randint(1, maxm)]
    elif k == 'both':
        A = []
        for u, v in shape(rng, max(1, maxm // 2))[1]:
            A += [(u, v), (v, u)]
    elif k == 'tournament':
        A = [rng.choice([(u, v), (v, u)]) for u in range(nv) for v in range(u)]
    elif k == 'cycle':
        A = [(i, (i + 1) % nv) for i in range(nv)]
        A += [(rng.randrange(nv), rng.randrange(nv)) for _ in range(4)]
    elif k == 'dag':
        A = [(u, v) for v in range(nv) for u in range(v) if rng.random() < .7]
    elif k == 'star':
        A = [rng.choice([(0, i), (i, 0)]) for i in range(1, nv)] + [(0, 1), (1, 0)]
    else:
        A = [(0, 1), (1, 0), (2, 3), (3, 4), (4, 2), (4, 3)]
    A = [a for a in dict.fromkeys(A) if a[0] != a[1]]
    if len(A) > maxm:
        rng.shuffle(A)
        A = A[:maxm]
    if not A:
        A = [(0, 1)]
    vs = sorted({v for a in A for v in a})
    ix = {v: i for i, v in enumerate(vs)}
    return len(vs), [(ix[u], ix[v]) for u, v in A]


def base_of(rng, K, g):
    r = rng.random()
    if r < .5:
        return None
    if r < .6:
        return set()
    if r < .8:
        p = rng.choice([.1, .5, .9])
        return {m for m in g.all() if rng.random() < p}
    if r < .9:
        return set(g.all())
    return random_masks(rng, g.m)


def degree_dict(rng, L, n):
    d, allowed = {}, {}
    for v in rng.sample(range(n), rng.randint(0, n)):
        a, ok = rand_range(rng, 3)
        d[L[v]] = a
        allowed[v] = ok
    return d, allowed


def case(ctx, rng, k):
    nv, A = arcs(rng, rng.choice([2, 5, 8, 9, 10, 11]))
    L, E = relabel(rng, nv, A, flipdir=False)
    K = DiKind().adopt(rng, E)
    pos = {l: i for i, l in enumerate(L)}
    g = DG(nv, [(pos[u], pos[v]) for u, v in E])
    ctx.log('universe', E, K.how)
    ctx.count('universes')
    if any((v, u) in K.index for u, v in E):
        ctx.count('universes with opposite arcs')
    for _ in range(10):
        base = base_of(rng, K, g)
        kw = {}
        if base is not None:
            kw['graphset'] = b = K.mk(base)
        q = rng.choice(['cycles', 'hamilton', 'paths', 'paths', 'forests', 'forests', 'trees', 'trees', 'degrees', 'degrees'])
        if q == 'cycles':
            r = DiGraphSet.directed_cycles(**kw)
            f, a = g.cycle, ()
        elif q == 'hamilton':
            r = DiGraphSet.directed_hamiltonian_cycles(**kw)
            f, a = (lambda S: g.cycle(S, True)), ()
        elif q == 'paths':
            s, t = rng.sample(range(nv), 2)
            h = rng.random() < .4
            a = (L[s], L[t], h)
            r = DiGraphSet.directed_st_paths(L[s], L[t], h, **kw) if h or rng.random() < .5 else \
                DiGraphSet.directed_st_paths(L[s], L[t], **kw)
            f = lambda S: g.path(S, s, t, h)
        elif q == 'forests':
            sp = rng.random() < .4
            roots = rng.choice([None, None, []] + [rng.sample(range(nv), rng.randint(1, min(3, nv))) for _ in range(4)])
            arg = None if roots is None else [L[v] for v in roots]
            a = (arg, sp)
            if arg is None and rng.random() < .5:
                r = DiGraphSet.rooted_forests(is_spanning=sp, **kw)
            else:
                r = DiGraphSet.rooted_forests(arg, sp, **kw)
            f = lambda S: g.forest(S, roots, sp)
        elif q == 'trees':
            root, sp = rng.randrange(nv), rng.random() < .5
            a = (L[root], sp)
            r = DiGraphSet.rooted_trees(L[root], sp, **kw)
            f = lambda S: g.tree(S, root, sp)
        else:
            d1, ok1 = degree_dict(rng, L, nv)
            d2, ok2 = degree_dict(rng, L, nv)
            a = (d1, d2)
            t = rng.randrange(4)
            if t == 0:
                d2, ok2 = None, {}
            elif t == 1:
                d1, ok1 = None, {}
            r = DiGraphSet.graphs(d1, d2, **kw) if rng.random() < .5 else \
                DiGraphSet.graphs(in_degree_constraints=d1, out_degree_constraints=d2, **kw)

            def f(S):
                i, o = g.degs(S)
                return all(i[v] in ok for v, ok in ok1.items()) and all(o[v] in ok for v, ok in ok2.items())
        want = {S for S in (g.all() if base is None else base) if f(S)}
        ctx.log(q, a, None if base is None else sorted(base)[:60])
        got = K.masks(r)
        if got != want:
            ex = sorted(got ^ want, key=popcount)[0]
            ctx.check(False, 'directed:' + q, '%s%r on %r (%r)%s: %d members, expected %d; e.g. %r %s', q, a, E, K.how,
                      '' if base is None else ' within %d given' % len(base), len(got), len(want), K.raw(ex),
                      'is missing' if ex in want else 'does not belong')
        ctx.check(isinstance(r, DiGraphSet), 'directed:type', 'type %s', type(r).__name__)
        ctx.eq(r.len(), len(want), 'directed:len', 'len of ' + q)
        ctx.count('%s%s' % (q, '' if base is None else ' within a base'))
        if want and len(want) < (len(base) if base is not None else 1 << g.m):
            ctx.seen(E, q, a, base)
        if base is not None:
            ctx.eq(K.masks(b), base, 'directed:base', 'the base collection after ' + q)


def det(M):
    """integer determinant (fraction-free elimination)"""
    M = [r[:] for r in M]
    n, sign, prev = len(M), 1, 1
    for k in range(n - 1):
        if not M[k][k]:
            for r in range(k + 1, n):
                if M[r][k]:
                    M[k], M[r] = M[r], M[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[-1][-1] if n else 1


def big(ctx, rng, k):
    """known counts: determinants, factorials, path counts of acyclic grids"""
    what = rng.choice(['complete', 'arborescences', 'dag', 'degrees', 'opposite'])
    ctx.count('big:' + what)
    if what == 'complete':
        n = rng.choice([3, 4, 5, 6])
        A = [(i, j) for i in range(n) for j in range(n) if i != j]
        L, E = relabel(rng, n, A, flipdir=False)
        DiGraphSet.set_universe(E, traversal=rng.choice(['greedy', 'as-is']))
        ctx.log('complete', E)
        s, t = rng.sample(range(n), 2)
        ctx.eq(DiGraphSet.directed_hamiltonian_cycles().len(), factorial(n - 1), 'directed:count', 'Hamiltonian cycles, n=%d' % n)
        ctx.eq(DiGraphSet.directed_cycles().len(), sum(comb(n, j) * factorial(j - 1) for j in range(2, n + 1)),
               'directed:count', 'cycles of the complete digraph')
        ctx.eq(DiGraphSet.rooted_forests().len(), (n + 1) ** (n - 1), 'directed:count', 'branchings of the complete digraph')
        ctx.eq(DiGraphSet.rooted_trees(L[s], True).len(), n ** (n - 2), 'directed:count', 'spanning trees from a root')
        ctx.eq(DiGraphSet.directed_st_paths(L[s], L[t], True).len(), factorial(n - 2), 'directed:count', 'Hamiltonian paths')
        ctx.eq(DiGraphSet.directed_st_paths(L[s], L[t]).len(), sum(factorial(n - 2) // factorial(n - 2 - j)
               for j in range(n - 1)), 'directed:count', 'paths of the complete digraph')
        return ctx.seen(what, E)
    nv, E0 = thin_grid(rng, ((2, 5), (3, 5), (3, 7), (2, 20)))
    if what == 'dag':
        E0 = [(u, v) for u, v in E0]
    else:
        E0 = [a for u, v in E0 for a in rng.choice([[(u, v)], [(v, u)], [(u, v), (v, u)]])]
    L, E = relabel(rng, nv, E0, flipdir=False, shuffle=False)
    DiGraphSet.set_universe(E, traversal='as-is')
    ctx.log(what, E)
    if what == 'arborescences':
        r = rng.randrange(nv)
        M = [[0] * nv for _ in range(nv)]
        for u, v in E0:
            M[v][v] += 1
            M[v][u] -= 1
        M = [[M[i][j] for j in range(nv) if j != r] for i in range(nv) if i != r]
        ctx.eq(DiGraphSet.rooted_trees(L[r], True).len(), det(M), 'directed:count', 'spanning trees from %r in %r' % (L[r], E))
    elif what == 'dag':
        s, t = 0, rng.randrange(1, nv)
        ways = [0] * nv
        ways[s] = 1
        for v in range(nv):
            for a, b in E0:
                if b == v:
                    ways[v] += ways[a]
        ctx.eq(DiGraphSet.directed_st_paths(L[s], L[t]).len(), ways[t], 'directed:count', 'paths of an acyclic grid')
        ctx.eq(DiGraphSet.directed_cycles().len(), 0, 'directed:count', 'cycles of an acyclic grid')
        n = 1
        for v in range(nv):
            n *= 1 + sum(1 for a, b in E0 if b == v)
        ctx.eq(DiGraphSet.rooted_forests().len(), n, 'directed:count', 'branchings of an acyclic grid')
    elif what == 'degrees':
        ind, outd = [0] * nv, [0] * nv
        for a, b in E0:
            outd[a] += 1
            ind[b] += 1
        d, n = {}, 1
        side = rng.choice(['in_degree_constraints', 'out_degree_constraints'])
        deg = ind if side[0] == 'i' else outd
        for v in range(nv):
            a, ok = rand_range(rng, min(4, deg[v]))
            if rng.random() < .8 and sum(comb(deg[v], x) for x in range(deg[v] + 1) if x in ok):
                d[L[v]] = a
                n *= sum(comb(deg[v], x) for x in range(deg[v] + 1) if x in ok)
            else:
                n *= 2 ** deg[v]
        ctx.eq(DiGraphSet.graphs(**{side: d}).len(), n, 'directed:count', '%s %r in %r' % (side, d, E))
    else:
        # the cycles of a doubled tree are its opposite pairs
        E1 = []
        for v in range(1, nv):
            u = rng.randrange(max(0, v - 3), v)
            E1 += [(u, v), (v, u)]
        L, E = relabel(rng, nv, E1, flipdir=False, shuffle=False)
        DiGraphSet.set_universe(E, traversal='as-is')
        c = DiGraphSet.directed_cycles()
        ctx.eq(sorted(map(sorted, c)), sorted([sorted([E[2 * i], E[2 * i + 1]]) for i in range(nv - 1)]), 'directed:opposite',
               'cycles of a doubled tree')
        s, t = rng.sample(range(nv), 2)
        ctx.eq(DiGraphSet.directed_st_paths(L[s], L[t]).len(), 1, 'directed:count', 'paths in a doubled tree')
        ctx.eq(DiGraphSet.rooted_trees(L[s], True).len(), 1, 'directed:count', 'spanning trees of a doubled tree')
    ctx.seen(what, E)


def either(ctx, rng, k):
    (big if rng.random() < .12 else case)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(either)
