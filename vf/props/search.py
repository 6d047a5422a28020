"""C06: GraphSet.graphs() against evaluation of the constraints on all subgraphs."""
from ..fam import *
from ..gmodel import G


class Setup(object):
    pass


def universe(ctx, rng, maxm=9, kind=None, minm=1):
    nv, E = shape(rng, maxm, kind, minm)
    L, edges = relabel(rng, nv, E)
    K = GraphKind()
    K.adopt(rng, edges)
    pos = {l: i for i, l in enumerate(L)}
    g = G(nv, [(pos[u], pos[v]) for u, v in edges])
    s = Setup()
    s.K, s.g, s.L, s.n, s.m = K, g, L, nv, len(edges)
    ctx.log('universe', edges, K.how)
    ctx.count('universes')
    return s


def base_family(rng, s):
    """a base collection (masks) or None"""
    r = rng.random()
    if r < .5:
        return None
    if r < .6:
        return set()
    if r < .8:
        p = rng.choice([.1, .5, .9])
        return {m for m in s.g.all() if rng.random() < p}
    if r < .9:
        return set(s.g.all())
    f = random_masks(rng, s.m)
    return f


def rand_range(rng, hi):
    """(argument, set of allowed values)"""
    t = rng.randrange(7)
    if t == 0:
        d = rng.randint(0, hi)
        return d, {d}
    if t == 6:
        # unusual ways to write a range
        a = rng.randint(0, hi)
        w = rng.choice([1 << 31, 1 << 32, 1 << 40])
        r = rng.choice([range(a, -1, -1), range(a, -1, -2), range(hi, a - 1, -1), range(0), range(a, a), range(-3, a + 1),
                        range(-4, hi + 1, 3), range(-5, -1), range(w, w + a + 1), range(a, w + 1), range(a, w + 1, w),
                        range(a, hi + 1, w), range(w, a, -w + 1), range(w + a, w + a + 1), range(-w, a + 1, w), -1, w + a])
        if isinstance(r, int):
            return r, {r}
        return r, r
    if t == 1:
        d = rng.randint(1, hi + 1)
        r = range(d)
    elif t == 2:
        a = rng.randint(0, hi)
        r = range(a, rng.randint(a + 1, hi + 2))
    elif t == 3:
        a = rng.randint(0, hi)
        step = rng.randint(2, 3)
        r = range(a, a + step * rng.randint(1, 3) + 1, step)
    elif t == 4:
        a = rng.randint(0, hi)
        r = range(a, a + 1)
        if rng.random() < .5:
            return [a], {a}
    else:
        r = range(0, hi + 2, 2)
    return r, set(r)


def vertex_groups(rng, s):
    """(argument, groups as vertex numbers, anonymous components)"""
    t = rng.random()
    if t < .25:
        return None, [], None
    if t < .3:
        return [], [], None
    vs = list(range(s.n))
    rng.shuffle(vs)
    groups, nc = [], 0
    arg = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.choice([0, 0, 1, 1, 2, 2, 3])
        gr, vs = vs[:k], vs[k:]
        if not gr:
            if k and not vs:
                break
            nc += 1
            arg.append([])
        else:
            groups.append(gr)
            arg.append([s.L[v] for v in gr])
    if not arg:
        return None, [], None
    if not groups and nc == 0:
        nc = None
    return arg, groups, nc


def case(ctx, rng, k):
    s = universe(ctx, rng, rng.choice([3, 5, 7, 8, 9, 10]))
    g, K = s.g, s.K
    full = list(g.all())
    maxd = max(max(g.deg((1 << s.m) - 1)), 1)
    reps = 12
    for rep in range(reps):
        kw = {}
        preds = []
        desc = []
        decimal = False
        vg, groups, nc = vertex_groups(rng, s)
        if vg is not None:
            kw['vertex_groups'] = vg
            preds.append(lambda S, gr=groups, nc=nc: g.groups(S, gr, nc))
            desc.append('groups')
        if rng.random() < .5:
            dc, allow = {}, {}
            for v in range(s.n):
                if rng.random() < rng.choice([.3, .8, 1]):
                    a, al = rand_range(rng, maxd)
                    dc[s.L[v]] = a
                    allow[v] = al
            kw['degree_constraints'] = dc
            preds.append(lambda S, allow=allow: all(g.deg(S)[v] in al for v, al in allow.items()))
            desc.append('degree')
        if rng.random() < .4:
            a, al = rand_range(rng, s.m)
            kw['num_edges'] = a
            preds.append(lambda S, al=al: g.size(S) in al)
            desc.append('size')
        if rng.random() < .4:
            kw['no_loop'] = rng.random() < .85
            if kw['no_loop']:
                preds.append(g.forest)
                desc.append('acyclic')
        if rng.random() < .3:
            lcs = []
            for _ in range(rng.choice([1, 1, 2])):
                integer = rng.random() < .6
                # sums of decimal weights are rounded: see KNOWN_FINDINGS (members are lost);
                # dyadic weights have exact sums and must be answered exactly
                dec = not integer and rng.random() < .4
                decimal = decimal or dec
                sel = [i for i in range(s.m) if rng.random() < .6] or [0]
                ws, arg = {}, []
                for i in sel:
                    e = K.edges[i]
                    if rng.random() < .15:
                        w = 1
                        arg.append(e)
                    else:
                        w = rng.choice([-2, -1, 0, 1, 1, 2, 3, 5]) if integer else \
                            rng.randint(-24, 24) / 8. if not dec else round(rng.uniform(-3, 3), 2)
                        arg.append((e[0], e[1], w))
                    ws[i] = w
                tot = sorted(set(sum(w for i, w in ws.items() if S >> i & 1) for S in full))
                if integer:
                    lo, hi = sorted((rng.choice(tot), rng.choice(tot)))
                    if rng.random() < .5:
                        lo, hi = lo - .5, hi + .5
                else:
                    # bounds away from every attainable sum: rounding is not the subject
                    a, b = sorted((rng.uniform(tot[0] - 1, tot[-1] + 1), rng.uniform(tot[0] - 1, tot[-1] + 1)))
                    if not dec:
                        a, b = round(a * 16) / 16., round(b * 16) / 16.
                        if a > b:
                            a, b = b, a
                    lo, hi = a, b
                    if dec and any(abs(t - lo) < 1e-6 or abs(t - hi) < 1e-6 for t in tot):
                        continue
                if rng.random() < .1:
                    lo = float('-inf')
                elif rng.random() < .1:
                    hi = float('inf')
                lcs.append((arg, (lo, hi)))
                preds.append(lambda S, ws=ws, lo=lo, hi=hi:
                             lo - 1e-9 <= sum(w for i, w in ws.items() if S >> i & 1) <= hi + 1e-9)
            if lcs:
                kw['linear_constraints'] = lcs
                desc.append('linear')
        base = base_family(rng, s)
        space = full if base is None else base
        if base is not None:
            desc.append('base')
            bobj = K.mk(base)
        want = {S for S in space if all(p(S) for p in preds)}
        ctx.log('graphs', kw, 'base' if base is None else sorted(base)[:30])
        if base is None:
            got = GraphSet.graphs(**kw)
        elif rng.random() < .5:
            got = GraphSet.graphs(graphset=bobj, **kw)
        else:
            got = bobj.graphs(**kw)
        ctx.check(isinstance(got, GraphSet), 'result-type', 'graphs() gave %r', type(got))
        gm = K.masks(got, limit=len(want) + 200)
        ctx.checks += 1
        if decimal and gm <= want:
            ctx.count('decimal weights: sound')
        elif gm != want:
            raise Violation('graphs:' + '+'.join(desc), 'graphs(%r)%s on %r (%r): %d found, %d satisfy the constraints; '
                            'missing %r extra %r' % (kw, '' if base is None else ' of a base family', K.edges, K.how,
                                                     len(gm), len(want), [K.raw(x) for x in sorted(want - gm)[:3]],
                                                     [K.raw(x) for x in sorted(gm - want)[:3]]))
        ctx.eq(len(got), len(gm), 'count', 'len of a search result')
        if base is not None:
            ctx.eq(K.masks(bobj), base, 'base-changed', 'the base collection after the search')
        ctx.count('constraints:' + ('+'.join(desc) or 'none'))
        if want and len(want) < len(full):
            ctx.seen(K.edges, repr(kw), len(want))
        # the same question with the universe listed otherwise
        if rng.random() < .15:
            perm = list(K.edges)
            rng.shuffle(perm)
            set_graph_universe(rng, perm)
            if decimal:
                pass
            elif base is None:
                g2 = K.masks(GraphSet.graphs(**kw))
                ctx.eq(g2, want, 'edge-order', 'graphs(%r) with the universe listed as %r' % (kw, perm))
            else:
                b2 = K.mk(base)
                g2 = K.masks(GraphSet.graphs(graphset=b2, **kw))
                ctx.eq(g2, want, 'edge-order', 'graphs(%r) of a base family, universe listed as %r' % (kw, perm))
            ctx.count('re-ordered universes')
    if k < 2:
        ctx.sample({'universe': repr(K.edges), 'constraints': repr(kw)[:300], 'found': len(want)})


KNOWN = ([(-18, -16), (-16, -3), (-18, 8), (8, -3), (8, -16)], [-.63, -1.8, 1.22, -1.58, -1.65], (-6.19, -3.32))


def known_rounding(ctx, rng, k):
    """the input of the known finding: sums of decimal weights"""
    edges, w, (lo, hi) = KNOWN
    GraphSet.set_universe(edges, traversal='as-is')
    lc = [([e + (x,) for e, x in zip(edges, w)], (lo, hi))]
    want = {m for m in range(1 << 5) if lo <= sum(x for i, x in enumerate(w) if m >> i & 1) <= hi}
    K = GraphKind()
    K.edges = K.elems = edges
    K.n = 5
    K.index = {e: i for i, e in enumerate(edges)}
    got = K.masks(GraphSet.graphs(linear_constraints=lc))
    ctx.check(got <= want, 'linear:wrong-member', 'members outside the bounds: %r', got - want)
    if got != want:
        ctx.report('linear:decimal-rounding', 'graphs(linear_constraints=%r) on %r loses %d of %d members' % (
            lc, edges, len(want - got), len(want)))


def session(ctx):
    if ctx.session.endswith('.0'):
        n, ctx.ncases = ctx.ncases, 1
        ctx.run(known_rounding)
        ctx.ncases = n
    prelude(ctx)
    ctx.run(case)
