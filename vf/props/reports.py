"""C27: what the library says about a universe and about a family, as lists
and as text, is what it holds, and what it says can be given back to it."""
import ast
from ..fam import *
from .directed import arcs
from graphillion.universe import Universe as U


class Odd(Exception):
    pass


def parse(text, name, inner):
    """the complete members shown in a text form; whether that is all"""
    head = name + '(['
    if not text.startswith(head):
        raise Odd('does not begin with %r' % head)
    body = text[len(head) - 1:]
    def read(s):
        return eval(s, {'__builtins__': {}, 'set': set})
    if not text.endswith(' ...'):
        if not body.endswith('])'):
            raise Odd('does not end')
        return read(body[:-1]), True
    body, at = body[:-4], len(body) - 4
    close = ']' if not inner else '])'
    while True:
        at = body.rfind(close, 0, at)
        if at < 0:
            return [], False
        try:
            return read(body[:at + len(close)] + ']'), False
        except SyntaxError:
            at += len(close) - 1


def text(ctx, rng, k):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    big = rng.random() < .12
    n = rng.randint(1, 7) if not big else rng.choice([40, 150, 300])
    if big:
        if name in ('VertexSetSet', 'EdgeVertexSetSet'):
            name = 'GraphSet'
        if name == 'DiGraphSet':
            K = DiKind().adopt(rng, [(i, i + 1) for i in range(n)])
        elif name == 'GraphSet':
            K = GraphKind().adopt(rng, [(i, i + 1) for i in range(n)])
        else:
            K = SetSetKind().setup(rng, n)
        f = K.mkdict(sum(1 << rng.randrange(n) for _ in range(1)) if rng.random() < .7 else 0, 0)
        if rng.random() < .5:
            f = f.larger(rng.randint(0, 2))
    else:
        K = KINDS[name]().setup(rng, max(3, n) if name == 'EdgeVertexSetSet' else n,
                                rng.choice(['seq', 'str', 'neg', None]) if name not in ('setset', 'EdgeVertexSetSet') else None)
        F = random_masks(rng, K.n)
        if rng.random() < .6:
            F = set(rng.sample(sorted(F), min(len(F), rng.randint(0, 4))))
        if name == 'EdgeVertexSetSet':
            F = set(K.closure(m) for m in F)
        f = K.mk(F, rng)
    try:
        t = repr(f)
    except TypeError:                       # elements that have no order
        if name != 'setset' or all(isinstance(x, type(K.elems[0])) for x in K.elems):
            raise
        ctx.count('no text')
        return
    ctx.check(str(f) == t, 'text:str', '%r and %r', str(f), t)
    ctx.checks += 1
    try:
        shown, whole = parse(t, name, name == 'setset')
    except (Odd, SyntaxError, NameError, TypeError) as e:
        ctx.check(False, 'text:form', 'the text of %d members cannot be read (%s): %r', f.len(), e, t)
        return
    ms = [K.tomask(set(m)) for m in shown]
    ctx.check(len(t) <= 80, 'text:long', '%d characters: %r', len(t), t)
    ctx.check(len(set(ms)) == len(ms), 'text:twice', 'a member is shown twice: %r', t)
    ctx.check(all(popcount(a) <= popcount(b) for a, b in zip(ms, ms[1:])), 'text:order', 'members are not shown smallest first: %r', t)
    ctx.check(all(K.member(m) in f for m in ms), 'text:stranger', 'a member shown is not in the family: %r', t)
    if whole:
        if not big:
            ctx.check(set(ms) == F, 'text:contents', 'the family %r is shown as %r', sorted(F), t)
        back = eval(t, {'set': set, name: K.cls})
        ctx.check(back == f and back.len() == f.len(), 'text:back', '%r evaluates to another family', t)
        ctx.seen(name, 'whole', K.n, t)
    else:
        ctx.check(len(t) == 80, 'text:cut', 'the text is cut to %d characters: %r', len(t), t)
        if not big:
            rest = sorted(popcount(m) for m in F - set(ms))
            ctx.check(len(F) > len(ms) and (not ms or not rest or popcount(ms[-1]) <= rest[0]), 'text:order',
                      'a smaller member is left out of %r', t)
            # nothing that fits is left out
        ctx.seen(name, 'cut', K.n, t)
    ctx.count('text of %s %s' % (name, 'whole' if whole else 'cut'))


def reach(edges, source):
    D, todo = {source: 0}, [source]
    nb = {}
    for u, v in edges:
        nb.setdefault(u, []).append(v)
        nb.setdefault(v, []).append(u)
    for u in todo:
        for v in nb[u]:
            if v not in D:
                D[v] = D[u] + 1
                todo.append(v)
    return D


def order(ctx, u, edges, t, source, rng):
    """what the documentation says of the traversals"""
    if t == 'as-is':
        ctx.check(u == edges, 'order:as-is', 'as-is: %r is processed as %r', edges, u)
        return
    vs = set(v for e in edges for v in e)
    source = source if source is not None else min(vs)
    D = reach(edges, source)
    ctx.check(source in u[0], 'order:source', '%s from %r: %r is processed as %r', t, source, edges, u)
    met = set(u[0])
    for e in u[1:]:
        if e[0] in D:
            ctx.check(e[0] in met or e[1] in met, 'order:connected', '%s from %r: %r is reached out of nowhere in %r', t, source, e, u)
        met |= set(e)
    if t == 'bfs':
        far = [max(D[e[0]], D[e[1]]) for e in u if e[0] in D]
        ctx.check(far == sorted(far), 'order:bfs', 'bfs from %r: %r is processed as %r', source, edges, u)


def graphs(ctx, rng, k):
    directed = rng.random() < .35
    cls = DiGraphSet if directed else GraphSet
    if directed:
        nv, E = arcs(rng, rng.choice([2, 5, 10, 20]))
    else:
        nv, E = shape(rng, rng.choice([2, 5, 9, 14, 25]))
    L, edges = relabel(rng, nv, E, flipdir=not directed)
    style = rng.choice(['none', 'all', 'some', 'some'])
    W = [None if style == 'none' or style == 'some' and rng.random() < .5 else rng.choice([0, 1, -3, 2.5, -0.25, 10 ** 6, rng.randint(-9, 9)])
         for _ in edges]
    uni = [e if w is None else e + (w,) for e, w in zip(edges, W)]
    t = rng.choice(TRAVERSALS)
    src = rng.choice(L) if t != 'as-is' and rng.random() < .5 else None
    other = repr(GraphSet.universe() if directed else DiGraphSet.universe())
    kw, by, wv = {}, {}, {}
    if not directed and rng.random() < .4:
        # weights of edges and vertices in a dictionary; those in the list go first
        by = {e: rng.randint(-5, 9) for e in edges if rng.random() < .5}
        wv = {v: rng.randint(-5, 9) for v in L if rng.random() < .6}
        kw = dict(weights=dict(list(by.items()) + list(wv.items())))
    # a vertex that is written like an edge has no weight of its own
    wv = {} if set(L) & (set(edges) | set((v, u) for u, v in edges)) else wv
    given = list(uni)
    if kw:
        U.set_universe(given, traversal=t, source=src, **kw)
    else:
        cls.set_universe(given, traversal=t, source=src)
    del given[:]                                    # the caller's list is the caller's
    if kw:
        kw['weights'].clear()
    want = {e: (w if w is not None else by.get(e)) for e, w in zip(edges, W)}
    if set(L) & set(edges):
        ctx.count('vertices written like edges')
        return
    u = cls.universe()
    bare = [tuple(e[:2]) for e in u]
    ctx.log(edges, W, by, wv, t, src, '->', u)
    ctx.check(sorted(bare) == sorted(edges), 'universe:edges', '%r is reported as %r', uni, u)
    for e in u:
        w = want[tuple(e[:2])]
        ctx.check(len(e) == 2 if w is None else len(e) == 3 and e[2] == w, 'universe:weights', 'edge %r has weight %r and is reported so: %r',
                  e[:2], w, e)
    order(ctx, bare, edges, t, src, rng)
    ctx.check(repr(GraphSet.universe() if directed else DiGraphSet.universe()) == other, 'universe:other',
              'the other universe changed from %s', other)
    del u[:]
    ctx.check([tuple(e[:2]) for e in cls.universe()] == bare, 'universe:copy', 'emptying the reported list changed the universe')
    u = cls.universe()
    wt = [1 if want[e] is None else want[e] for e in edges]
    index = {e: i for i, e in enumerate(edges)}
    n = len(edges)
    F = set(rng.getrandbits(n) & (rng.getrandbits(n) if rng.random() < .5 else -1) for _ in range(rng.choice([1, 4, 20])))
    f = cls([[edges[i] for i in bits(m)] for m in sorted(F)])
    def state():
        ctx.checks += 4
        got = set(sum(1 << index[e] for e in m) for m in f)
        ctx.check(got == F and f.len() == len(F), 'universe:contents', 'the family %r became %r', sorted(F), sorted(got))
        for up in (0, 1):
            c = [sum(wt[index[e]] for e in m) for m in (f.max_iter() if up else f.min_iter())]
            ctx.check(c == sorted(c, reverse=up) and sorted(c) == sorted(sum(wt[i] for i in bits(m)) for m in F), 'universe:optimum',
                      'with the weights of the universe %r the sums are %r', wt, c)
    state()
    # what is reported can be registered again, and changes nothing
    if not wv or directed:
        cls.set_universe(u, traversal='as-is')
        ctx.check(cls.universe() == u, 'universe:again', '%r registered as-is is reported as %r', u, cls.universe())
        state()
    if not directed:
        around(ctx, rng, L, edges, want, wv)
    ctx.count('universe of ' + cls.__name__)
    ctx.seen(cls.__name__, t, tuple(edges), tuple(W))


def around(ctx, rng, L, edges, want, wv):
    """the vertex and the edge-vertex universe that come with a graph"""
    hidden = [v for v in L if isinstance(v, tuple)]
    vu = U.vertex_universe()
    for i, v in enumerate(vu):
        if v not in L:
            ctx.check(isinstance(v, tuple) and len(v) == 2 and v[0] in L and wv.get(v[0], 1) == v[1] != 1, 'universe:vertices',
                      '%r of %r is no vertex with its weight (%r)', v, vu, wv)
            vu[i] = v[0]
        elif not hidden:
            ctx.check(wv.get(v, 1) == 1, 'universe:vertices', 'the weight of %r is not reported in %r', v, vu)
    if not hidden:
        ctx.check(sorted(vu) == sorted(L), 'universe:vertices', 'vertices %r are reported as %r', sorted(L), vu)
    eu = U.edge_vertex_universe()
    ctx.check(len(eu) == len(set(eu)) and set(eu) == set(L) | set(edges), 'universe:edges and vertices', '%r and %r are reported as %r',
              L, edges, eu)
    w = {v: wv.get(v, 1) for v in L}
    if hidden:
        return
    S = [rng.sample(L, rng.randint(0, len(L))) for _ in range(rng.randint(1, 8))]
    f = VertexSetSet(S)
    for up in (0, 1):
        c = [sum(w[v] for v in m) for m in (f.max_iter() if up else f.min_iter())]
        ctx.check(c == sorted(c, reverse=up) and sorted(c) == sorted(sum(w[v] for v in m) for m in set(map(frozenset, S))), 'universe:vertex weights',
                  'sets %r with vertex weights %r have sums %r', S, w, c)
    S = [rng.sample(edges, rng.randint(0, min(4, len(edges)))) for _ in range(rng.randint(1, 8))]
    S = set(frozenset(list(s) + [v for e in s for v in e]) for s in S)
    f = EdgeVertexSetSet([list(s) for s in S])
    w.update({e: 1 if x is None else x for e, x in want.items()})
    for up in (0, 1):
        c = [sum(w[x] for x in m) for m in (f.max_iter() if up else f.min_iter())]
        ctx.check(c == sorted(c, reverse=up) and sorted(c) == sorted(sum(w[x] for x in m) for m in S), 'universe:vertex and edge weights',
                  'sets %r with weights %r have sums %r', S, w, c)
    ctx.checks += 4


def plain(ctx, rng, k):
    """elements of sets: the registered order, new ones behind it"""
    K = SetSetKind().setup(rng, rng.choice([1, 3, 8, 40]))
    objs = list(K.elems)
    rng.shuffle(objs)
    cut = rng.randint(1, len(objs))
    reg = objs[:cut]
    setset.set_universe(reg)
    ctx.eq(setset.universe(), objs[:cut], 'universe:sets')
    reg.append('later')
    setset.universe().append('other')
    ctx.eq(setset.universe(), objs[:cut], 'universe:sets')
    for e in objs[cut:]:
        setset([{e}])
    ctx.eq(setset.universe(), objs, 'universe:sets')
    index = {e: i for i, e in enumerate(objs)}
    n = len(objs)
    F = set(rng.getrandbits(n) & rng.getrandbits(n) for _ in range(rng.choice([1, 5, 20])))
    f = setset([set(objs[i] for i in bits(m)) for m in F])
    u = setset.universe()
    if rng.random() < .5:
        setset.set_universe(['x', 'y'])
        setset([{'x'}, {'y'}]).len()
    setset.set_universe(u)
    ctx.eq(setset.universe(), u, 'universe:sets')
    ctx.eq(set(sum(1 << index[e] for e in s) for s in f), F, 'universe:contents')
    L = labels(rng, rng.randint(1, 8), rng.choice(['seq', 'neg', 'str']))
    w = {v: rng.randint(-4, 9) for v in L if rng.random() < .5}
    GraphSet.set_universe([('no vertex', 'of these')])
    VertexSetSet.set_universe([(v, w[v]) if v in w else rng.choice([v, (v,)]) for v in L])
    want = [(v, w[v]) if w.get(v, 1) != 1 else v for v in L]
    ctx.eq(VertexSetSet.universe(), want, 'universe:vertex list')
    VertexSetSet.set_universe(VertexSetSet.universe())
    ctx.eq(VertexSetSet.universe(), want, 'universe:vertex list again')
    S = set(frozenset(rng.sample(L, rng.randint(0, len(L)))) for _ in range(6))
    f = VertexSetSet([set(s) for s in S])
    c = [sum(w.get(v, 1) for v in m) for m in f.max_iter()]
    ctx.eq(c, sorted((sum(w.get(v, 1) for v in m) for m in S), reverse=True), 'universe:vertex weights')
    ctx.count('plain universes')
    ctx.seen('plain', tuple(map(repr, objs)), cut)


def case(ctx, rng, k):
    rng.choice([text, text, graphs, graphs, plain])(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
