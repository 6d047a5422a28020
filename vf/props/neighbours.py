"""C23: removing, adding and exchanging one element."""
from math import comb
from ..fam import *
from .counts import Cubes, popc


def removed(M, n): return {m & ~(1 << i) for m in M for i in range(n) if m >> i & 1}
def added(M, n): return {m | 1 << i for m in M for i in range(n) if not m >> i & 1}
def exchanged(M, n):
    return {m ^ 1 << i ^ 1 << j for m in M for i in range(n) if m >> i & 1 for j in range(n) if not m >> j & 1}


DEFS = {'remove': removed, 'add': added, 'exchange': exchanged}
NAMES = {'setset': ('remove_some_element', 'add_some_element', 'remove_add_some_elements'),
         'GraphSet': ('remove_some_edge', 'add_some_edge', 'remove_add_some_edges'),
         'DiGraphSet': ('remove_some_edge', 'add_some_edge', 'remove_add_some_edges'),
         'VertexSetSet': ('remove_some_vertex', 'add_some_vertex', 'remove_add_some_vertices')}


def do(K, f, op):
    return getattr(f, NAMES[K.name][('remove', 'add', 'exchange').index(op)])()


def enlarge(rng, past):
    """a universe slightly larger than any before: the store gets new variables"""
    past[0] += rng.choice([1, 1, 2, 5])
    setset.set_universe(range(past[0]))
    f = setset([{0}, {past[0] - 1}])
    if rng.random() < .5:
        f.remove_add_some_elements()


def small(ctx, rng, past):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'VertexSetSet'])
    K = KINDS[name]().setup(rng, rng.randint(1, 9))
    n = K.n
    ctx.log(K.name, K.elems, getattr(K, 'how', None))
    ctx.count('kind:' + name)
    M = random_masks(rng, n)
    f = K.mk(M, rng)
    for rep in range(rng.randint(1, 4)):
        ops = ['remove', 'add', 'exchange']
        rng.shuffle(ops)
        nxt = None
        for op in ops:
            want = DEFS[op](M, n)
            before = f.dumps()
            if rng.random() < .15 and name != 'setset':
                enlarge(rng, past)
            g = do(K, f, op)
            ctx.check(type(g) is K.cls, 'reconf:type', '%s gives %r', op, type(g))
            got = K.masks(g, len(want) + 300)
            ctx.count(op)
            if M:
                ctx.seen(name, op, n, hash(frozenset(M)))
            if got != want:
                ctx.check(False, 'reconf:' + op, '%s on %s over %r, family %r: missing %r, extra %r', op, name, K.elems,
                          [K.raw(m) for m in sorted(M)[:12]], [K.raw(m) for m in sorted(want - got)[:4]],
                          [K.raw(m) for m in sorted(got - want)[:4]])
            ctx.eq(g.len(), len(want), 'reconf:len', op)
            ctx.check(g == K.mk(want), 'reconf:equal', '%s on %s: equal members, unequal families', op, name)
            ctx.check(f.dumps() == before and f is not g, 'reconf:operand', '%s changed the family', op)
            if nxt is None or rng.random() < .3:
                nxt = g, want
        # the result of a step is the start of the next, possibly combined
        if rng.random() < .4:
            extra = random_masks(rng, n)
            h = K.mk(extra, rng)
            f, M = rng.choice([lambda: (nxt[0] | h, nxt[1] | extra), lambda: (f - h, M - extra),
                               lambda: (nxt[0] ^ h, nxt[1] ^ extra)])()
        else:
            f, M = nxt
        if not M:
            M = random_masks(rng, n)
            f = K.mk(M, rng)


def big(ctx, rng, past):
    """families that cannot be listed: cubes and layers, counted exactly"""
    from .algebra import grid
    t = rng.randrange(3)
    if t == 0:
        K = SetSetKind().setup(rng, rng.choice([20, 40, 90, 200]))
    elif t == 1:
        K = GraphKind().adopt(rng, relabel(rng, *grid(rng))[1])
    else:
        K = VertexKind()
        GraphSet.set_universe([(1, 2)])
        K.elems = labels(rng, rng.choice([20, 50, 120]), 'int')
        VertexSetSet.set_universe(K.elems)
        K.n, K.index = len(K.elems), {e: i for i, e in enumerate(K.elems)}
    n = K.n
    full = (1 << n) - 1
    ctx.log('big', K.name, n)
    ctx.count('big families over ' + K.name)
    if rng.random() < .4:
        k = rng.randint(0, n) if rng.random() < .7 else rng.choice([0, 1, n - 1, n])
        f = K.exact(K.mkdict(0, 0), k)
        ctx.eq(f.len(), comb(n, k), 'layer', 'sets of %d of %d' % (k, n))
        for op, kk in (('remove', k - 1), ('add', k + 1), ('exchange', k if 0 < k < n else -1)):
            g = do(K, f, op)
            want = comb(n, kk) if 0 <= kk <= n else 0
            ctx.eq(g.len(), want, 'reconf:' + op, '%s on all %d-element sets of %d' % (op, k, n))
            ctx.check(want == 0 or g == K.exact(K.mkdict(0, 0), kk), 'reconf:' + op, '%s on all %d-element sets of %d: right size, '
                      'wrong sets', op, k, n)
            ctx.seen('layer', n, k, op)
        return
    inc = exc = 0
    for _ in range(rng.choice([0, 1, 3, n // 3])):
        inc |= 1 << rng.randrange(n)
    for _ in range(rng.choice([0, 1, 3, n // 3])):
        exc |= 1 << rng.randrange(n)
    if rng.random() < .2:
        inc = rng.randrange(full + 1)
        exc = full & ~inc
        if rng.random() < .5:
            exc &= ~(1 << rng.randrange(n))
    exc &= ~inc
    f, c = K.mkdict(inc, exc, rng), Cubes.cube(n, inc, exc)
    a, b = popc(inc), popc(exc)
    e = n - a - b
    want = {'remove': a * 2 ** e + (2 ** e - 1), 'add': b * 2 ** e + (2 ** e - 1),
            'exchange': a * b * 2 ** e + (a + b) * (2 ** e - 1) + max(0, 2 ** e - 2)}
    ctx.eq(f.len(), 2 ** e, 'cube', 'size of a cube')
    res = {}
    for op in ('remove', 'add', 'exchange'):
        g = res[op] = do(K, f, op)
        ctx.eq(g.len(), want[op], 'reconf:' + op, '%s on all sets with %d elements, without %d others, of %d' % (op, a, b, n))
        ctx.seen('cube', n, inc, exc, op)
    # members and near-members, one by one
    for _ in range(6):
        m = K.tomask(f.choice()) if rng.random() < .2 else (inc | rng.randrange(full + 1)) & ~exc
        i, j = rng.randrange(n), rng.randrange(n)
        for op, q in (('remove', m & ~(1 << i)), ('add', m | 1 << j), ('exchange', m & ~(1 << i) | 1 << j), ('exchange', m ^ 1 << i ^ 1 << j),
                      ('remove', m), ('add', m)):
            ins, outs = popc(inc & ~q), popc(exc & q)
            if op == 'remove':
                ok = outs == 0 and (ins == 1 or ins == 0 and popc(full & ~q & ~exc) > 0)
            elif op == 'add':
                ok = ins == 0 and (outs == 1 or outs == 0 and popc(q & ~inc) > 0)
            else:
                # one of inc missing or a free one missing; one of exc present or a free one present
                fi, fo = popc(q & ~inc & ~exc), popc(full & ~q & ~inc & ~exc)
                ok = (ins == 1 and outs == 1 or ins == 1 and outs == 0 and fi > 0 or ins == 0 and outs == 1 and fo > 0
                      or ins == 0 and outs == 0 and fi > 0 and fo > 0)
            ctx.eq(K.member(q, rng) in res[op], ok, 'reconf:' + op, '%s of a cube: membership of %r' % (op, K.raw(q)[:40]))
    # a union of families
    h = K.exact(K.mkdict(0, 0), min(n, 3)) if rng.random() < .5 else K.mkdict(1 << rng.randrange(n), 0)
    for op in ('remove', 'add') if n > 60 else ('remove', 'add', 'exchange'):
        ctx.check(do(K, f | h, op) == res[op] | do(K, h, op), 'reconf:union', '%s on a union isn\'t the union of the results', op)


def searched(ctx, rng, past):
    """steps between members of searched families of graphs"""
    n, E = thin_grid(rng, ((2, 7), (3, 4), (3, 5))) if rng.random() < .6 else shape(rng, 16, 'gnp', 8)
    L, edges = relabel(rng, n, E)
    K = GraphKind().adopt(rng, edges)
    t = rng.randrange(4)
    f = (GraphSet.trees(is_spanning=True) if t == 0 else GraphSet.cycles() if t == 1 else GraphSet.matchings() if t == 2
         else GraphSet.paths(*rng.sample(L, 2)))
    if f.len() > 4000:
        return
    M = K.masks(f)
    ctx.count('searched families')
    for op in ('remove', 'add', 'exchange'):
        want = DEFS[op](M, K.n)
        g = do(K, f, op)
        ctx.eq(g.len(), len(want), 'reconf:' + op, '%s on the result of a search over %r' % (op, K.elems))
        got = K.masks(g, len(want)) if len(want) < 6000 else None
        ctx.check(got is None or got == want, 'reconf:' + op, '%s on the result of a search over %r: right size, wrong graphs', op, K.elems)
        # steps that stay within the family
        ctx.eq((g & f).len(), len(want & M), 'reconf:' + op, '%s within the family' % op)
        ctx.seen(op, tuple(K.elems), len(M))


def session(ctx):
    prelude(ctx)
    past = [2]

    def case(ctx, rng, k):
        if rng.random() < .5:
            enlarge(rng, past)
        r = rng.random()
        (small if r < .75 else big if r < .92 else searched)(ctx, rng, past)
    ctx.run(case)
