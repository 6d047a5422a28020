"""C16: the same question asked under different labels, listings, orders,
traversals and histories must get the same answer."""
from random import Random
from ..fam import *
from ..gmodel import G
from ..core import Violation
from .search import rand_range, vertex_groups
from .shapes import GEN
from .partition import CLASSES
from .directed import arcs, DG, degree_dict
from graphillion.graphclass import GraphClass


class S(object):
    pass


def noise(rng):
    """something else the process does first"""
    r = rng.random()
    if r < .3:
        setset.set_universe(range(rng.choice([1, 9, 40])))
        setset([{0}, {0, 1}]).minimal()
    elif r < .45:
        GraphSet.set_universe([(1, 2), (2, 3), (1, 3)])
        GraphSet.trees().len()
    elif r < .55:
        DiGraphSet.set_universe([(1, 2), (2, 1)])


def rebuild(x):
    """an equal object that shares no parts"""
    if isinstance(x, tuple):
        return tuple(rebuild(y) for y in x)
    if isinstance(x, str):
        return ''.join(list(x)) if len(x) != 1 else x
    return x


class Fresh(list):
    def __getitem__(self, i):
        return rebuild(list.__getitem__(self, i))


def env(rng, n, E, g, plain, noise=noise):
    s = S()
    s.n, s.m, s.g = n, len(E), g
    s.L = list(range(1, n + 1)) if plain else labels(rng, n, None)
    s.L = Fresh(s.L)
    if not plain and rng.random() < .5:
        rng.shuffle(s.L)
    noise(rng)
    K = GraphKind()
    K.edges = K.elems = [((s.L[u], s.L[v]) if plain or rng.random() < .5 else (s.L[v], s.L[u])) for u, v in E]
    K.n = len(E)
    K.index = {e: i for i, e in enumerate(K.elems)}
    K.vertices = s.L
    listing = list(K.elems)
    if not plain:
        rng.shuffle(listing)
    if plain:
        GraphSet.set_universe(listing, traversal='as-is')
        K.how = ('as-is', None)
    else:
        K.how = set_graph_universe(rng, listing)
    s.restore = lambda: GraphSet.set_universe(listing, traversal=K.how[0], source=K.how[1])
    V = VertexKind()
    V.elems, V.n, V.index = s.L, n, {v: i for i, v in enumerate(s.L)}
    W = EVKind()
    W.elems = s.L + K.elems
    W.n, W.index = len(W.elems), {x: i for i, x in enumerate(W.elems)}
    s.K, s.V, s.W, s.listing = K, V, W, listing
    s.tuples = any(isinstance(v, tuple) for v in s.L)
    return s


def canon(K, f, limit=1500):
    """what is observed of a family, in a form free of labels and order"""
    n = f.len()
    if n <= limit:
        m = K.masks(f)
        if len(m) != n:
            raise Violation('len', 'len() is %d, iteration gives %d' % (n, len(m)))
        return ('members', frozenset(m))
    if K.name == 'setset':
        sizes = [f.set_size(j).len() for j in range(K.n + 1)]
        inc = [f.supersets(K.elems[i]).len() for i in range(K.n)]
    else:
        sizes = [f.graph_size(j).len() for j in range(K.n + 1)]
        inc = [f.including(K.elems[i]).len() for i in range(K.n)]
    if sum(sizes) != n:
        raise Violation('len', 'sizes add up to %d, len() is %d' % (sum(sizes), n))
    return ('counts', n, tuple(sizes), tuple(inc))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12


def agree(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b)
    return a == b


# each op: (name, f(rng, s, fams) -> observation); the rng is seeded equally
# for every configuration, so the same question is asked
def op_search(rng, s, F):
    q = GEN[rng.choice(['C07', 'C08'])](rng, s)
    if q[0] in ('spath', 'scycle', 'paths1') and s.m > 14:
        return None
    f = q[1](None)
    F.append(('G', f))
    c = canon(s.K, f)
    free = q[4] if len(q) > 4 else ()
    if c[0] == 'members' and free:
        c = ('members', c[1] - frozenset(free))
    return q[0], c


def op_graphs(rng, s, F):
    kw = {}
    g = s.g
    arg, _, _ = vertex_groups(rng, s)
    if arg is not None:
        kw['vertex_groups'] = arg
    if rng.random() < .5:
        kw['degree_constraints'] = {s.L[v]: rand_range(rng, 3)[0] for v in rng.sample(range(s.n), rng.randint(1, s.n))}
    if rng.random() < .4:
        kw['num_edges'] = rand_range(rng, s.m)[0]
    if rng.random() < .3:
        kw['no_loop'] = True
    if rng.random() < .3:
        kw['linear_constraints'] = [([s.K.elems[i] + (rng.randint(-3, 4),) for i in rng.sample(range(s.m), rng.randint(1, s.m))],
                                     (rng.randint(-4, 0), rng.randint(0, 9)))]
    f = GraphSet.graphs(**kw)
    F.append(('G', f))
    return 'graphs', canon(s.K, f)


def op_partition(rng, s, F):
    t = rng.randrange(4)
    w = {s.L[v]: rng.randint(0, 9) for v in range(s.n)}
    lo = rng.randint(1, 4)
    hi = rng.randint(lo, max(lo, s.n + 1))
    if t == 0:
        f = GraphSet.partitions(num_comp_lb=lo, num_comp_ub=hi)
    elif t == 1:
        f = GraphSet.balanced_partitions(weight_list=w, lower=rng.randint(0, 4), ratio=rng.choice([0.0, 1.5, 3.0]) or 4.0)
    elif t == 2:
        f = GraphSet.weighted_induced_graphs(weight_list=w, lower=rng.randint(0, 9), upper=rng.randint(9, 40))
    else:
        pool = [m for k, f in F if k == 'G' for m in ([s.K.masks(f)] if 0 < f.len() <= 12 else [])]
        if not pool or s.m > 12:
            return None
        f = GraphSet.forbidden_induced_subgraphs(s.K.mk(pool[-1] - {0}))
    F.append(('G', f))
    return 'partition%d' % t, canon(s.K, f)


def op_class(rng, s, F):
    if s.m > 10:
        return None
    name = rng.choice(sorted(CLASSES))
    f = getattr(GraphClass, name)()
    F.append(('G', f))
    return name, canon(s.K, f)


def op_numbers(rng, s, F):
    p = {e: rng.random() for e in s.K.elems}
    if rng.random() < .5:
        T = rng.sample(range(s.n), rng.randint(1, min(4, s.n)))
        return 'reliability', GraphSet.reliability(p, [s.L[v] for v in T])
    f = last(rng, F, 'G')
    if f is None:
        return None
    return 'probability', f.probability(p)


def op_cost(rng, s, F):
    f = last(rng, F, 'G')
    if f is None or f.len() > 10 ** 6:
        return None
    c = {e: rng.randint(-5, 9) for e in s.K.elems}
    b = rng.randint(-5, 30)
    r = rng.choice([f.cost_le, f.cost_ge, f.cost_eq])(c, b)
    F.append(('G', r))
    return 'cost', canon(s.K, r)


def op_weighted(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    w = {e: rng.randint(-5, 9) for e in s.K.elems}
    up = rng.random() < .5
    out = []
    for i, m in enumerate(f.max_iter(w) if up else f.min_iter(w)):
        out.append(sum(w[e] for e in m))
        if i == 30:
            break
    return 'weighted', tuple(out)


def op_operator(rng, s, F):
    K, f, h = s.K, last(rng, F, 'G'), last(rng, F, 'G')
    if f is None:
        return None
    small = f.len() <= 60 and h.len() <= 60
    u, e = rng.randrange(s.n), rng.randrange(s.m)
    k = rng.randint(0, s.m)
    ops = [('minimal', lambda: f.minimal()), ('maximal', lambda: f.maximal()), ('union', lambda: f | h), ('diff', lambda: f - h),
           ('xor', lambda: f ^ h), ('and', lambda: f & h), ('incl-vertex', lambda: f.including(s.L[u])),
           ('excl-vertex', lambda: f.excluding(s.L[u])), ('incl-edge', lambda: f.including(K.elems[e])),
           ('excl-edge', lambda: f.excluding(K.elems[e])), ('larger', lambda: f.larger(k)), ('smaller', lambda: f.smaller(k)),
           ('size', lambda: f.graph_size(k)), ('included', lambda: f.included(h)), ('including', lambda: f.including(h)),
           ('non_sub', lambda: f.non_subgraphs(h)), ('non_super', lambda: f.non_supergraphs(h)), ('quotient', lambda: f / h if h else f),
           ('remainder', lambda: f % h if h else f), ('cubes', lambda: K.cls({'include': [K.elems[e]], 'exclude': []}) & f)]
    if small and s.m <= 12:
        ops += [('join', lambda: f.join(h)), ('meet', lambda: f.meet(h)), ('blocking', lambda: f.blocking()),
                ('complement', lambda: f.complement()), ('remove', lambda: f.remove_some_edge()), ('add', lambda: f.add_some_edge()),
                ('exchange', lambda: f.remove_add_some_edges())]
    name, q = rng.choice(ops)
    r = q()
    F.append(('G', r))
    return name, canon(K, r)


def op_vertices(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    t = rng.randrange(3)
    if t == 0:
        return 'to_vertexsetset', canon(s.V, f.to_vertexsetset())
    if t == 1:
        d = rng.randint(1, 3)
        E = s.listing
        q = rng.choice(['independent_sets', 'dominating_sets', 'vertex_covers', 'cliques'])
        fn = getattr(VertexSetSet, q)
        return q, canon(s.V, fn(E, d) if q[0] in 'id' else fn(E))
    return 'to_edgevertexsetset', canon(s.W, f.to_edgevertexsetset())


def last(rng, F, kind):
    L = [f for k, f in F if k == kind][-4:]
    return rng.choice(L) if L else None


OPS = [op_search, op_search, op_search, op_graphs, op_graphs, op_partition, op_class, op_numbers, op_cost, op_weighted,
       op_operator, op_operator, op_operator, op_operator, op_vertices, op_vertices]


def ask(ctx, rng, envs, ops, what):
    """every configuration in turn goes through the whole program"""
    seeds = [rng.random() for _ in ops]
    base = None
    for i, mk in enumerate(envs):
        s = mk()
        ctx.log(what, 'configuration', i, s.K.how if hasattr(s.K, 'how') else '', s.K.elems)
        F, obs = [], []
        for op, sd in zip(ops, seeds):
            r = op(Random(sd), s, F)
            obs.append(r)
            if r is not None:
                ctx.count(r[0])
        if base is None:
            base = obs
            for r in obs:
                if r is not None and isinstance(r[1], tuple) and r[1] and r[1][0] in ('members', 'counts') and r[1][1]:
                    ctx.seen(what, r)
            continue
        for j, (a, b) in enumerate(zip(base, obs)):
            ctx.checks += 1
            if (a is None) != (b is None) or a is not None and not (a[0] == b[0] and agree(a[1], b[1])):
                ctx.check(False, 'order:%s' % (a or b)[0], 'question %d (%s) is answered %s in one universe and %s in another written '
                          'as %r (%r)', j, (a or b)[0], brief(a, b), brief(b, a), s.K.elems, getattr(s.K, 'how', ''))
    ctx.count('configurations', len(envs))


def brief(a, b):
    if a is None:
        return 'not'
    x = a[1]
    if isinstance(x, tuple) and x and x[0] == 'members' and b is not None and isinstance(b[1], tuple) and b[1][0] == 'members':
        return '%d members (only here, as edge masks: %r)' % (len(x[1]), sorted(x[1] - b[1][1])[:4])
    return repr(x)[:200]


def undirected(ctx, rng, k):
    if rng.random() < .6:
        n, E = shape(rng, rng.choice([4, 8, 11]))
    else:
        n, E = rng.choice([lambda: thin_grid(rng, ((2, 7), (3, 4), (3, 5))), lambda: shape(rng, 18, 'gnp', 12),
                           lambda: shape(rng, 18, 'theta', 5), lambda: shape(rng, 16, 'bipartite', 9)])()
    g = G(n, E)
    envs = [(lambda plain=(i == 0), sd=rng.random(): env(Random(sd), n, E, g, plain)) for i in range(3)]
    ask(ctx, rng, envs, [rng.choice(OPS) for _ in range(10)], ('undirected', n, tuple(E)))


# ---------------------------------------------------------------- directed
def denv(rng, n, A, plain, noise=noise):
    s = S()
    s.n, s.m = n, len(A)
    s.L = Fresh(range(1, n + 1)) if plain else Fresh(labels(rng, n))
    if not plain:
        rng.shuffle(s.L)
        noise(rng)
    K = DiKind()
    K.edges = K.elems = [(s.L[u], s.L[v]) for u, v in A]
    K.n, K.index = len(A), {e: i for i, e in enumerate(K.elems)}
    listing = list(K.elems)
    if not plain:
        rng.shuffle(listing)
    anti = any((v, u) in K.index for u, v in listing)
    t = 'as-is' if plain else rng.choice(TRAVERSALS)
    src = rng.choice(s.L) if t != 'as-is' and rng.random() < .4 else None
    DiGraphSet.set_universe(listing, traversal=t, source=src)
    K.how = (t, src)
    s.K = K
    s.restore = lambda: DiGraphSet.set_universe(listing, traversal=t, source=src)
    return s


def dop_search(rng, s, F):
    t = rng.randrange(6)
    L = s.L
    a, b = rng.sample(range(s.n), 2)
    if t == 0:
        f = DiGraphSet.directed_cycles()
    elif t == 1:
        f = DiGraphSet.directed_st_paths(L[a], L[b], rng.random() < .3)
    elif t == 2:
        f = DiGraphSet.rooted_forests(rng.choice([None, [L[a]], [L[a], L[b]]]), rng.random() < .4)
    elif t == 3:
        f = DiGraphSet.rooted_trees(L[a], rng.random() < .4)
    elif t == 4:
        f = DiGraphSet.directed_hamiltonian_cycles()
    else:
        f = DiGraphSet.graphs(degree_dict(rng, L, s.n)[0], degree_dict(rng, L, s.n)[0])
    F.append(('G', f))
    return 'directed%d' % t, canon(s.K, f)


def dop_weights(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    c = {e: rng.randint(-5, 9) for e in s.K.elems}
    t = rng.randrange(3)
    if t == 0:
        return 'weighted', tuple(sum(c[e] for e in m) for i, m in zip(range(25), f.min_iter(c)))
    if t == 1:
        return 'probability', f.probability({e: rng.random() for e in s.K.elems})
    return 'cost', canon(s.K, f.cost_le(c, rng.randint(-5, 20)))


def directed(ctx, rng, k):
    n, A = arcs(rng, rng.choice([5, 10, 16]))
    envs = [(lambda plain=(i == 0), sd=rng.random(): denv(Random(sd), n, A, plain)) for i in range(3)]
    ops = [rng.choice([dop_search, dop_search, dop_weights, op_operator, op_operator]) for _ in range(9)]
    ask(ctx, rng, envs, ops, ('directed', n, tuple(A)))


# ------------------------------------------------------------- plain sets
def senv(rng, n, plain, noise=noise):
    s = S()
    K = SetSetKind()
    noise(rng)
    K.setup(rng, n)
    order = list(K.elems)
    if not plain:
        rng.shuffle(order)
    K.how = 'shuffled'
    reg = order if rng.random() < .6 else order[:rng.randint(1, n)]      # the rest is added when first used

    def restore():
        setset.set_universe(reg)
        if len(reg) < n:
            for e in order:
                setset([{e}])
    restore()
    s.restore = restore
    s.K, s.n = K, n
    return s


def sop_new(rng, s, F):
    K, n = s.K, s.n
    t = rng.randrange(4)
    if t == 0:
        f = K.mk([rng.getrandbits(n) & rng.getrandbits(n) for _ in range(rng.choice([1, 5, 30]))])
    elif t == 1:
        inc = rng.getrandbits(n) & rng.getrandbits(n)
        f = K.mkdict(inc, rng.getrandbits(n) & ~inc)
    elif t == 2:
        f = setset({}).set_size(rng.randint(0, n)) if n <= 30 else setset({})
    else:
        c = {e: rng.randint(0, 6) for e in K.elems}
        f = setset({}).cost_le(c, rng.randint(0, 12))
    F.append(('G', f))
    return 'new%d' % t, canon(K, f)


def sop_op(rng, s, F):
    K, f, h = s.K, last(rng, F, 'G'), last(rng, F, 'G')
    if f is None:
        return None
    e, k = K.elems[rng.randrange(s.n)], rng.randint(0, s.n)
    ops = [lambda: f | h, lambda: f & h, lambda: f - h, lambda: f ^ h, lambda: f.supersets(e), lambda: f.non_supersets(e),
           lambda: f.larger(k), lambda: f.smaller(k), lambda: f.set_size(k), lambda: f.quotient(h) if h else f,
           lambda: f.remainder(h) if h else f]
    if f.len() <= 40 and h.len() <= 40:
        ops += [lambda: f.minimal(), lambda: f.maximal(), lambda: f.join(h), lambda: f.meet(h), lambda: f.subsets(h),
                lambda: f.supersets(h), lambda: f.non_subsets(h), lambda: f.non_supersets(h)]
        if s.n <= 10:
            ops += [lambda: f.hitting(), lambda: f.add_some_element(), lambda: f.remove_some_element(),
                    lambda: f.remove_add_some_elements()]
    i = rng.randrange(len(ops))
    r = ops[i]()
    F.append(('G', r))
    return 'set-op%d' % i, canon(K, r)


def sop_flip(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    f = f.copy()
    for i in rng.sample(range(s.n), min(3, s.n)):
        f.flip(s.K.elems[i])
    F.append(('G', f))
    return 'flip', canon(s.K, f)


def sop_weights(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    w = {e: rng.randint(-5, 9) for e in s.K.elems}
    if rng.random() < .5:
        return 'probability', f.probability({e: rng.random() for e in s.K.elems})
    return 'weighted', tuple(sum(w[e] for e in m) for i, m in zip(range(25), f.max_iter(w)))


def sets(ctx, rng, k):
    n = rng.choice([3, 8, 10, 24, 60])
    envs = [(lambda plain=(i == 0), sd=rng.random(): senv(Random(sd), n, plain)) for i in range(3)]
    ops = [sop_new, sop_new] + [rng.choice([sop_new, sop_op, sop_op, sop_op, sop_flip, sop_weights]) for _ in range(9)]
    ask(ctx, rng, envs, ops, ('sets', n))


def case(ctx, rng, k):
    r = rng.random()
    (undirected if r < .65 else directed if r < .82 else sets)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
