"""C26: with converters installed, graph objects of another library go in
wherever an edge list may and come out wherever an edge list would; the same
program of questions is run with edge lists and with the objects."""
from random import Random
from ..fam import *
from ..gmodel import G
from .directed import arcs
from .relab import (env, denv, ask, canon, last, op_search, op_graphs, op_partition, op_class, op_numbers, op_cost, op_operator,
                    op_vertices, dop_search)
try:
    import networkx as nx
except ImportError:
    nx = None


class Lib(object):
    """a graph library: its type, make(edges, weights), edges(graph), and the
    two converters a user would install for it"""
    weighted = False

    def check(self, g):
        return isinstance(g, self.type)


class Foreign(object):
    """a graph class that is no container of tuples"""
    def __init__(self, table):
        self.table = dict(table)

    def __len__(self):
        return len(set(v for e in self.table for v in e))


class Own(Lib):
    type = Foreign

    def __init__(self, rng, directed, weighted):
        self.rng, self.directed, self.weighted = rng, directed, weighted
        self.form = rng.choice([list, list, tuple, iter])

    def make(self, edges, weights=None):
        return Foreign({tuple(e[:2]): (weights[i] if weights is not None else None) for i, e in enumerate(edges)})

    def edges(self, g):
        return list(g.table)

    def to_edges(self, g):
        out = [e + (w,) if w is not None else e for e, w in g.table.items()]
        return self.form(out)

    def to_graph(self, edges):
        return Foreign({tuple(e[:2]): (e[2] if len(e) > 2 else None) for e in edges})

    def weight(self, g, e):
        return g.table.get(e, g.table.get((e[1], e[0])))


class NX(Lib):
    """NetworkX, as README.md says to install it"""
    def __init__(self, rng, directed):
        self.directed = directed
        self.type = nx.DiGraph if directed else nx.Graph
        self.to_edges = nx.to_edgelist
        self.to_graph = (lambda e: nx.from_edgelist(e, create_using=nx.DiGraph)) if directed else nx.from_edgelist

    def make(self, edges, weights=None):
        g = self.type()
        g.add_edges_from(edges)
        return g

    def edges(self, g):
        return list(g.edges())


class LibKind(object):
    """a Kind whose members are objects of the library"""
    lib = None

    def _mask(self, edges):
        m = 0
        for e in edges:
            m |= 1 << (self.index[e] if e in self.index or self.lib.directed else self.index[(e[1], e[0])])
        return m

    def tomask(self, member):
        if not self.lib.check(member):
            raise Violation('type', 'a graph comes back as %r, to_graph gives %s' % (member, self.lib.type.__name__))
        return self._mask(self.lib.edges(member))

    def member(self, mask, rng=None):
        E = [self.elems[i] for i in bits(mask)]
        if rng is not None:
            rng.shuffle(E)
            if not self.lib.directed:
                E = [(v, u) if rng.random() < .4 else (u, v) for u, v in E]
            if rng.random() < .1:           # a plain edge list is still one
                return rng.choice([list, set])(E)
        return self.lib.make(E)


class LibGraph(LibKind, GraphKind):
    pass


class LibDi(LibKind, DiKind):
    pass


def install(rng, cls, s, lib, weights):
    """the universe of s, registered through an object of the library"""
    K = s.K
    cls.converters['to_edges'], cls.converters['to_graph'] = lib.to_edges, lib.to_graph
    listing = list(K.elems)
    rng.shuffle(listing)
    obj = lib.make(listing, None if weights is None else [weights[K.index[e]] for e in listing])
    given = [tuple(e) for e in lib.edges(obj)]
    t = K.how[0]
    cls.set_universe(obj, traversal=t, source=K.how[1])
    new = [None] * K.n
    for e in given:
        new[K.index[e] if e in K.index else K.index[(e[1], e[0])]] = e
    K2 = (LibDi if lib.directed else LibGraph)()
    K2.__dict__.update(K.__dict__)
    K2.elems = K2.edges = new
    K2.index = {e: i for i, e in enumerate(new)}
    K2.lib = lib
    s.K, s.listing = K2, given
    if not lib.directed:
        s.W.elems = list(s.L) + new
        s.W.index = {x: i for i, x in enumerate(s.W.elems)}
    return s


def tried(op):
    """with objects, a question that raises has no answer"""
    def ask_it(rng, s, F):
        if not isinstance(s.K, LibKind):
            return op(rng, s, F)
        try:
            return op(rng, s, F)
        except (Violation, TimeoutError, MemoryError):
            raise
        except Exception as e:
            raise Violation('raises:%s' % op.__name__, 'with edge lists this question has an answer; with graph objects it raises %s: %s'
                            % (type(e).__name__, str(e)[:200]))
    ask_it.__name__ = op.__name__
    return ask_it


# ------------------------------------------------------------- questions
def masks_for(rng, s, F):
    n = s.K.n
    f = last(rng, F, 'G')
    out = [rng.getrandbits(n) & rng.getrandbits(n) for _ in range(4)] + [0, (1 << n) - 1]
    if f is not None and 0 < f.len() < 200:
        out += sorted(s.K.masks(f))[:40]
    return out


def obj_make(rng, s, F):
    n = s.K.n
    M = set(rng.getrandbits(n) & (rng.getrandbits(n) if rng.random() < .5 else -1) for _ in range(rng.choice([1, 2, 6, 25])))
    if rng.random() < .3:
        M.add(0)
    mr = Random(rng.random())
    f = s.K.cls(rng.choice([list, list, set])([]) if not M else [s.K.member(m, mr) for m in sorted(M)])
    F.append(('G', f))
    return 'constructor', canon(s.K, f)


def obj_in(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    M = masks_for(rng, s, F)
    mr = Random(rng.random())
    return 'membership', tuple(s.K.member(m, mr) in f for m in M)


def obj_update(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    f = f.copy()
    M = masks_for(rng, s, F)
    mr = Random(rng.random())
    out = []
    for _ in range(rng.randint(1, 6)):
        m, t = rng.choice(M), rng.randrange(4)
        g = s.K.member(m, mr)
        if t == 0:
            f.add(g)
        elif t == 1:
            f.discard(g)
        elif t == 2:
            try:
                f.remove(g)
                out.append('removed')
            except KeyError:
                out.append('absent')
        elif f.len():
            f.flip(s.K.elems[m % s.K.n])
    F.append(('G', f))
    return 'updates', ('counts', tuple(out), canon(s.K, f))


def obj_related(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    m = rng.choice(masks_for(rng, s, F))
    g = s.K.member(m, Random(rng.random()))
    name = rng.choice(['including', 'excluding', 'included', 'included', 'including', 'including'])
    if rng.random() < .3 and name != 'included':
        g = s.L[rng.randrange(s.n)]
    elif rng.random() < .2 and name != 'included':
        g = s.K.elems[m % s.K.n]
    r = getattr(f, name)(g)
    F.append(('G', r))
    return name, canon(s.K, r)


def obj_pick(rng, s, F):
    f = last(rng, F, 'G')
    if f is None or not f.len():
        return None
    K = s.K
    good = []
    for g in [f.choice()] + [x for _, x in zip(range(4), f.rand_iter())] + [x for _, x in zip(range(4), f)]:
        K.tomask(g)
        good.append(g in f)
    h = f.copy()
    g = h.pop()
    K.tomask(g)
    return 'picks', (all(good), g in f, g not in h, h.len())


def obj_weighted(rng, s, F):
    f = last(rng, F, 'G')
    if f is None:
        return None
    K = s.K
    w = [rng.randint(-5, 9) for _ in range(K.n)]
    t = rng.randrange(3)
    if t == 0:
        it = (f.max_iter if rng.random() < .5 else f.min_iter)({K.elems[i]: w[i] for i in range(K.n)})
    else:
        it = (f.max_iter if rng.random() < .5 else f.min_iter)()     # the weights of the universe
        w = s.weights
    return 'weighted', tuple(sum(w[i] for i in bits(K.tomask(g))) for _, g in zip(range(30), it))


def obj_universe(rng, s, F):
    K = s.K
    u = K.cls.universe()
    lib = getattr(K, 'lib', None)
    if lib is None:
        return 'universe', (K.tomask([e[:2] for e in u]), tuple(s.weights))
    m = K.tomask(u)
    if lib.weighted:
        return 'universe', (m, tuple(1 if lib.weight(u, e) is None else lib.weight(u, e) for e in K.elems))
    return 'universe', (m, tuple(s.weights))


OPS = [op_search, op_search, op_graphs, op_graphs, op_partition, op_class, op_class, op_numbers, op_cost, op_operator, op_operator, op_operator,
       op_vertices, obj_make, obj_make, obj_in, obj_in, obj_update, obj_update, obj_related, obj_related, obj_pick, obj_pick, obj_weighted,
       obj_weighted, obj_universe]
DOPS = [dop_search, dop_search, op_cost, op_operator, op_operator, obj_make, obj_make, obj_in, obj_update, obj_update, obj_related,
        obj_related, obj_pick, obj_weighted, obj_universe]


def case(ctx, rng, k):
    directed = rng.random() < .3
    cls = DiGraphSet if directed else GraphSet
    before = dict(cls.converters)
    quiet = lambda r: None
    use = 'networkx' if nx is not None and rng.random() < .5 else 'own'
    if directed:
        n, A = arcs(rng, rng.choice([5, 10, 14]))
    else:
        n, A = shape(rng, rng.choice([4, 8, 11, 15]))
    g = G(n, A) if not directed else None
    weighted = use == 'own' and rng.random() < .6
    W = [rng.choice([None, None, 0, -3, 7, 2]) if rng.random() < .7 else rng.randint(-9, 9) for _ in A] if weighted else None
    sd, sd2 = rng.random(), rng.random()

    def start(plain, r):
        s = denv(r, n, A, plain, quiet) if directed else env(r, n, A, g, plain, quiet)
        s.weights = [1 if W is None or w is None else w for w in (W or [None] * len(A))]
        return s

    def lists():
        cls.converters.clear()
        cls.converters.update(before)
        s = start(True, Random(sd))
        if W is not None:
            cls.set_universe([e + (w,) if w is not None else e for e, w in zip(s.K.elems, W)], traversal='as-is')
        return s

    def objects():
        cls.converters.clear()
        cls.converters.update(before)
        r = Random(sd2)
        s = start(False, r)
        lib = NX(r, directed) if use == 'networkx' else Own(r, directed, weighted)
        return install(r, cls, s, lib, W)

    ops = [rng.choice(DOPS if directed else OPS) for _ in range(12)]
    try:
        ask(ctx, rng, [lists, objects], [tried(op) for op in [obj_make] + ops], (use, directed, n, tuple(A)))
    finally:
        cls.converters.clear()
        cls.converters.update(before)
    ctx.count(use + (' directed' if directed else ''))


def session(ctx):
    prelude(ctx)
    ctx.run(case)
