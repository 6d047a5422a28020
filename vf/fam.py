"""Uniform drivers for the five collection types, and graph generators.

A Kind fixes a universe of n elements (element i <-> bit i of a mask, in the
order of K.elems, whatever order the library chose) and translates between
masks and the library's presentations.
"""
import random as _random
from itertools import combinations

import graphillion
from graphillion import GraphSet, DiGraphSet, VertexSetSet, EdgeVertexSetSet
from graphillion import setset
from graphillion.universe import Universe
from .core import Violation


def bits(mask):
    out, i = [], 0
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return out


def popcount(m):
    return bin(m).count('1')


# ---------------------------------------------------------------- graphs
def labels(rng, n, style=None):
    """n distinct, mutually comparable vertex labels"""
    style = style or rng.choice(['seq', 'seq', 'int', 'neg', 'str', 'text', 'tuple', 'tuples', 'twin'])
    if style == 'seq':
        L = list(range(1, n + 1))
    elif style == 'int':
        L = rng.sample(range(0, 10 * n + 5), n)
    elif style == 'neg':
        L = rng.sample(range(-5 * n, 5 * n), n)
    elif style == 'str':
        L = []
        while len(L) < n:
            s = ''.join(rng.choice('abcXYZ_019') for _ in range(rng.randint(1, 6)))
            if s not in L:
                L.append(s)
    elif style == 'text':
        L = []
        while len(L) < n:
            s = ''.join(rng.choice([',', ' ', ', ', "'", '"', '\n', '\\', 'a', 'b', '\u4e16', '(', '1']) for _ in range(rng.randint(1, 5)))
            if s not in L:
                L.append(s)
    elif style == 'twin':
        L = []
        while len(L) < n:
            s = 'v%d' % rng.randrange(3 * n)
            t = (s, s) if rng.random() < .7 else (s, 'v%d' % rng.randrange(3 * n))
            if t not in L:
                L.append(t)
    elif style == 'tuple':
        L = []
        while len(L) < n:
            t = (rng.randrange(-2, n), rng.randrange(n))
            if t not in L:
                L.append(t)
    else:
        L = []
        while len(L) < n:
            t = (rng.randrange(3), 'v%d' % rng.randrange(n), rng.randrange(2))
            if t not in L:
                L.append(t)
    return L


def shape(rng, maxm, kind=None, minm=1):
    """edge list over vertices 0..n-1, simple, m <= maxm, no isolated vertex"""
    for _ in range(200):
        k = kind or rng.choice(['gnp', 'gnp', 'gnp', 'grid', 'complete', 'cycle', 'path', 'star', 'tree',
                                'bipartite', 'two', 'wheel', 'theta', 'ladder'])
        E = []
        if k == 'gnp':
            n = rng.randint(2, max(2, min(8, maxm)))
            al = [(i, j) for i in range(n) for j in range(i + 1, n)]
            p = rng.choice([.3, .5, .7, .9])
            E = [e for e in al if rng.random() < p]
        elif k == 'grid':
            a, b = rng.randint(1, 4), rng.randint(2, 4)
            for i in range(a):
                for j in range(b):
                    if i + 1 < a:
                        E.append((i * b + j, (i + 1) * b + j))
                    if j + 1 < b:
                        E.append((i * b + j, i * b + j + 1))
        elif k == 'complete':
            n = rng.randint(2, 6)
            E = list(combinations(range(n), 2))
        elif k == 'cycle':
            n = rng.randint(3, max(3, min(10, maxm)))
            E = [(i, (i + 1) % n) for i in range(n)]
        elif k == 'path':
            n = rng.randint(2, maxm + 1)
            E = [(i, i + 1) for i in range(n - 1)]
        elif k == 'star':
            n = rng.randint(2, maxm + 1)
            E = [(0, i) for i in range(1, n)]
        elif k == 'tree':
            n = rng.randint(2, maxm + 1)
            E = [(rng.randrange(i), i) for i in range(1, n)]
        elif k == 'bipartite':
            a, b = rng.randint(1, 4), rng.randint(1, 4)
            E = [(i, a + j) for i in range(a) for j in range(b) if rng.random() < .85]
        elif k == 'two':
            A = shape(rng, max(1, maxm // 2))[1]
            B = shape(rng, max(1, maxm // 2))[1]
            o = max(max(e) for e in A) + 1
            E = A + [(u + o, v + o) for u, v in B]
        elif k == 'wheel':
            n = rng.randint(3, 6)
            E = [(i, (i + 1) % n) for i in range(n)] + [(i, n) for i in range(n)]
        elif k == 'theta':
            E, nxt = [], 2
            for _ in range(rng.randint(2, 3)):
                prev = 0
                for _ in range(rng.randint(1, 2)):
                    E.append((prev, nxt)); prev = nxt; nxt += 1
                E.append((prev, 1))
            if rng.random() < .5:
                E.append((0, 1))
        elif k == 'ladder':
            n = rng.randint(2, 4)
            E = [(2 * i, 2 * i + 1) for i in range(n)] + [(2 * i, 2 * i + 2) for i in range(n - 1)] + \
                [(2 * i + 1, 2 * i + 3) for i in range(n - 1)]
        if not (minm <= len(E) <= maxm):
            if k in ('gnp', 'complete', 'wheel', 'bipartite', 'grid', 'ladder', 'theta') and len(E) > maxm:
                rng.shuffle(E)
                E = E[:rng.randint(max(minm, maxm - 3), maxm)]
            else:
                continue
        vs = sorted(set(v for e in E for v in e))
        ix = {v: i for i, v in enumerate(vs)}
        return len(vs), [(ix[u], ix[v]) for u, v in E]
    return 2, [(0, 1)]


def thin_grid(rng, sizes=((3, 8), (4, 6), (4, 9), (3, 20), (5, 6))):
    """a grid graph whose edges are listed so that searches stay small"""
    a, b = rng.choice(sizes)
    E = []
    for j in range(b):
        for i in range(a):
            if i:
                E.append((j * a + i - 1, j * a + i))
            if j:
                E.append((j * a - a + i, j * a + i))
    return a * b, E


def relabel(rng, n, E, style=None, flipdir=True, shuffle=True):
    L = labels(rng, n, style)
    out = []
    for u, v in E:
        a, b = L[u], L[v]
        if flipdir and rng.random() < .5:
            a, b = b, a
        out.append((a, b))
    if shuffle:
        rng.shuffle(out)
    return L, out


TRAVERSALS = ['greedy', 'greedy', 'bfs', 'dfs', 'as-is']


def set_graph_universe(rng, edges, weights=None, traversal=None, source=None, **kw):
    """GraphSet.set_universe with a random traversal; returns what was used"""
    t = traversal or rng.choice(TRAVERSALS)
    s = source
    if s is None and t != 'as-is' and rng.random() < .4:
        s = rng.choice(sorted(set(v for e in edges for v in e)))
    uni = [e + (weights[i],) if weights is not None and weights[i] is not None else e
           for i, e in enumerate(edges)]
    GraphSet.set_universe(uni, traversal=t, source=s, **kw)
    return t, s


# ----------------------------------------------------------------- kinds
class Kind(object):
    name = '?'
    has_quotient = True
    has_flip = True
    join_closed = True

    def full(self):
        return (1 << self.n) - 1

    def tomask(self, member):
        m = 0
        ix = self.index
        for e in member:
            try:
                b = 1 << ix[e]
            except (KeyError, TypeError):
                raise Violation('foreign-element', 'a returned member %r holds %r, which is not written so in '
                                'the universe %r' % (member, e, self.elems))
            if m & b:
                raise Violation('repeated-element', 'a returned member %r repeats %r' % (member, e))
            m |= b
        return m

    def masks(self, obj, limit=None):
        out = set()
        k = 0
        for mem in obj:
            m = self.tomask(mem)
            if m in out:
                raise Violation('duplicate-member', 'iteration yields %r twice' % (mem,))
            out.add(m)
            k += 1
            if limit is not None and k > limit:
                raise Violation('too-many-members', 'iteration yields more than %d members' % limit)
        return out

    def raw(self, mask):
        return [self.elems[i] for i in bits(mask)]

    def member(self, mask, rng=None):
        L = [self.elem(i, rng) for i in bits(mask)]
        if rng is None:
            return L
        rng.shuffle(L)
        t = rng.randrange(3)
        return L if t == 0 else set(L) if t == 1 else frozenset(L)

    def elem(self, i, rng=None):
        return self.elems[i]

    def mk(self, masks, rng=None):
        ms = list(masks)
        if rng:
            rng.shuffle(ms)
        L = [self.member(m, rng) for m in ms]
        if rng and L and rng.random() < .3:
            L.append(self.member(ms[0], rng))      # duplicates are merged
        return self.cls(L)

    def copy(self, obj):
        return obj.copy()

    def subsets_of(self, a, b): return a.subgraphs(b)
    def supersets_of(self, a, b): return a.supergraphs(b)
    def non_subsets_of(self, a, b): return a.non_subgraphs(b)
    def non_supersets_of(self, a, b): return a.non_supergraphs(b)
    def exact(self, a, k): return a.graph_size(k)
    def hitting(self, a): return a.blocking()
    def comp(self, a): return a.complement()
    def quotient(self, a, b): return a.quotient(b)
    def remainder(self, a, b): return a.remainder(b)
    def flip(self, a, i, rng): return a.flip(self.elem(i, rng))
    def including(self, a, x): return a.including(x)
    def excluding(self, a, x): return a.excluding(x)
    def included(self, a, x): return a.included(x)


class SetSetKind(Kind):
    name = 'setset'
    cls = setset

    def setup(self, rng, n, style=None):
        self.n = n
        st = style or rng.choice(['int', 'str', 'tuple', 'mixed'])
        if st == 'int':
            E = rng.sample(range(-100, 3000), n)
        elif st == 'str':
            E = ['s%d' % i for i in rng.sample(range(3000), n)]
        elif st == 'tuple':
            E = [(i, 't') for i in rng.sample(range(3000), n)]
        else:
            pool = rng.sample(range(3000), n)
            E = [rng.choice([lambda i: i, lambda i: 'x%d' % i, lambda i: (i, i + 1), lambda i: frozenset([i]) and (i,),
                             lambda i: i + .5])(i) for i in pool]
        self.elems = E
        self.index = {e: i for i, e in enumerate(E)}
        setset.set_universe(E)
        return self

    def member(self, mask, rng=None):
        L = Kind.member(self, mask, rng)
        return L if isinstance(L, (set, frozenset)) else set(L)

    def mk(self, masks, rng=None):
        ms = list(masks)
        if rng:
            rng.shuffle(ms)
        L = [rng.choice([set, frozenset, list, tuple])(self.raw(m)) if rng else set(self.raw(m)) for m in ms]
        return setset(L)

    def mkdict(self, inc, exc, rng=None):
        return setset({'include': self.raw(inc), 'exclude': self.raw(exc)})

    def subsets_of(self, a, b): return a.subsets(b)
    def supersets_of(self, a, b): return a.supersets(b)
    def non_subsets_of(self, a, b): return a.non_subsets(b)
    def non_supersets_of(self, a, b): return a.non_supersets(b)
    def exact(self, a, k): return a.set_size(k)
    def hitting(self, a): return a.hitting()
    def comp(self, a):
        c = a.copy()
        c.flip()
        return c
    def including(self, a, x): return a.supersets(x)
    def excluding(self, a, x): return a.non_supersets(x)
    def included(self, a, x): return a.subsets(x)


class GraphKind(Kind):
    name = 'GraphSet'
    cls = GraphSet

    def setup(self, rng, n, style=None, kind=None, traversal=None):
        nv, E = shape(rng, n, kind, minm=max(1, n - 3))
        self.L, edges = relabel(rng, nv, E, style)
        return self.adopt(rng, edges, traversal)

    def adopt(self, rng, edges, traversal=None):
        self.edges = list(edges)
        self.elems = self.edges
        self.n = len(edges)
        self.index = {e: i for i, e in enumerate(edges)}
        self.vertices = sorted(set(v for e in edges for v in e))
        self.how = set_graph_universe(rng, edges, traversal=traversal)
        return self

    def reset(self, rng):
        self.how = set_graph_universe(rng, self.edges)

    def elem(self, i, rng=None):
        u, v = self.elems[i]
        return (v, u) if rng is not None and rng.random() < .4 else (u, v)

    def incident(self, v):
        return sum(1 << i for i, e in enumerate(self.elems) if v in e)

    def mkdict(self, inc, exc, rng=None):
        return GraphSet({'include': [self.elem(i, rng) for i in bits(inc)],
                         'exclude': [self.elem(i, rng) for i in bits(exc)]})


class DiKind(Kind):
    name = 'DiGraphSet'
    cls = DiGraphSet

    def setup(self, rng, n, style=None, anti=True):
        nv = rng.randint(2, 5)
        al = [(i, j) for i in range(nv) for j in range(nv) if i != j]
        rng.shuffle(al)
        E = al[:n]
        if not anti:
            S = set()
            E = [e for e in E if not ((e[1], e[0]) in S or S.add(e))]
        vs = sorted(set(v for e in E for v in e))
        ix = {v: i for i, v in enumerate(vs)}
        L, edges = relabel(rng, len(vs), [(ix[u], ix[v]) for u, v in E], style, flipdir=False)
        return self.adopt(rng, edges)

    def adopt(self, rng, edges):
        self.elems = self.edges = list(edges)
        self.n = len(edges)
        self.index = {e: i for i, e in enumerate(edges)}
        self.vertices = sorted(set(v for e in edges for v in e))
        self.reset(rng)
        return self

    def reset(self, rng):
        anti = any((v, u) in self.index for u, v in self.edges)
        t = rng.choice(['greedy', 'as-is'] if anti else TRAVERSALS)
        s = rng.choice(self.vertices) if t != 'as-is' and rng.random() < .3 else None
        DiGraphSet.set_universe(self.edges, traversal=t, source=s)
        self.how = (t, s)

    def incident(self, v):
        return sum(1 << i for i, e in enumerate(self.elems) if v in e)

    def mkdict(self, inc, exc, rng=None):
        return DiGraphSet({'include': self.raw(inc), 'exclude': self.raw(exc)})


class VertexKind(Kind):
    name = 'VertexSetSet'
    cls = VertexSetSet

    def setup(self, rng, n, style=None):
        if rng.random() < .5:
            # vertex universe that comes with a graph universe
            for _ in range(50):
                nv, E = shape(rng, 2 * n)
                if nv == n:
                    break
            else:
                nv, E = n, [(i, i + 1) for i in range(n - 1)] if n > 1 else [(0, 1)]
                nv = max(n, 2)
            L, edges = relabel(rng, nv, E, style)
            set_graph_universe(rng, edges)
            self.elems = L
        else:
            L = labels(rng, n, style if style else rng.choice(['seq', 'int', 'neg', 'str']))
            GraphSet.set_universe([(1, 2)])
            VertexSetSet.set_universe(L)
            self.elems = L
        self.n = len(self.elems)
        self.index = {e: i for i, e in enumerate(self.elems)}
        return self

    def mkdict(self, inc, exc, rng=None):
        return VertexSetSet({'include': self.raw(inc), 'exclude': self.raw(exc)})


class EVKind(Kind):
    """edge-vertex sets: elements are vertices and edges; a member given to the
    constructor holds the endpoints of its edges"""
    name = 'EdgeVertexSetSet'
    cls = EdgeVertexSetSet
    has_quotient = False
    has_flip = False

    def setup(self, rng, n, style=None):
        m = max(1, n // 2)
        nv, E = shape(rng, m)
        L, edges = relabel(rng, nv, E, style or rng.choice(['seq', 'int', 'neg', 'str']))
        self.edges = edges
        set_graph_universe(rng, edges)
        self.vs = sorted(L)
        self.elems = self.vs + edges
        self.n = len(self.elems)
        self.index = {e: i for i, e in enumerate(self.elems)}
        self.nv = len(self.vs)
        self.close = {}
        for i, e in enumerate(edges):
            self.close[self.nv + i] = (1 << self.index[e[0]]) | (1 << self.index[e[1]])
        return self

    def closure(self, mask):
        for i, c in self.close.items():
            if mask >> i & 1:
                mask |= c
        return mask

    def member(self, mask, rng=None):
        L = [self.elems[i] for i in bits(mask)]
        if rng:
            rng.shuffle(L)
            # an edge may be written in either direction
            L = [((x[1], x[0]) if isinstance(x, tuple) and rng.random() < .3 else x) for x in L]
            return rng.choice([list, set, frozenset])(L)
        return L


KINDS = {k.name: k for k in (SetSetKind, GraphKind, DiKind, VertexKind, EVKind)}


def random_masks(rng, n, k=None, shape_=None):
    """a family of masks with varied structure"""
    full = (1 << n) - 1
    s = shape_ or rng.choice(['rand', 'rand', 'rand', 'sparse', 'dense', 'empty', 'unit', 'power', 'chain',
                              'size', 'single', 'interval', 'few'])
    if s == 'empty':
        return set()
    if s == 'unit':
        return {0}
    if s == 'power':
        return set(range(full + 1)) if n <= 7 else set(rng.randrange(full + 1) for _ in range(100))
    if s == 'chain':
        m, out = 0, {0}
        p = list(range(n))
        rng.shuffle(p)
        for i in p:
            m |= 1 << i
            if rng.random() < .8:
                out.add(m)
        return out
    if s == 'size':
        t = rng.randint(0, n)
        out = set()
        for c in combinations(range(n), t):
            if len(out) > 120:
                break
            if rng.random() < .7:
                out.add(sum(1 << i for i in c))
        return out
    if s == 'single':
        return {rng.randrange(full + 1)}
    if s == 'interval':
        lo = rng.randrange(full + 1) & rng.randrange(full + 1)
        hi = lo | rng.randrange(full + 1)
        free = bits(hi & ~lo)[:7]
        out = set()
        for x in range(1 << len(free)):
            out.add(lo | sum(1 << f for j, f in enumerate(free) if x >> j & 1))
        return out
    if s == 'few':
        return set(rng.randrange(full + 1) for _ in range(rng.randint(1, 4)))
    p = {'rand': .4, 'sparse': .1, 'dense': .9}[s]
    if n <= 7:
        return set(m for m in range(full + 1) if rng.random() < p)
    return set(rng.randrange(full + 1) for _ in range(int(10 + 90 * p)))


def prelude(ctx):
    """Half of the sessions begin after the process has used a larger universe
    (the store then has more variables than the universe has elements)."""
    rng = ctx.rng_for('prelude')
    n = rng.choice([0, 0, 0, 5, 17, 64, 300])
    if n:
        setset.set_universe(['pre%d' % i for i in range(n)])
        ctx.count('sessions after a universe of %d' % n)
