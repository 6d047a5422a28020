"""Random public calls with valid and invalid arguments, for every class.

A World holds one universe per collection type and some families; call() makes
one call description: (name, thunk, what it may change)."""
import _graphillion, io, os, tempfile
from .fam import *
from graphillion.graphclass import GraphClass

FAM1 = ['union', 'intersection', 'difference', 'symmetric_difference', 'update', 'intersection_update', 'difference_update',
        'symmetric_difference_update']
REL = ['issubset', 'issuperset', 'isdisjoint', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__']
BIN = ['__or__', '__and__', '__sub__', '__xor__', '__truediv__', '__mod__', '__ior__', '__iand__', '__isub__', '__ixor__',
       '__itruediv__', '__imod__']
NONE = ['copy', 'clear', 'pop', 'choice', 'minimal', 'maximal', 'rand_iter', 'dumps', '__iter__', '__len__', '__bool__', '__repr__',
        '__invert__', 'len', '__hash__', '__str__', '__copy__', '__deepcopy__', '__reduce__', '__call__', '__length_hint__', '__next__']
CHANGE = set(['update', 'intersection_update', 'difference_update', 'symmetric_difference_update', '__ior__', '__iand__', '__isub__',
              '__ixor__', '__itruediv__', '__imod__', 'clear', 'pop', 'add', 'remove', 'discard', 'flip', 'quotient_update',
              'remainder_update', 'flip_all', 'invert', 'add_vertex', '__init__'])
RBIN = ['__ror__', '__rand__', '__rsub__', '__rxor__', '__rtruediv__', '__rmod__']
COMMON = dict([(n, ['fam*']) for n in FAM1] + [(n, ['fam']) for n in REL + BIN + RBIN] + [(n, []) for n in NONE])
COMMON.update({'join': ['fam'], 'meet': ['fam'], 'quotient': ['fam'], 'remainder': ['fam'], 'quotient_update': ['fam'],
               'remainder_update': ['fam'], 'len': ['int?'], 'larger': ['int'], 'smaller': ['int'], 'min_iter': ['weights?'],
               'max_iter': ['weights?'], 'probability': ['probs'], 'cost_le': ['costs', 'int'], 'cost_ge': ['costs', 'int'],
               'cost_eq': ['costs', 'int'], '__contains__': ['member'], 'add': ['member'], 'remove': ['member'], 'discard': ['member'],
               'flip': ['elem?'], 'dump': ['file'], '__init__': ['ctor?'], '__getitem__': ['int'],
               '__getattribute__': ['name']})
SETSET = dict(COMMON, subsets=['fam'], supersets=['elem|fam'], non_subsets=['fam'], non_supersets=['elem|fam'], set_size=['int'],
              hitting=[], complement=['small?'], invert=['small?'], flip_all=['small'], rename=['ints'], add_some_element=[],
              remove_some_element=[], remove_add_some_elements=[], iter=[], _enum=['file'], _enums=[], to_vertexsetset=[],
              to_edgevertexsetset=[])
GRAPHS = dict(COMMON, subgraphs=['fam'], supergraphs=['fam'], non_subgraphs=['fam'], non_supergraphs=['fam'], graph_size=['int'],
              including=['elem|fam'], excluding=['elem|fam'], included=['elem|fam'], blocking=[], hitting=[], complement=[])
SPEC = {
    'setset': SETSET,
    'GraphSet': dict(GRAPHS, to_vertexsetset=[], to_edgevertexsetset=[], add_some_edge=[], remove_some_edge=[], remove_add_some_edges=[]),
    'DiGraphSet': dict(GRAPHS, add_some_edge=[], remove_some_edge=[], remove_add_some_edges=[]),
    'VertexSetSet': dict(GRAPHS, add_some_vertex=[], remove_some_vertex=[], remove_add_some_vertices=[]),
    'EdgeVertexSetSet': dict(GRAPHS, add_vertex=['vertex'])}
gs = 'fam?'
STATIC = {
    'setset': dict(loads=['text'], load=['file'], universe=[], set_universe=['suniverse'], get_vertices_from_top=['int']),
    'GraphSet': dict(
        b_matchings=['vdict', gs], balanced_partitions=['vdict?', 'float?', 'int?', 'int?', 'int?'], bicliques=['small', 'small', gs],
        bipartite_graphs=['bool?', gs], cliques=['small', gs], connected_components=['verts', gs], cycles=['bool?', gs],
        degree_distribution_graphs=['dist', 'bool', gs], f_factors=['vdict', gs], forbidden_induced_subgraphs=['fam?'],
        forests=['verts', 'bool?', gs], graphs=['groups?', 'degrees?', 'range?', 'bool?', gs, 'linear?'], induced_graphs=[],
        k_factors=['small', gs], k_matchings=['small', gs], letter_P_graphs=[gs], load=['file'], loads=['text'], matchings=[gs],
        partitions=['int?', 'int?'], paths=['vertex?', 'vertex?', 'bool?', gs], perfect_matchings=[gs],
        regular_bipartite_graphs=['range?', 'bool?', gs], regular_graphs=['range?', 'bool?', gs], reliability=['probs', 'verts'],
        set_universe=['universe', 'traversal?', 'vertex?'], steiner_cycles=['verts', gs], steiner_paths=['verts', gs],
        steiner_subgraphs=['verts', gs], steiner_trees=['verts', gs], trees=['vertex?', 'bool?', gs], universe=[],
        weighted_induced_graphs=['vdict?', 'int?', 'int?'], show_messages=['bool?'], omp_get_max_threads=[], omp_get_num_procs=[],
        omp_get_num_threads=[], omp_set_num_threads=['threads'], chordal_graphs=[], DegreeDistribution_Any=[]),
    'DiGraphSet': dict(
        directed_cycles=[gs], directed_hamiltonian_cycles=[gs], directed_st_paths=['vertex', 'vertex', 'bool?', gs],
        graphs=['degrees?', 'degrees?', gs], load=['file'], loads=['text'], rooted_forests=['verts?', 'bool?', gs],
        rooted_trees=['vertex', 'bool?', gs], set_universe=['universe', 'traversal?', 'vertex?'], universe=[], show_messages=['bool?']),
    'VertexSetSet': dict(
        cliques=['gedges'], dominating_sets=['gedges', 'small?'], independent_sets=['gedges', 'small?'], vertex_covers=['gedges'], load=['file'],
        loads=['text'], set_universe=['vuniverse?'], universe=[], show_messages=['bool?']),
    'EdgeVertexSetSet': dict(load=['file'], loads=['text'], reliability=['probs', 'verts'], show_messages=['bool?']),
    'GraphClass': dict((n, []) for n in dir(GraphClass) if n.endswith('graphs')),
    'Universe': dict(edge_universe=[], vertex_universe=[], edge_vertex_universe=[],
                     set_universe=['universe', 'traversal?', 'vertex?', 'vdict?', 'verts?'], set_vertex_universe=['vuniverse', 'vdict?', 'bool?'])}
CLASSES = {'setset': setset, 'GraphSet': GraphSet, 'DiGraphSet': DiGraphSet, 'VertexSetSet': VertexSetSet, 'EdgeVertexSetSet': EdgeVertexSetSet,
           'GraphClass': GraphClass, 'Universe': Universe}
UNIVERSE_CALLS = set(['set_universe', 'set_vertex_universe', 'set_num_threads'])


class Evil(object):
    """an object whose special methods fail or lie"""
    def __init__(self, how):
        self.how = how

    def _do(self, r):
        if self.how == 'raise':
            raise RuntimeError('evil')
        return r

    def __iter__(self): return self._do(iter([self, 1]))
    def __len__(self): return self._do(10 ** 6)
    def __hash__(self): return self._do(5)
    def __eq__(self, o): return self._do(True)
    def __index__(self): return self._do(1 << 40)
    def __float__(self): return self._do(float('nan'))
    def __getitem__(self, i): return self._do(self)
    def __str__(self): return self._do('\0\n')
    def __repr__(self): return '<evil %s>' % self.how
    def keys(self): return self._do([1, 2])
    def items(self): return self._do([(1, 2)])
    def fileno(self): return self._do(-5)


def garbage(rng, W, depth=0):
    t = rng.randrange(30)
    g = lambda: garbage(rng, W, depth + 1) if depth < 3 else None
    if t == 0: return None
    if t == 1: return rng.choice([-1, -2, -2 ** 31, -2 ** 63, -2 ** 70])
    if t == 2: return rng.choice([2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70])
    if t == 3: return rng.choice([0.0, 1.5, -0.0, float('nan') if W.lies else 2.5, float('inf'), -float('inf'), 1e300])
    if t == 4: return rng.choice(['', 'a', 'include', '\0', 'é' * 50, 'x' * 5000, '(1, 2)', 'B\n.\n'])
    if t == 5: return rng.choice([b'', b'x', b'\0\xff' * 10])
    if t == 6: return []
    if t == 7: return {}
    if t == 8: return set()
    if t == 9: return ()
    if t == 10: return [g() for _ in range(rng.randint(1, 3))]
    if t == 11: return tuple(g() for _ in range(rng.randint(1, 4)))
    if t == 12:
        d = {}
        for _ in range(rng.randint(1, 3)):
            try:
                d[g()] = g()
            except Exception:
                d[1] = g()
        return d
    if t == 13:
        try:
            return set([g() for _ in range(2)])
        except Exception:
            return {1, 2}
    if t == 14: return Evil(rng.choice(['raise', 'lie', 'lie'])) if W.lies else Evil('raise')
    if t == 15: return rng.choice([int, len, lambda *a: 1, object(), Ellipsis, NotImplemented, True, 1 + 2j])
    if t == 16: return iter([g(), g()])
    if t == 17: return (g() for _ in range(2))
    if t == 18:
        if rng.random() < .002:         # everything is slow from here on
            return range(70000)
        return range(*rng.choice([(0,), (5, -5, -1), (1, 5), (3, 5, 2 ** 33), (0, 2 ** 40, 2 ** 34), (2 ** 62, 2 ** 70, 2 ** 67), (-3, 3)]))
    if t == 19: return rng.choice([io.StringIO('B\n.\n'), io.BytesIO(b'T\n.\n')])
    if t in (20, 21):
        L = W.fams[rng.choice(sorted(W.fams))]
        return rng.choice(L)
    if t == 22: return W.rawset(rng)
    if t == 23: return rng.choice(W.iters) if W.iters else None
    if t == 24: return rng.choice([GraphSet, setset, _graphillion.setset, GraphSet.paths])
    if t == 25: return [[g()]]
    if t == 26: return [(1, 2), g()]
    if t == 27:
        a = []
        a.append(a)
        return a
    if t == 28: return bytearray(b'abc')
    return rng.randint(0, 5)


class World(object):
    def __init__(self, rng, tmp, size=None):
        self.tmp = tmp
        self.lies = True
        self.kinds, self.fams, self.iters = {}, {}, []
        self.setup(rng, size)

    def setup(self, rng, size=None):
        style = rng.choice(['seq', 'int', 'str'])
        n, E = shape(rng, size or rng.choice([3, 5, 7, 9]))
        L, edges = relabel(rng, n, E, style)
        K = GraphKind().adopt(rng, edges)
        V = VertexKind()
        V.elems = L
        V.n, V.index = n, {v: i for i, v in enumerate(L)}
        W = EVKind()
        W.edges, W.vs = edges, L
        W.elems = L + edges
        W.n, W.nv = len(W.elems), n
        W.index = {x: i for i, x in enumerate(W.elems)}
        W.close = {n + i: (1 << W.index[e[0]]) | (1 << W.index[e[1]]) for i, e in enumerate(edges)}
        S = SetSetKind().setup(rng, rng.randint(1, 7))
        D = DiKind().setup(rng, rng.randint(1, 8), style)
        self.kinds = {'setset': S, 'GraphSet': K, 'DiGraphSet': D, 'VertexSetSet': V, 'EdgeVertexSetSet': W}
        self.fams = {}
        for name, k in self.kinds.items():
            fs = []
            for _ in range(3):
                M = random_masks(rng, min(k.n, 6))
                if name == 'EdgeVertexSetSet':
                    M = {k.closure(m) for m in M}
                fs.append(k.mk(M))
            self.fams[name] = fs
        self.iters = []

    def rawset(self, rng):
        return _graphillion.setset([set([1])])

    # one argument of a kind
    def arg(self, rng, name, kind):
        K = self.kinds.get(name) or self.kinds['GraphSet']
        G_ = self.kinds['DiGraphSet'] if name == 'DiGraphSet' else self.kinds['GraphSet']
        verts = sorted(set(v for e in G_.edges for v in e))
        if kind == 'fam':
            return rng.choice(self.fams.get(name) or self.fams['GraphSet'])
        if kind == 'elem|fam':
            return self.arg(rng, name, rng.choice(['fam', 'elem', 'member', 'vertex']))
        if kind == 'member':
            return K.member(rng.randrange(1 << K.n), rng) if rng.random() < .7 else self.arg(rng, name, 'elem')
        if kind == 'elem':
            return rng.choice(K.elems)
        if kind == 'vertex':
            return rng.choice(verts)
        if kind == 'verts':
            return rng.sample(verts, rng.randint(1, len(verts)))
        if kind == 'int':
            return rng.randint(0, 9)
        if kind == 'small':
            return rng.randint(0, 4)
        if kind == 'threads':
            return rng.randint(1, 4)
        if kind == 'float':
            return rng.choice([0.0, 1.0, 1.5, 3.0])
        if kind == 'bool':
            return rng.random() < .5
        if kind in ('probs', 'costs', 'weights'):
            f = rng.random if kind == 'probs' else lambda: rng.randint(-9, 9)
            elems = self.kinds['GraphSet'].elems if name == 'EdgeVertexSetSet' and kind == 'probs' and rng.random() < .2 else K.elems
            return {e: f() for e in elems if kind != 'weights' or rng.random() < .7}
        if kind == 'vdict':
            return {v: rng.randint(0, 3) for v in verts if rng.random() < .95}
        if kind == 'degrees':
            return {v: self.arg(rng, name, 'range') for v in verts if rng.random() < .5}
        if kind == 'range':
            a = rng.randint(0, 3)
            return rng.choice([a, range(a, a + rng.randint(0, 4)), range(a, a + 5, 2), (a, a + 1)])
        if kind == 'dist':
            return {d: rng.choice([rng.randint(0, 3), GraphSet.DegreeDistribution_Any]) for d in rng.sample(range(5), rng.randint(1, 4))}
        if kind == 'groups':
            vs = rng.sample(verts, min(len(verts), 4))
            return [vs[:2], vs[2:]][:rng.randint(1, 2)] + [[]] * rng.randint(0, 1)
        if kind == 'linear':
            return [([tuple(rng.choice(G_.edges)[:2]) + (rng.randint(-3, 3),) for _ in range(rng.randint(1, 3))], (-2, rng.randint(0, 5)))]
        if kind == 'traversal':
            return rng.choice(TRAVERSALS)
        if kind in ('universe', 'gedges'):
            if kind == 'gedges' or rng.random() < .5:
                return list(self.kinds['GraphSet'].edges if name != 'DiGraphSet' else self.kinds['DiGraphSet'].edges)
            return [(u, v) for u, v in shape(rng, 6)[1]]
        if kind == 'vuniverse':
            return rng.sample(verts, len(verts))
        if kind == 'suniverse':
            return list(self.kinds['setset'].elems)
        if kind == 'text':
            return rng.choice(self.fams.get(name) or self.fams['GraphSet']).dumps()
        if kind == 'file':
            p = os.path.join(self.tmp, 'f%d' % rng.randrange(5))
            if not os.path.exists(p) or rng.random() < .3:
                with open(p, 'w') as f:
                    f.write(rng.choice(self.fams.get(name) or self.fams['GraphSet']).dumps())
            return open(p, rng.choice(['r', 'r+', 'w', 'rb', 'a']))
        if kind == 'ctor':
            K_ = self.kinds.get(name)
            t = rng.randrange(4)
            if t == 0:
                return [K_.member(rng.randrange(1 << K_.n)) for _ in range(3)]
            if t == 1:
                return {'include': [rng.choice(K_.elems)], 'exclude': [rng.choice(K_.elems)]}
            return {} if t == 2 else self.arg(rng, name, 'fam')
        if kind == 'ints':
            return [0] + rng.sample(range(1, 9), rng.randint(0, 8))
        if kind == 'name':
            return rng.choice(['_ss', '_objtable', 'len', '__class__', 'x', '__dict__'])
        raise KeyError(kind)

    def spoil(self, rng, x):
        """a valid value with one part replaced"""
        g = garbage(rng, self)
        try:
            if isinstance(x, (list, tuple)) and x:
                i = rng.randrange(len(x))
                y = list(x)
                y[i] = self.spoil(rng, y[i]) if rng.random() < .4 else g
                return type(x)(y)
            if isinstance(x, dict) and x:
                y = dict(x)
                k = rng.choice(list(y))
                if rng.random() < .5:
                    y[k] = g
                else:
                    y[g] = y.pop(k)
                return y
            if isinstance(x, (set, frozenset)) and x:
                return type(x)(list(x)[1:] + [g])
        except Exception:
            pass
        return g

    def args(self, rng, name, kinds, bad):
        out = []
        for kind in kinds:
            if kind == 'fam*':
                out += [self.arg(rng, name, 'fam') for _ in range(rng.choice([1, 1, 1, 0, 2, 3]))]
            elif kind.endswith('?'):
                if rng.random() < .4:
                    out.append(None if rng.random() < .5 else self.arg(rng, name, kind[:-1]))
                    if out[-1] is None and rng.random() < .6:
                        out.pop()
                        break
                else:
                    out.append(self.arg(rng, name, kind[:-1]))
            else:
                out.append(self.arg(rng, name, kind))
        if rng.random() < bad:
            t = rng.random()
            if out and t < .85:
                i = rng.randrange(len(out))
                out[i] = self.spoil(rng, out[i]) if rng.random() < .6 else garbage(rng, self)
            elif out and t < .92:
                out.pop()
            else:
                out.append(garbage(rng, self))
        return out

    def call(self, rng, bad, instance=.55, avoid=()):
        if rng.random() < instance:
            name = rng.choice(sorted(SPEC))
            spec = SPEC[name]
            while True:
                m = rng.choice(sorted(spec))
                if m not in avoid:
                    break
            f = rng.choice(self.fams[name])
            args = self.args(rng, name, spec[m], bad)
            return name, m, f, args, lambda: getattr(f, m)(*args)
        name = rng.choice(sorted(STATIC) + ['GraphSet'] * 4 + ['DiGraphSet'])
        spec = dict(STATIC[name])
        if name in SPEC:
            spec['__new__'] = ['ctor?']
        while True:
            m = rng.choice(sorted(spec))
            if m not in avoid:
                break
        args = self.args(rng, name, spec[m], bad)
        cls = CLASSES[name]
        if m == '__new__':
            return name, m, None, args, lambda: cls(*args)
        return name, m, None, args, lambda: getattr(cls, m)(*args)
