"""C22: Python threads, each with its own families under one universe.  Every
thread runs a program whose answers were recorded in a run without other
threads; the switch interval is tiny and the universe is new, so that what is
made on first use is made by several threads at once."""
import _graphillion, faulthandler, hashlib, os, random, shutil, sys, tempfile, threading
from ..fam import *

LIMIT = 240
SLOW = 'tsan' in _graphillion.__file__ or 'asan' in _graphillion.__file__
FAST = 2e-4 if SLOW else 1e-6


class Vertex(object):
    """a vertex whose hash and order run in Python"""
    def __init__(self, x): self.x = x
    def __hash__(self): return hash(self.x)
    def __eq__(self, o): return isinstance(o, Vertex) and self.x == o.x
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.x < o.x
    def __le__(self, o): return self.x <= o.x
    def __gt__(self, o): return self.x > o.x
    def __ge__(self, o): return self.x >= o.x
    def __repr__(self): return 'V%r' % (self.x,)


def canon(cls, f, limit=4000):
    """the contents of a family, independent of the order of its members"""
    n = f.len()
    if n > limit:
        return n, None
    if cls is setset or cls is VertexSetSet:
        return n, frozenset(frozenset(x) for x in f)
    return n, frozenset(frozenset(tuple(e) if isinstance(e, (tuple, list)) else e for e in x) for x in f)


# -- programs: functions (state) -> answer ------------------------------------
class State(object):
    def __init__(self, rng, tid, tmp):
        self.rng, self.tid, self.tmp = rng, tid, tmp
        self.fams = []


def fam_of(S, cls):
    L = [f for f in S.fams if isinstance(f, cls)]
    return S.rng.choice(L) if L else cls()


def put(S, f):
    S.fams.append(f)
    if len(S.fams) > 12:
        S.fams.pop(S.rng.randrange(len(S.fams)))
    return canon(type(f), f)


def step(S, U):
    """one step of a program; every choice comes from S.rng"""
    rng = S.rng
    t = rng.choice(['search', 'search', 'algebra', 'algebra', 'algebra', 'new elements', 'new elements', 'make', 'file', 'pipe', 'text', 'iterate',
                    'vertices', 'probability', 'generator', 'pick', 'directed'])
    E, V = U['E'], U['V']
    if t == 'search':
        q = rng.choice(['graphs', 'paths', 'trees', 'cycles', 'matchings', 'components', 'degrees', 'cliques', 'reliability', 'induced', 'bip', 'linear', 'partitions'])
        a, b = rng.sample(V, 2)
        if q == 'graphs': f = GraphSet.graphs(vertex_groups=[[a, b]], no_loop=rng.random() < .5)
        elif q == 'paths': f = GraphSet.paths(a, b)
        elif q == 'trees': f = GraphSet.trees(a, is_spanning=rng.random() < .5)
        elif q == 'cycles': f = GraphSet.cycles()
        elif q == 'matchings': f = GraphSet.matchings()
        elif q == 'components': f = GraphSet.connected_components([a, b])
        elif q == 'degrees': f = GraphSet.graphs(degree_constraints={a: range(1, 3), b: 1}, num_edges=range(1, 4))
        elif q == 'cliques': f = GraphSet.cliques(3)
        elif q == 'bip': f = GraphSet.bipartite_graphs()
        elif q == 'induced': f = GraphSet.induced_graphs()
        elif q == 'linear': f = GraphSet.graphs(linear_constraints=[([e + (i,) for i, e in enumerate(GraphSet.universe())], (0, 4))])
        elif q == 'partitions': f = GraphSet.partitions(2, 3)
        else: return t, q, round(GraphSet.reliability(dict((e, .5) for e in GraphSet.universe()), [a, b]), 12)
        return t, q, put(S, f)
    if t == 'make':
        cls = rng.choice([GraphSet, setset, VertexSetSet])
        pool = GraphSet.universe() if cls is GraphSet else V if cls is VertexSetSet else U['S']
        # not in the order of the listing, which is the same for all
        return t, cls.__name__, put(S, cls([set(rng.sample(pool, rng.randint(0, min(4, len(pool))))) for _ in range(rng.randint(1, 12))]))
    if t == 'new elements':
        f = setset([['t%d_%d' % (S.tid if rng.random() < .5 else 0, rng.randrange(40)), rng.choice(U['S'])], ['t%d' % rng.randrange(9)]])
        for i in range(rng.randint(1, 4)):
            f.add(set(['t%d_%d' % (S.tid, rng.randrange(40)), rng.choice(U['S'])]))
        return t, put(S, f)
    if t == 'algebra':
        cls = rng.choice([GraphSet, setset, VertexSetSet])
        a, b = fam_of(S, cls), fam_of(S, cls)
        op = rng.choice(['or', 'and', 'sub', 'xor', 'join', 'meet', 'ior', 'minimal', 'maximal', 'nonsup', 'len', 'quot', 'cmp', 'size'])
        if a.len() * b.len() > 20000: op = rng.choice(['or', 'and', 'sub', 'xor', 'cmp'])
        if op == 'or': f = a | b
        elif op == 'and': f = a & b
        elif op == 'sub': f = a - b
        elif op == 'xor': f = a ^ b
        elif op == 'join': f = a.join(b)
        elif op == 'meet': f = a.meet(b)
        elif op == 'ior':
            f = a.copy()
            f |= b
            f -= a & b
        elif op == 'minimal': f = a.minimal()
        elif op == 'maximal': f = a.maximal()
        elif op == 'nonsup': f = a.non_supersets(b) if cls is setset else a.non_supergraphs(b)
        elif op == 'len': return t, op, a.len(), b.len(), bool(a)
        elif op == 'quot': f = a.quotient(b) if b else a
        elif op == 'size': f = a.smaller(3) | a.larger(4)
        else: return t, op, a == b, a <= b, a.isdisjoint(b), a != b
        return t, op, cls.__name__, put(S, f)
    if t in ('file', 'pipe', 'text'):
        cls = rng.choice([GraphSet, setset, VertexSetSet])
        a = fam_of(S, cls)
        if t == 'text':
            f = cls.loads(a.dumps())
        elif t == 'file':
            p = os.path.join(S.tmp, 'f%d_%d' % (S.tid, rng.randrange(3)))
            with open(p, 'w') as fp: a.dump(fp)
            with open(p) as fp: f = cls.load(fp)
        else:
            r, w = os.pipe()
            err = []

            def writer():
                try:
                    with os.fdopen(w, 'w') as fp: a.dump(fp)
                except Exception as e:
                    err.append(repr(e))
            th = threading.Thread(target=writer, daemon=True)
            th.start()
            with os.fdopen(r) as fp: f = cls.load(fp)
            th.join()
            if err: return t, err
        return t, cls.__name__, f == a, put(S, f)
    if t == 'iterate':
        cls = rng.choice([GraphSet, setset, VertexSetSet])
        a, b = fam_of(S, cls), fam_of(S, cls)
        its = [iter(a), b.rand_iter(), a.min_iter() if a.len() < 300 else iter(b)]
        got = [[], [], []]
        for _ in range(60):
            i = rng.randrange(3)
            try:
                got[i].append(frozenset(next(its[i])))
            except StopIteration:
                pass
        ok = all(g in h for h, gs in ((a, got[0]), (b, got[1])) for g in map(set, gs)) and all(len(set(g)) == len(g) for g in got)
        return t, cls.__name__, ok, len(got[0]), len(got[1]), len(got[2])
    if t == 'vertices':
        return t, put(S, VertexSetSet([rng.sample(V, 2)]) | GraphSet.paths(V[0], V[1]).to_vertexsetset())
    if t == 'probability':
        a = fam_of(S, GraphSet)
        return t, round(a.probability(dict((e, .25) for e in GraphSet.universe())), 12), a.cost_le(dict((e, 2) for e in GraphSet.universe()), 5).len()
    if t == 'generator':
        # the other threads run while the family is being made
        pool = U['S']
        ms = [rng.sample(pool, 2) for _ in range(6)]

        def gen():
            for m in ms:
                sum(range(200))
                yield set(m)
        return t, put(S, setset(list(gen()))), put(S, setset([x for x in gen()]).union(setset(list(gen()))))
    if t == 'pick':
        a = fam_of(S, rng.choice([GraphSet, setset]))
        return t, (not a) or a.choice() in a
    D = U['D']
    a, b = rng.sample(U['DV'], 2)
    f = rng.choice([lambda: DiGraphSet.directed_st_paths(a, b), lambda: DiGraphSet.directed_cycles(), lambda: DiGraphSet.rooted_trees(a),
                    lambda: DiGraphSet.graphs(in_degree_constraints={a: range(0, 2)}, out_degree_constraints={b: 1})])()
    return t, (f.len(), frozenset(frozenset(x) for x in f) if f.len() < 2000 else None)


def set_universes(U):
    GraphSet.set_universe(U['E'], traversal='as-is')
    VertexSetSet.set_universe(U['V'])
    setset.set_universe(U['S'])
    DiGraphSet.set_universe(U['D'], traversal='as-is')


def universes(rng):
    n, E = shape(rng, rng.choice([4, 6, 9]), minm=3)
    V, edges = relabel(rng, n, E, rng.choice(['seq', 'int', 'str']))
    if rng.random() < .4:
        m = dict((v, Vertex(v)) for v in V)
        V, edges = [m[v] for v in V], [(m[u], m[v]) for u, v in edges]
    used = [v for v in V if any(v in e for e in edges)]
    n2, A = shape(rng, 5, minm=3)
    D = [((u, v) if rng.random() < .6 else (v, u)) for u, v in A]
    return {'E': edges, 'V': used, 'S': ['s%d' % i for i in range(rng.randint(3, 8))], 'D': D, 'DV': sorted(set(v for e in D for v in e))}


def first_use(ctx, rng):
    """several threads are the first to use a new universe"""
    sys.setswitchinterval(FAST)
    try:
        for rep in range(3 if SLOW else 12):
            n = rng.choice([6, 12, 25])
            V = [Vertex(x) for x in rng.sample(range(1000), n)]
            E = [(V[i], V[i + 1]) for i in range(n - 1)] + [(V[0], V[n - 1])]
            T = rng.choice([2, 3, 4, 8])
            go = threading.Barrier(T)
            a, b = V[0], V[rng.randrange(1, n)]
            asks = [(lambda: GraphSet.paths(a, b).len(), 2), (lambda: GraphSet.cycles().len(), 1), (lambda: GraphSet.trees(is_spanning=True).len(), n),
                    (lambda: GraphSet.graphs(degree_constraints={v: 2 for v in V}).len(), 1), (lambda: len(GraphSet([[E[0]], [E[1], E[2]]]) | GraphSet([[]])), 3),
                    (lambda: setset([['x%d' % i, 'y'] for i in range(n)]).len(), n), (lambda: len(setset.universe()) >= 0, True)]
            if rng.random() < .7: asks = asks[:4]
            plan = [[rng.choice(asks) for _ in range(3)] for _ in range(T)]
            GraphSet.set_universe(E, traversal='as-is')
            setset.set_universe(['y'])
            out = [[] for _ in range(T)]

            def work(i):
                go.wait()
                for f, want in plan[i]:
                    try:
                        out[i].append((f(), want))
                    except Exception as e:
                        out[i].append((repr(e), want))
            ths = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(T)]
            for t in ths: t.start()
            for t in ths:
                t.join(LIMIT)
                ctx.check(not t.is_alive(), 'deadlock', 'a thread has not finished after %d s', LIMIT)
            for i in range(T):
                ctx.eq([x for x, _ in out[i]], [y for _, y in out[i]], 'first use', 'answers to thread %d of %d on a new universe (a circle of %d vertices)' % (i, T, n))
            ctx.count('first uses of a universe by several threads')
    finally:
        sys.setswitchinterval(.005)


def case(ctx, rng, k):
    if rng.random() < .25:
        return first_use(ctx, rng)
    U = universes(rng)
    T = rng.choice([2, 2, 3, 4, 6])
    steps = rng.choice([4, 10, 25])
    seeds = [rng.random() for _ in range(T)]
    tmp = tempfile.mkdtemp(dir=os.getcwd())
    log = []

    def program(tid, out, go=None):
        S = State(random.Random(seeds[tid]), tid, tmp)
        if go: go.wait()
        for i in range(steps):
            try:
                log.append(tid)
                out.append(step(S, U))
                log.append(tid)
            except Exception as e:
                out.append((type(e).__name__, str(e)[:200]))

    try:
        alone = []
        for tid in range(T):
            set_universes(U)
            out = []
            program(tid, out)
            alone.append(out)
        del log[:]
        set_universes(U)
        if rng.random() < .7:
            sys.setswitchinterval(rng.choice([FAST, FAST, 20 * FAST, 200 * FAST]))
        go = threading.Barrier(T)
        outs = [[] for _ in range(T)]
        ths = [threading.Thread(target=program, args=(tid, outs[tid], go), daemon=True) for tid in range(T)]
        ctx.log('threads', T, steps, len(U['E']))
        for th in ths: th.start()
        for th in ths:
            th.join(LIMIT)
            if th.is_alive():
                faulthandler.dump_traceback()
                ctx.check(False, 'deadlock', 'a thread has not finished after %d s', LIMIT)
        sys.setswitchinterval(.005)
        for tid in range(T):
            for i, (a, b) in enumerate(zip(outs[tid], alone[tid])):
                ctx.eq(a, b, 'answer:%s' % (b[0] if isinstance(b, tuple) else b), 'step %d of thread %d of %d' % (i, tid, T))
                ctx.count('steps compared')
            ctx.check(len(outs[tid]) == steps, 'lost', 'thread %d has made %d of %d steps', tid, len(outs[tid]), steps)
        # the universes are as they would be
        setset._objtable.check_universe()
        ctx.eq([tuple(e) for e in GraphSet.universe()], [tuple(e) for e in U['E']], 'universe', 'edges of the universe')
        elems = setset.universe()
        ctx.eq(len(set(elems)), len(elems), 'universe', 'elements of setset which are different')
    finally:
        sys.setswitchinterval(.005)
        shutil.rmtree(tmp, ignore_errors=True)
    switches = sum(a != b for a, b in zip(log, log[1:]))
    ctx.count('switches of threads between steps', switches)
    ctx.count('cases with %d threads' % T)
    ctx.seen(T, hashlib.md5(bytes(log)).hexdigest())
    if k < 2: ctx.sample({'threads': T, 'steps': steps, 'switches': switches, 'edges': len(U['E'])})


def session(ctx):
    prelude(ctx)
    ctx.run(case)
