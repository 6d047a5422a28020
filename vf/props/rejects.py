"""C24: rejected calls raise the documented error and change nothing."""
import os, tempfile, shutil
from ..fam import *
from ..calls import World, CHANGE, SPEC, garbage, UNIVERSE_CALLS
from .dumps import canon
from graphillion.setset_base import setset_base

FAR = 2 ** 70


def snapshot(W):
    out = [('edge universe', repr(Universe.edge_universe())), ('vertex universe', repr(Universe.vertex_universe())),
           ('edge and vertex universe', repr(Universe.edge_vertex_universe())), ('weights', repr(sorted(Universe.weights.items(), key=repr))),
           ('vertices', repr(sorted(Universe.vertices, key=repr))), ('isolated', repr(sorted(Universe.isolated_vertices, key=repr))),
           ('directed universe', repr(DiGraphSet.universe())), ('directed weights', repr(sorted(DiGraphSet._weights.items(), key=repr)))]
    for name in sorted(W.fams):
        for i, f in enumerate(W.fams[name]):
            out.append(('family %d of %s' % (i, name), canon(f.dumps())))
    return out


QUESTIONS = [
    ('trees', lambda W: GraphSet.trees().len()), ('matchings', lambda W: GraphSet.matchings().len()),
    ('directed cycles', lambda W: DiGraphSet.directed_cycles().len()), ('edges with their vertices', lambda W: GraphSet({}).to_edgevertexsetset().len()),
    ('vertices of forests', lambda W: GraphSet.matchings().to_vertexsetset().len()),
    ('minimal', lambda W: [canon(f.minimal().dumps()) for n in sorted(W.fams) for f in W.fams[n]]),
    ('added edges', lambda W: canon(W.fams['GraphSet'][0].add_some_edge().dumps())),
    ('union', lambda W: [(W.fams[n][0] | W.fams[n][1]).len() for n in sorted(W.fams)]),
    ('listing', lambda W: [sorted(map(repr, (sorted(map(repr, m)) for m in W.fams[n][2]))) for n in sorted(W.fams) if n in ('GraphSet', 'DiGraphSet')]),
    ('cliques', lambda W: VertexSetSet.cliques([e[:2] for e in GraphSet.universe()]).len())]


def same(ctx, W, before, objs, called):
    after = snapshot(W)
    for (n, a), (_, b) in zip(before, after):
        ctx.checks += 1
        if a != b:
            ctx.check(False, 'changed:' + n.split(' of ')[-1].replace(' ', '_'), '%s: %s was %r and is %r', called, n, a, b)
    now = setset.universe()
    ctx.check(now[:len(objs)] == objs, 'changed:setset_universe', '%s: universe of setset was %r and is %r', called, objs, now)


def unknown(rng, known):
    """a value which is none of the elements and vertices"""
    pool = [10 ** 6, -7777, 'nobody', ('no', 'body'), 2.5, None, FAR, ('nobody',), frozenset(['x'])]
    v = known[0]
    if isinstance(v, int):
        pool += [max(x for x in known if isinstance(x, int)) + rng.randint(1, 3)] * 4
    else:
        pool += [str(v) + rng.choice(['x', ' ', '\n'])] * 4
    while True:
        x = rng.choice(pool)
        if x not in known:
            return x


def known_kind(rng, known):
    """... and doesn't stand for a default"""
    while True:
        x = unknown(rng, known)
        if x is not None:
            return x


def names(rng, W):
    """calls naming an element, an edge or a vertex which isn't there"""
    name = rng.choice(['GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    K = W.kinds[name]
    cls = type(W.fams[name][0])
    f = rng.choice(W.fams[name])
    verts = sorted(set(v for e in (W.kinds['DiGraphSet'] if name == 'DiGraphSet' else W.kinds['GraphSet']).edges for v in e))
    if name == 'VertexSetSet':
        bad = unknown(rng, verts)
        while isinstance(bad, frozenset):
            bad = unknown(rng, verts)
    else:
        a, b = rng.choice(verts), rng.choice(verts)
        bad = rng.choice([(a, unknown(rng, verts)), (unknown(rng, verts), a), (unknown(rng, verts), unknown(rng, verts)), (a, a)])
    elems = list(K.elems)
    good = [x for x in rng.sample(elems, rng.randint(0, min(3, len(elems))))]
    m = good + [bad]
    rng.shuffle(m)
    if name == 'EdgeVertexSetSet':
        # sets of edges and vertices, in which the ends of each edge are needed
        m = list(verts) + [bad]
    t = rng.randrange(14)
    if name == 'EdgeVertexSetSet' and t in (1, 2, 7):
        t = 0                       # doesn't take constraints
    u = unknown(rng, verts)
    while isinstance(u, frozenset):
        u = unknown(rng, verts)
    table = {
        0: ('__init__', lambda: cls([m])), 1: ('include', lambda: cls({'include': m})), 2: ('exclude', lambda: cls({'exclude': m})),
        3: ('add', lambda: f.add(m)), 4: ('remove', lambda: f.remove(m)), 5: ('discard', lambda: f.discard(m)), 6: ('in', lambda: m in f),
        7: ('flip', lambda: f.flip(bad)), 8: ('including', lambda: f.including(bad)), 9: ('excluding', lambda: f.excluding(bad)),
        10: ('__init__', lambda: cls([elems[:1] if name != 'EdgeVertexSetSet' else [], m])),
        11: ('probability', lambda: f.probability(dict([(e, .5) for e in elems] + [(bad, .5)]))),
        12: ('cost_le', lambda: f.cost_le(dict([(e, 1) for e in elems] + [(bad, 1)]), 3)),
        13: ('including', lambda: f.including(u) if name in ('GraphSet', 'DiGraphSet') and not isinstance(u, tuple) else f.including(bad))}
    what, th = table[t]
    return '%s.%s(%r)' % (name, what, bad if t != 13 else u), th, f, (KeyError,)


def absent(rng, W):
    """remove() of a set that isn't a member; pop() and choice() of nothing"""
    name = rng.choice(sorted(W.fams))
    K, cls = W.kinds[name], type(W.fams[name][0])
    e = cls()
    t = rng.randrange(3 if name == 'EdgeVertexSetSet' else 4)
    if t == 0:
        return '%s().pop()' % name, e.pop, e, (KeyError,)
    if t == 1:
        return '%s().choice()' % name, e.choice, e, (KeyError,)
    f = rng.choice(W.fams[name])
    m = rng.randrange(1 << K.n)
    if name == 'EdgeVertexSetSet':
        m = K.closure(m)
    g = f - cls([K.member(m)])
    x = K.member(m, rng)
    W.fams[name][W.fams[name].index(f)] = g
    if t == 2:
        return '%s.remove(%r)' % (name, x), lambda: g.remove(x), g, (KeyError,)
    z = cls([])
    return '%s.quotient(empty)' % name, rng.choice([lambda: g.quotient(z), lambda: g / z] + [lambda: g % z, lambda: g.remainder(z)]), g, (ZeroDivisionError,)


def searches(rng, W):
    g = W.kinds['GraphSet']
    verts = sorted(set(v for e in g.edges for v in e))
    base = rng.choice([None, None] + W.fams['GraphSet'])
    u = known_kind(rng, verts)
    e = rng.choice([(rng.choice(verts), u), (u, rng.choice(verts)), (u, unknown(rng, verts))])
    vs = rng.sample(verts, rng.randint(1, len(verts)))
    withu = vs + [u]
    rng.shuffle(withu)
    probs = {x: .5 for x in g.edges}
    dverts = sorted(set(v for x in W.kinds['DiGraphSet'].edges for v in x))
    du = known_kind(rng, dverts)
    dv = rng.choice(dverts)
    dbase = rng.choice([None, None] + W.fams['DiGraphSet'])
    K = (KeyError,)
    neg = -rng.randint(1, 5)
    calls = [
        ('paths', lambda: GraphSet.paths(u, vs[0], False, base), K), ('paths', lambda: GraphSet.paths(vs[0], u, True, base), K),
        ('trees', lambda: GraphSet.trees(u, rng.random() < .5, base), K), ('forests', lambda: GraphSet.forests(withu, rng.random() < .5, base), K),
        ('steiner_trees', lambda: GraphSet.steiner_trees(withu, base), K), ('steiner_cycles', lambda: GraphSet.steiner_cycles(withu, base), K),
        ('steiner_paths', lambda: GraphSet.steiner_paths(withu, base), K), ('steiner_subgraphs', lambda: GraphSet.steiner_subgraphs(withu, base), K),
        ('connected_components', lambda: GraphSet.connected_components(withu, base), K),
        ('graphs vertex_groups', lambda: GraphSet.graphs(vertex_groups=[withu], graphset=base), K),
        ('graphs degree_constraints', lambda: GraphSet.graphs(degree_constraints={vs[0]: 1, u: 1}, graphset=base), K),
        ('graphs linear_constraints', lambda: GraphSet.graphs(linear_constraints=[([e], (0, 1))], graphset=base), K),
        ('balanced_partitions', lambda: GraphSet.balanced_partitions(dict([(v, 1) for v in verts] + [(u, 1)]), 1.5), K),
        ('weighted_induced_graphs', lambda: GraphSet.weighted_induced_graphs(dict([(v, 1) for v in verts] + [(u, 1)]), 0, 9), K),
        ('reliability', lambda: GraphSet.reliability(dict(list(probs.items()) + [(e, .5)]), vs), K),
        ('reliability terminal', lambda: GraphSet.reliability(probs, withu), K),
        ('directed_st_paths', lambda: DiGraphSet.directed_st_paths(dv, du, False, dbase), K),
        ('directed_st_paths', lambda: DiGraphSet.directed_st_paths(du, dv, False, dbase), K),
        ('rooted_trees', lambda: DiGraphSet.rooted_trees(du, False, dbase), K), ('rooted_forests', lambda: DiGraphSet.rooted_forests([dv, du], False, dbase), K),
        ('directed graphs', lambda: DiGraphSet.graphs({dv: 1, du: 1}, None, dbase), K),
        ('directed graphs', lambda: DiGraphSet.graphs(None, {du: range(0, 2)}, dbase), K),
        ('independent_sets', lambda: VertexSetSet.independent_sets([e]), (KeyError, ValueError)),
        ('vertex_covers', lambda: VertexSetSet.vertex_covers([e]), (KeyError, ValueError)),
        ('dominating_sets', lambda: VertexSetSet.dominating_sets([e]), (KeyError, ValueError)),
        ('cliques of edges', lambda: VertexSetSet.cliques([e]), (KeyError, ValueError)),
        ('base of another class', lambda: GraphSet.trees(graphset=rng.choice([3, 'x', [1]])), (TypeError, AttributeError)),
        ('number of threads', lambda: GraphSet.omp_set_num_threads(rng.choice([0, -1, -2 ** 31, 2 ** 31, 10 ** 7, FAR, -FAR])), (ValueError, OverflowError)),
        ('number of threads', lambda: GraphSet.omp_set_num_threads('two'), (TypeError,)),
        ('larger', lambda: rng.choice(W.fams['GraphSet']).larger(neg), (ValueError,)), ('smaller', lambda: rng.choice(W.fams['GraphSet']).smaller(neg), (ValueError,)),
        ('len', lambda: rng.choice(W.fams['GraphSet']).len(neg), (ValueError,)),
        ('graph_size', lambda: rng.choice(W.fams['GraphSet']).graph_size(neg), (ValueError,)),
        ('larger', lambda: rng.choice(W.fams['setset']).larger('3'), (TypeError,)), ('len', lambda: rng.choice(W.fams['setset']).len(1.5), (TypeError,)),
        ('complicated balanced', lambda: GraphSet.weighted_induced_graphs({v: 1 for v in verts}, 5, 2), (ValueError, TypeError))]
    what, th, exc = rng.choice(calls)
    return '%s(... %r/%r)' % (what, u, du), th, None, exc


def wrong(rng, W):
    name = rng.choice(sorted(W.fams))
    K, cls = W.kinds[name], type(W.fams[name][0])
    f = rng.choice(W.fams[name])
    e = rng.choice(list(K.elems))
    x = list(K.member((1 << K.n) - 1))
    full = {y: 1 for y in x}
    partial = {y: 1 for y in x if y != rng.choice(x)} if len(x) > 1 else {}
    part = dict(full)
    del part[rng.choice(sorted(part, key=repr))]
    junk = rng.choice([5, 'text', 3.5, None, [1, 2], {1: 2}, object()])
    text = f.dumps()
    lines = text.split('\n')
    i = rng.randrange(max(1, len(lines) - 2))
    broken = '\n'.join(lines[:i] + [rng.choice(['x y z', '1 1', '7 99999 B T', '-', '3 4 5', 'é'])] + lines[i + 1:]) if len(lines) > 2 else 'x y z\n'
    cut = text[:rng.randrange(max(1, len(text) - 2))]
    cost = [('cost_le', lambda c, b: f.cost_le(c, b))] + ([('cost_ge', lambda c, b: f.cost_ge(c, b)), ('cost_eq', lambda c, b: f.cost_eq(c, b))] if name != 'setset' else [])
    cn, cf = rng.choice(cost)
    A = (AssertionError, KeyError, ValueError)
    calls = [
        ('constructor', lambda: cls(rng.choice([5, 2.5, object()])), (TypeError,)), ('constructor key', lambda: cls({'nosuch': []}), (TypeError,)),
        ('contradictory constraints', lambda: cls({'include': [e], 'exclude': [e]}), (TypeError,)),
        ('damaged text', lambda: cls.loads(broken), (ValueError,)), ('cut text', lambda: cls.loads(cut), (ValueError,)),
        ('missing probability', lambda: f.probability(dict((y, .5) for y in part)), A), ('missing cost', lambda: cf(part, 3), A),
        ('cost out of range', lambda: cf({y: rng.choice([2 ** 31, -2 ** 31 - 1, FAR]) for y in full}, 3), A + (OverflowError,)),
        ('bound out of range', lambda: cf(full if name != 'setset' else {y: 1 for y in setset.universe()}, rng.choice([FAR, -FAR])), (OverflowError,)),
        ('operand', lambda: f | junk, (TypeError, AttributeError)), ('operand', lambda: f & junk, (TypeError, AttributeError)),
        ('operand', lambda: f - junk, (TypeError, AttributeError)), ('operand', lambda: f ^ junk, (TypeError, AttributeError)),
        ('operand', lambda: junk | f if junk is not None and not isinstance(junk, dict) else f | 5, (TypeError, AttributeError)),
        ('update', lambda: f.update(junk), (TypeError, AttributeError)), ('union', lambda: f.union(junk), (TypeError, AttributeError)),
        ('join', lambda: f.join(junk), (TypeError, AttributeError)), ('meet', lambda: f.meet(junk), (TypeError, AttributeError)),
        ('hash', lambda: {f}, (TypeError,)), ('order', lambda: f < junk, (TypeError, AttributeError)),
        ('add', lambda: f.add(rng.choice([[[]], [{}]])), (TypeError, KeyError)),
        ('add', lambda: f.add([[1, 2, []]]), (TypeError, KeyError)),
        ('weights', lambda: next(f.max_iter({e: 'heavy'})), (TypeError, ValueError))]
    if name == 'setset' and isinstance(junk, (str, float, int)):
        calls = [c for c in calls if c[0] != 'add']
    what, th, exc = rng.choice(calls)
    if what == 'damaged text' and text == broken or what == 'cut text' and len(lines) < 4:
        return wrong(rng, W)
    if what == 'missing probability' and len(x) < 1:
        return wrong(rng, W)
    return '%s: %s (%r)' % (name, what, junk if what in ('operand', 'update', 'union', 'join', 'meet') else cut if what == 'cut text' else broken if what == 'damaged text' else None), th, f, exc


def universes(rng, W, last=False):
    E = [tuple(e[:2]) for e in W.kinds['GraphSet'].edges]
    A = [tuple(e[:2]) for e in W.kinds['DiGraphSet'].edges]
    v = known_kind(rng, sorted(set(x for e in E + A for x in e)))
    many = [(i, i + 1) for i in range(70000)]
    calls = [
        ('empty', lambda: GraphSet.set_universe([]), (ValueError,)), ('twice', lambda: GraphSet.set_universe(E + [E[0]]), (KeyError,)),
        ('reversed twice', lambda: GraphSet.set_universe(E + [E[-1][::-1]]), (KeyError,)),
        ('traversal', lambda: GraphSet.set_universe(E, traversal=rng.choice(['random', '', 5])), (ValueError,)),
        ('source', lambda: GraphSet.set_universe(E, traversal=rng.choice(['bfs', 'dfs', 'greedy']), source=v), (AssertionError, KeyError, ValueError)),
        ('malformed', lambda: GraphSet.set_universe(E + [rng.choice([(), (1,), 5, None])]), (IndexError, TypeError, ValueError, KeyError)),
        ('unhashable', lambda: GraphSet.set_universe(E + [([1], [2])]), (TypeError,)),
        ('no list', lambda: GraphSet.set_universe(rng.choice([5, None, 2.5])), (TypeError,)),
        ('directed twice', lambda: DiGraphSet.set_universe(A + [A[0]]), (KeyError,)),
        ('directed source', lambda: DiGraphSet.set_universe(A, traversal='bfs', source=v), (AssertionError, KeyError, ValueError)),
        ('directed malformed', lambda: DiGraphSet.set_universe(A + [rng.choice([(), (1,), 5])]), (IndexError, TypeError, ValueError, KeyError)),
        ('directed traversal', lambda: DiGraphSet.set_universe(A, traversal='random'), (ValueError,)),
        ('vertices twice', lambda: VertexSetSet.set_universe([1, 2, 1]), (ValueError, KeyError)),
        ('setset unhashable', lambda: setset.set_universe([1, [2]]), (TypeError,)),
        ('setset twice', lambda: setset.set_universe(['a', 'b', 'a']), (ValueError, KeyError))]
    if last and rng.random() < .1:         # everything is slow from here on
        calls = [('too many', lambda: GraphSet.set_universe(many, traversal='as-is'), (RuntimeError, ValueError)),
                 ('too many', lambda: setset.set_universe(range(70000)), (RuntimeError, ValueError))]
    what, th, exc = rng.choice(calls)
    return 'set_universe: %s (%r)' % (what, v), th, None, exc


def session(ctx):
    prelude(ctx)
    tmp = tempfile.mkdtemp(dir=os.getcwd())

    def case(ctx, rng, k):
        W = World(rng, tmp)
        W.lies = False
        objs = setset.universe()
        Q = rng.sample(QUESTIONS, 3)
        answers = [q(W) for _, q in Q]
        before = snapshot(W)
        its = []
        for name in rng.sample(sorted(W.fams), 2):
            f = rng.choice(W.fams[name])
            order = [repr(sorted(map(repr, m))) for m in f]
            it = iter(f)
            next(it, None)              # begins now
            its.append((name, it, order))
        done = [1] * len(its)
        for i in range(40):
            called = None
            if rng.random() < .5:
                gen = rng.choice([names, names, absent, searches, searches, wrong, universes])
                called, th, f, exc = gen(rng, W) if gen is not universes else gen(rng, W, k == ctx.ncases - 1)
                if gen is absent:
                    before = snapshot(W)
                    answers = [q(W) for _, q in Q]
                ctx.log(called)
                try:
                    r = th()
                except exc as e:
                    ctx.count('rejected: ' + gen.__name__)
                    ctx.seen(called[:60], type(e).__name__)
                except Exception as e:
                    ctx.check(False, 'rejects:%s:%s' % (called.split('(')[0].replace(' ', '_'), type(e).__name__),
                              '%s raised %r instead of %s', called, e, '/'.join(x.__name__ for x in exc))
                else:
                    ctx.check(False, 'rejects:%s:accepted' % called.split('(')[0].replace(' ', '_'), '%s was accepted: %r', called, type(r))
                ctx.checks += 1
            else:
                name, m, f, args, th = W.call(rng, .7, avoid=('omp_set_num_threads', 'show_messages', '__init__'))
                if m == 'set_universe' and name == 'VertexSetSet' and (not args or args[0] is None):
                    continue        # documented to end the program
                try:
                    called = '%s.%s(%s)' % (name, m, ', '.join(repr(a)[:80] for a in args))
                except Exception:
                    called = '%s.%s(...)' % (name, m)
                ctx.log(called)
                try:
                    r = th()
                    if hasattr(r, '__next__') and not isinstance(r, type(f)):
                        next(r, None)
                except MemoryError:
                    raise
                except Exception as e:
                    ctx.count('rejected: any')
                    if m.endswith('update') and len(args) > 1:
                        # the operands before the bad one count, as for Python's sets
                        before = snapshot(W)
                        answers = [q(W) for _, q in Q]
                    ctx.seen(name, m, type(e).__name__)
                else:
                    ctx.count('accepted')
                    if any(type(a).__name__ in W.fams and type(a).__name__ != name for a in args):
                        return ctx.count('mixed operands accepted')    # what these mean is not defined
                    if m in CHANGE or m in UNIVERSE_CALLS:
                        if m in UNIVERSE_CALLS:
                            return ctx.count('universes accepted')
                        before = snapshot(W)
                        answers = [q(W) for _, q in Q]
                    objs = setset.universe()
                    continue
            same(ctx, W, before, objs, called)
            if rng.random() < .3:
                objs = setset.universe()
                for j, (name, it, order) in enumerate(its):
                    x = next(it, None)
                    want = order[done[j]] if done[j] < len(order) else None
                    got = None if x is None else repr(sorted(map(repr, x)))
                    ctx.check(got == want, 'changed:iterator', 'after %s the next member of %s is %s and not %s', called, name, got, want)
                    done[j] += 1
        for (n, q), a in zip(Q, answers):
            ctx.eq(q(W), a, 'later:' + n.replace(' ', '_'), 'after rejected calls')
    try:
        ctx.run(case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
