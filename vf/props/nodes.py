"""C20: the node store, audited through the probe while it is limited, collected
and overflowed under histories whose families are also kept as Python sets."""
import gc
from ..fam import *
from .. import model as M
from ..store import Store

FULL = (MemoryError,)


def is_full(e):
    return isinstance(e, MemoryError) or isinstance(e, RuntimeError) and ('bad_alloc' in str(e) or 'nexpected error' in str(e) or 'nknown error' in str(e))


def audit(ctx, st, why):
    bad, ext, dead = st.audit()
    ctx.check(bad is None, 'audit:%s' % (bad or '').split(':')[-1].strip()[:40].translate({ord(c): None for c in '0123456789'}), '%s (after %s)', bad, why)
    ctx.count('audits')
    return ext, dead


OPS = [
    ('union', lambda K, a, b: a | b, lambda A, B, n: A | B),
    ('intersection', lambda K, a, b: a & b, lambda A, B, n: A & B),
    ('difference', lambda K, a, b: a - b, lambda A, B, n: A - B),
    ('symmetric', lambda K, a, b: a ^ b, lambda A, B, n: A ^ B),
    ('join', lambda K, a, b: a.join(b), lambda A, B, n: M.join(A, B)),
    ('meet', lambda K, a, b: a.meet(b), lambda A, B, n: M.meet(A, B)),
    ('subsets', lambda K, a, b: K.subsets_of(a, b), lambda A, B, n: M.subs(A, B)),
    ('supersets', lambda K, a, b: K.supersets_of(a, b), lambda A, B, n: M.sups(A, B)),
    ('non_subsets', lambda K, a, b: K.non_subsets_of(a, b), lambda A, B, n: M.nsubs(A, B)),
    ('non_supersets', lambda K, a, b: K.non_supersets_of(a, b), lambda A, B, n: M.nsups(A, B)),
    ('minimal', lambda K, a, b: a.minimal(), lambda A, B, n: M.minimal(A)),
    ('maximal', lambda K, a, b: a.maximal(), lambda A, B, n: M.maximal(A)),
    ('quotient', lambda K, a, b: K.quotient(a, b) if b else a.copy(), lambda A, B, n: M.quotient(A, B) if B else A),
    ('remainder', lambda K, a, b: K.remainder(a, b) if b else a.copy(), lambda A, B, n: M.remainder(A, B) if B else A),
    ('hitting', lambda K, a, b: K.hitting(a), None),
    ('complement', lambda K, a, b: ~(~a), lambda A, B, n: A),
    ('smaller', lambda K, a, b: a.smaller(3), lambda A, B, n: {x for x in A if M.size(x) < 3}),
    ('larger', lambda K, a, b: a.larger(3), lambda A, B, n: {x for x in A if M.size(x) > 3}),
    ('exact', lambda K, a, b: K.exact(a, 4), lambda A, B, n: {x for x in A if M.size(x) == 4}),
    ('some_elem', lambda K, a, b: a.remove_some_edge() if hasattr(a, 'remove_some_edge') else a.remove_some_element(),
     lambda A, B, n: {x & ~(1 << i) for x in A for i in range(n) if x >> i & 1}),
    ('dumps', lambda K, a, b: K.cls.loads(a.dumps()), lambda A, B, n: A),
]


def history(ctx, rng, K, st, n, steps):
    full = (1 << n) - 1

    def fam(k=None):
        k = k or rng.choice([1, 3, 20, 80, 200])
        base = rng.randrange(1 << n)
        noise = rng.random() < .5
        return {(base ^ (rng.randrange(1 << n) if noise else (1 << rng.randrange(n)) | (1 << rng.randrange(n)) | (1 << rng.randrange(n)))) & full for _ in range(k)}

    ext0 = audit(ctx, st, 'setting up')[0]
    live = []               # [object, model]
    paused = []             # [iterator, members still to come]
    fails = 0
    collected = 0

    def verify(obj, A, why):
        ctx.eq(K.masks(obj, limit=len(A) + 50), A, 'contents', 'members after %s' % why)
        ctx.eq(obj.len(), len(A), 'len', 'len() after %s' % why)

    for step in range(steps):
        r = rng.random()
        before = st.used()
        tried = None
        try:
            if r < .25 or len(live) < 2:
                A = fam()
                live.append([K.mk(A, rng), A])
                why = 'making a family'
            elif r < .8:
                name, f, g = rng.choice(OPS)
                x, y = rng.choice(live), rng.choice(live)
                if g is None and n > 10: continue
                if len(x[1]) * len(y[1]) > 40000: continue
                if name in ('minimal', 'maximal') and len(x[1]) > 250: continue
                ctx.log(name, len(x[1]), len(y[1]))
                tried = name, f, g, x, y
                res = f(K, x[0], y[0])
                why = name
                want = set(M.hitting(x[1], n) if g is None else g(x[1], y[1], n))
                verify(res, want, name)
                ctx.count(name)
                if len(want) <= 3000:
                    live.append([res, want])
                del res
            elif r < .86:
                x = rng.choice(live)
                k = rng.random()
                ctx.log('iterator', len(x[1]))
                if k < .4:
                    it = iter(x[0])
                elif k < .7:
                    it = x[0].rand_iter()
                else:
                    it = x[0].max_iter()
                left = set(x[1])
                if not left: continue               # an iterator looks at the family at its first step
                for _ in range(rng.randint(1, 4)):
                    if not left: break
                    left.discard(K.tomask(next(it)))
                paused.append([it, left])
                why = 'starting an iterator'
            elif r < .9 and paused:
                p = paused.pop(rng.randrange(len(paused)))
                ctx.log('continue iterator', len(p[1]))
                got = [K.tomask(x) for x in p[0]]
                ctx.eq(len(got), len(p[1]), 'iterator', 'members of an iterator resumed later')
                ctx.eq(set(got), p[1], 'iterator', 'members of an iterator resumed later')
                ctx.count('iterators resumed')
                why = 'resuming an iterator'
            elif r < .94:
                ctx.log('gc')
                gc.disable()        # Python's own collector must not drop families in between
                try:
                    _, dead = audit(ctx, st, 'a step')
                    rc = st.gc()
                    _, left = audit(ctx, st, 'a collection')
                finally:
                    gc.enable()
                ctx.check((rc == 0) == (dead > 0), 'gc:result', 'a collection with %d dead nodes returns %d', dead, rc)
                ctx.eq(left, 0, 'gc:dead', 'dead nodes after a collection')
                collected += 1
                why = 'a collection'
            else:
                x = rng.choice(live)
                a = rng.randrange(1 << n)
                ctx.log('add', a)
                x[0].add(K.member(a, rng))
                x[1].add(a)
                why = 'add'
        except Exception as e:
            if not is_full(e):
                raise
            fails += 1
            ctx.count('calls that ran out of nodes')
            why = 'running out of nodes'
            e = None
            if tried and rng.random() < .15:
                # with more room the same operation is carried out
                name, f, g, x, y = tried
                st.limit(1 << 40)
                want = set(M.hitting(x[1], n) if g is None else g(x[1], y[1], n))
                verify(f(K, x[0], y[0]), want, '%s tried again with more room' % name)
                st.limit(0)
                ctx.count('failed calls tried again')
            # the families made before are all there
            for obj, A in live:
                ctx.check(obj.len() == len(A), 'full:len', 'a family has %d members after another call ran out of nodes; it had %d', obj.len(), len(A))
        if st.used() < before:
            ctx.count('steps during which nodes were reclaimed')
        while len(live) > 8 or (fails and len(live) > 4 and rng.random() < .5):
            live.pop(rng.randrange(len(live)))
        while len(paused) > 3 or (fails and paused and rng.random() < .3):
            paused.pop(0)
        if rng.random() < .15:
            audit(ctx, st, why)
            x = rng.choice(live) if live else None
            if x:
                verify(x[0], x[1], 'later steps')
                # one node for one family
                for y in live:
                    ctx.check((x[0] == y[0]) == (x[1] == y[1]), 'canonical', 'families of %d and %d members compare as %s', len(x[1]), len(y[1]), x[0] == y[0])
    for obj, A in live:
        try:
            verify(obj, A, 'the history')
        except Exception as e:
            if not is_full(e):
                raise
    ctx.seen(type(K).__name__, n, steps, fails, collected, st.used())
    del live[:], paused[:]
    obj = x = y = p = it = res = None
    gc.collect()
    ext, dead = audit(ctx, st, 'dropping everything')
    ctx.check(ext <= ext0 + 2, 'references', '%d references from outside after everything was dropped, %d before', ext, ext0)


def overflow(ctx, rng, K, st, n):
    """more references to a node than its counter holds"""
    ext0 = audit(ctx, st, 'setting up')[0]
    A = {rng.randrange(1 << n) for _ in range(rng.choice([1, 5, 60]))} or {1}
    B = {rng.randrange(1 << n) for _ in range(20)}
    a, b = K.mk(A, rng), K.mk(B, rng)
    raw = a._ss if hasattr(a, '_ss') else a
    many = 65530 + rng.randint(0, 12) if rng.random() < .7 else rng.randint(66000, 140000)
    copies = [raw.copy() for _ in range(many)]
    ctx.log('copies', many)
    ext, _ = audit(ctx, st, 'many copies')
    if A != {0}:
        ctx.check(ext >= ext0 + many, 'overflow', '%d references are counted after %d copies', ext, many)
    ctx.count('nodes with overflowed counters', st.overflowed())
    # other nodes whose counters overflow while this one's is beyond its limit
    others = []
    if rng.random() < .6:
        for i in range(rng.choice([1, 2, 8])):
            C = {rng.randrange(1 << n) for _ in range(3)} | {0}
            c = K.mk(C, rng)
            r = c._ss if hasattr(c, '_ss') else c
            others.append((c, C, [r.copy() for _ in range(65530 + rng.randint(0, 30))]))
            audit(ctx, st, 'many copies of another family')
        r = c = None
        ctx.count('nodes overflowed together', len(others) + 1)
        ctx.check(audit(ctx, st, 'all the copies')[0] >= ext0 + many * (A != {0}) + sum(len(x[2]) for x in others if x[1] != {0}), 'overflow', 'references are missing after copies of several families')
    for rep in range(rng.randint(1, 4)):
        k = rng.randint(0, len(copies))
        del copies[k:]
        audit(ctx, st, 'dropping copies')
        c = K.mk({rng.randrange(1 << n) for _ in range(30)}, rng)
        (a | c) & b
        del c
        if rng.random() < .5:
            st.gc()
            audit(ctx, st, 'a collection')
        copies += [raw.copy() for _ in range(rng.choice([0, 3, 66000 - len(copies) if len(copies) < 66000 else 0]))]
        audit(ctx, st, 'more copies')
        ctx.eq(K.masks(a, limit=len(A) + 50), A, 'contents', 'members while there are many copies')
    if copies:
        ctx.check(len(copies[rng.randrange(len(copies))]) == len(A), 'contents', 'a copy has another size')
    del copies[:], raw
    b = None
    st.gc()
    audit(ctx, st, 'dropping the copies')
    ctx.eq(K.masks(a, limit=len(A) + 50), A, 'contents', 'members after many copies')
    for c, C, more in others:
        del more[:]
        ctx.eq(K.masks(c, limit=len(C) + 50), C, 'contents', 'members of another family after many copies')
    del others[:]
    a = c = more = None
    gc.collect()
    st.gc()
    ext, dead = audit(ctx, st, 'dropping everything')
    ctx.check(ext <= ext0 + 2, 'references', '%d references from outside after everything was dropped, %d before', ext, ext0)
    ctx.seen('overflow', many, len(A))


def searches(ctx, rng, st):
    """searches, and what is derived from them, in a table of limited size"""
    w, h = rng.choice([(3, 3), (3, 4), (4, 4), (3, 6), (4, 5), (5, 5)])
    n = w * h
    E = [(y * w + x, y * w + x + 1) for y in range(h) for x in range(w - 1)] + [(y * w + x, y * w + x + w) for y in range(h - 1) for x in range(w)]
    E.sort(key=lambda e: (max(e), min(e)))
    GraphSet.set_universe(E, traversal='as-is')
    asks = {
        'paths': lambda: GraphSet.paths(0, n - 1), 'cycles': lambda: GraphSet.cycles(), 'trees': lambda: GraphSet.trees(is_spanning=True),
        'matchings': lambda: GraphSet.matchings(), 'forests': lambda: GraphSet.graphs(no_loop=True), 'cliques': lambda: GraphSet.cliques(2),
        'big paths': lambda: GraphSet.paths(0, n - 1).larger(n - 3), 'joined': lambda: GraphSet.paths(0, n - 1) | GraphSet.cycles(),
        'minimal': lambda: GraphSet.paths(0, n - 1).minimal() if n <= 12 else GraphSet.cycles(), 'le': lambda: GraphSet.matchings().cost_le({e: 1 + (e[0] * 7 + e[1]) % 5 for e in GraphSet.universe()}, 6),
        'steiner': lambda: GraphSet.steiner_trees([0, n - 1, w - 1]), 'hamilton': lambda: GraphSet.cycles(is_hamilton=True),
    }
    names = rng.sample(sorted(asks), 5)
    truth = {}
    for q in names:
        F = asks[q]()
        truth[q] = F.len(), hash(F.dumps())
        del F
    gc.collect()
    st.gc()
    st.limit(0 if rng.random() < .4 else int(st.used() * rng.uniform(1, 2)))
    kept = {}
    for _ in range(14):
        q = rng.choice(names)
        ctx.log(q, w, h, st.used(), st.space())
        try:
            F = asks[q]()
            ctx.eq(F.len(), truth[q][0], 'searches:len', '%s on a %dx%d grid in a table of %d nodes' % (q, w, h, st.space()))
            if rng.random() < .3:
                ctx.check(F == asks[q](), 'searches:again', '%s differs from itself', q)
            if rng.random() < .5:
                kept[q] = F
            ctx.count('searches in a limited table')
            ctx.seen('search', q, w, h, st.used() // 500)
            F = None
        except Exception as e:
            if not is_full(e): raise
            ctx.count('searches that ran out of nodes')
            if kept and rng.random() < .7:
                kept.pop(rng.choice(sorted(kept)))
                gc.collect()
        for q in kept:
            ctx.check(kept[q].len() == truth[q][0], 'searches:kept', 'the answer to %s has changed', q)
        if rng.random() < .3:
            audit(ctx, st, 'a search')
    st.limit(1 << 40)
    for q in kept:
        ctx.eq(hash(kept[q].dumps()) if kept[q].len() < 2 ** 62 and False else kept[q].len(), truth[q][0], 'searches:kept', 'the answer to %s' % q)
        ctx.check(kept[q] == asks[q](), 'searches:kept', 'the answer to %s differs from a new one', q)
    kept.clear()
    F = None
    gc.collect()
    audit(ctx, st, 'searches')


def fill(rng, K, st, n, ballast):
    """families which leave little room in the table"""
    room = rng.choice([.8, .95, .98, .99, .995])
    for _ in range(400):
        if st.used() >= st.space() * room:
            st.gc()
            if st.used() >= st.space() * room: break
        try:
            ballast.append(K.mk({rng.randrange(1 << n) for _ in range(30 if room > .9 else 200)}, rng))
        except Exception as e:
            if not is_full(e): raise
            break


def case(ctx, rng, k):
    st = ctx.st
    ballast = []
    st.limit(1 << 40)
    gc.collect()
    r = rng.random()
    if r < .25:
        searches(ctx, rng, st)
    else:
        K = SetSetKind() if rng.random() < .5 else GraphKind()
        n = rng.choice([6, 8, 10, 12, 14, 14])
        K.setup(rng, n)
        n = K.n
        if r < .32:
            overflow(ctx, rng, K, st, n)
        else:
            if rng.random() < .8:
                st.limit(0 if rng.random() < .7 else int(max(st.used(), 500) * rng.uniform(1, 3)))
                if n >= 12 and rng.random() < .8:
                    fill(rng, K, st, n, ballast)
            history(ctx, rng, K, st, n, rng.choice([20, 60, 120]))
    st.limit(1 << 40)
    ctx.count('cases in a table of %d nodes' % st.space())
    if k < 2:
        ctx.sample({'node table': st.space(), 'used': st.used(), 'kind': 'searches' if r < .25 else 'overflow' if r < .32 else 'history'})


def session(ctx):
    ctx.st = Store()
    ctx.run(case)
    ctx.st.limit(1 << 40)
