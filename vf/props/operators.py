"""C05: family operators against their set-theoretic definitions."""
from ..fam import *
from .. import model as M


def fams(ctx, rng, K, big):
    n = K.n
    ev = isinstance(K, EVKind)

    def one():
        if big:
            out = set()
            base = [rng.randrange(1 << n) & rng.randrange(1 << n) & rng.randrange(1 << n) for _ in range(3)]
            for _ in range(rng.choice([1, 2, 6, 15])):
                m = rng.choice(base)
                for _ in range(rng.choice([0, 1, 2, 4])):
                    m ^= 1 << rng.randrange(n)
                out.add(m)
            return out
        ms = random_masks(rng, n)
        return {K.closure(m) for m in ms} if ev else ms
    F, G = one(), one()
    if F and rng.random() < .3:
        # related operands: subsets / supersets / parts of members
        L = sorted(F)
        G = set()
        for _ in range(rng.randint(1, 6)):
            m = rng.choice(L)
            r = rng.randrange(1 << n)
            m = rng.choice([m, m & r, m | r, m & ~r])
            G.add(K.closure(m) if ev else m)
    if rng.random() < .08:
        G = set(F)
    return F, G


def case(ctx, rng, k):
    name = rng.choice(['setset', 'setset', 'GraphSet', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet',
                       'VertexSetSet', 'EdgeVertexSetSet'])
    big = rng.random() < .1
    if big:
        from .algebra import grid
        K = SetSetKind().setup(rng, rng.choice([30, 70, 130, 300])) if rng.random() < .5 else \
            GraphKind().adopt(rng, relabel(rng, *grid(rng))[1])
    else:
        K = KINDS[name]().setup(rng, rng.randint(1, 8) if name != 'EdgeVertexSetSet' else rng.randint(3, 9))
    n = K.n
    full = (1 << n) - 1
    ev = isinstance(K, EVKind)
    ctx.log(K.name, K.elems[:40], getattr(K, 'how', None))
    ctx.count('kind:' + K.name + (':big' if big else ''))
    for rep in range(3):
        F, G = fams(ctx, rng, K, big)
        if len(F) * len(G) > 9000:
            G = set(rng.sample(sorted(G), 9000 // max(1, len(F)) + 1))
        f = K.mk(F, rng)
        g = K.mk(G, rng) if G != F or rng.random() < .5 else f
        ctx.log('F', sorted(F)[:40], 'G', sorted(G)[:40])

        def expect(obj, want, what):
            if not isinstance(obj, K.cls):
                raise Violation('result-type', '%s gave %r' % (what, type(obj)))
            ctx.count('op:' + what.split(' ')[0])
            got = K.masks(obj, limit=len(want) + 300)
            if got != want:
                ctx.check(False, 'operator:' + what.split(' ')[0],
                          '%s on %s over %r: F=%r G=%r: missing %r, extra %r', what, K.name, K.elems[:30],
                          [K.raw(m) for m in sorted(F)[:12]], [K.raw(m) for m in sorted(G)[:12]],
                          [K.raw(m) for m in sorted(want - got)[:4]], [K.raw(m) for m in sorted(got - want)[:4]])
            ctx.checks += 1
            ctx.seen(K.name, what.split(' ')[0], hash((frozenset(F), frozenset(G))))

        order = ['join', 'meet', 'subs', 'sups', 'nsubs', 'nsups', 'minmax', 'sizes', 'quot', 'hit', 'comp', 'flip',
                 'incl', 'joinself']
        rng.shuffle(order)
        for op in order:
            if op == 'join':
                expect(f.join(g), M.join(F, G), 'join')
            elif op == 'joinself':
                expect(f.join(f), M.join(F, F), 'join self') if len(F) < 90 else None
                expect(f.meet(f), M.meet(F, F), 'meet self') if len(F) < 90 else None
            elif op == 'meet':
                expect(f.meet(g), M.meet(F, G), 'meet')
            elif op == 'subs':
                expect(K.subsets_of(f, g), M.subs(F, G), 'subsets')
            elif op == 'sups':
                expect(K.supersets_of(f, g), M.sups(F, G), 'supersets')
            elif op == 'nsubs':
                expect(K.non_subsets_of(f, g), M.nsubs(F, G), 'non-subsets')
            elif op == 'nsups':
                expect(K.non_supersets_of(f, g), M.nsups(F, G), 'non-supersets')
            elif op == 'minmax':
                expect(f.minimal(), M.minimal(F), 'minimal')
                expect(f.maximal(), M.maximal(F), 'maximal')
            elif op == 'sizes':
                for s in {0, 1, rng.randint(0, n + 2), rng.randint(0, n + 2), n}:
                    expect(f.smaller(s), {m for m in F if M.size(m) < s}, 'smaller %d' % s)
                    expect(f.larger(s), {m for m in F if M.size(m) > s}, 'larger %d' % s)
                    expect(K.exact(f, s), {m for m in F if M.size(m) == s}, 'size %d' % s)
                    if K.name != 'setset':
                        expect(f.len(s), {m for m in F if M.size(m) == s}, 'size %d by len' % s)
            elif op == 'quot' and K.has_quotient:
                if G:
                    expect(K.quotient(f, g), M.quotient(F, G), 'quotient')
                    expect(K.remainder(f, g), M.remainder(F, G), 'remainder')
                    expect(f / g, M.quotient(F, G), 'quotient by operator')
                    expect(f % g, M.remainder(F, G), 'remainder by operator')
                    i = rng.randrange(n)
                    e = K.mk({1 << i})
                    expect(K.quotient(f, e), M.quotient(F, {1 << i}), 'quotient by an element')
                    h = f.copy()
                    if rng.random() < .5:
                        h /= g
                    else:
                        h.quotient_update(g)
                    expect(h, M.quotient(F, G), 'quotient in place')
                    h = f.copy()
                    if rng.random() < .5:
                        h %= g
                    else:
                        h.remainder_update(g)
                    expect(h, M.remainder(F, G), 'remainder in place')
            elif op == 'hit' and not ev and not big:
                expect(K.hitting(f), M.hitting(F, n), 'blocking')
            elif op == 'comp' and not ev:
                expect(K.comp(f), {full ^ m for m in F}, 'complement')
            elif op == 'flip' and K.has_flip:
                h = K.copy(f)
                i = rng.randrange(n)
                if K.name == 'GraphSet':
                    h.flip(K.elems[i])
                else:
                    K.flip(h, i, None)
                expect(h, {m ^ (1 << i) for m in F}, 'flip %r' % (K.elems[i],))
                j = rng.randrange(n)
                h.flip(K.elems[j])
                expect(h, {m ^ (1 << i) ^ (1 << j) for m in F}, 'flip twice')
            elif op == 'incl':
                expect(K.including(f, g), M.sups(F, G), 'including a family')
                expect(K.excluding(f, g), M.nsups(F, G), 'excluding a family')
                expect(K.included(f, g), M.subs(F, G), 'included a family')
                i = rng.randrange(n)
                b = 1 << i
                expect(K.including(f, K.elem(i, rng)), {m for m in F if m & b}, 'including %r' % (K.elems[i],))
                expect(K.excluding(f, K.elem(i, rng)), {m for m in F if not m & b}, 'excluding %r' % (K.elems[i],))
                if K.name != 'setset':
                    m = rng.randrange(full + 1) & rng.randrange(full + 1)
                    if F and rng.random() < .5:
                        m = rng.choice(sorted(F)) & rng.randrange(full + 1)
                    if ev:
                        m = K.closure(m)
                    mm = K.member(m, rng) if not ev else K.raw(m)
                    expect(K.including(f, mm), M.sups(F, {m}), 'including member %r' % (mm,))
                    expect(K.excluding(f, mm), M.nsups(F, {m}), 'excluding member %r' % (mm,))
                    m2 = m | rng.randrange(full + 1)
                    if ev:
                        m2 = K.closure(m2)
                    mm = K.member(m2, rng) if not ev else K.raw(m2)
                    expect(K.included(f, mm), M.subs(F, {m2}), 'included in member %r' % (mm,))
                if K.name in ('GraphSet', 'DiGraphSet') and not isinstance(K.vertices[0], tuple):
                    v = rng.choice(K.vertices)
                    inc = K.incident(v)
                    expect(f.including(v), {m for m in F if m & inc}, 'including vertex %r' % (v,))
                    expect(f.excluding(v), {m for m in F if not m & inc}, 'excluding vertex %r' % (v,))
        # operands untouched
        expect(f, F, 'operand')
        if g is not f:
            expect(g, G, 'operand')
        # combinations: an operator applied to an operator's result
        a = f.minimal()
        A = M.minimal(F)
        expect(a.join(g), M.join(A, G), 'join of minimal')
        if not big and not ev and len(A) < 80:
            h = K.hitting(a)
            H = M.hitting(A, n)
            expect(h.minimal(), M.minimal(H), 'minimal of blocking')
            # the blocker of the blocker is the family of minimal members
            if A:
                expect(K.hitting(h.minimal()).minimal(), A, 'blocker twice')
    if k < 2:
        ctx.sample({'kind': K.name, 'universe': repr(K.elems)[:150], 'F': repr(sorted(F))[:200],
                    'G': repr(sorted(G))[:200]})


def session(ctx):
    prelude(ctx)
    ctx.run(case)
