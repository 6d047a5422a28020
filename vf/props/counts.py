"""C02: sizes and enumeration."""
from math import comb
from ..fam import *


def popc(m): return bin(m).count('1')


class Stepper(object):
    """one running iterator and what it has still to yield"""
    def __init__(self, ctx, K, obj, model, how, rng):
        self.ctx, self.K, self.how = ctx, K, how
        self.left = set(model)
        self.total = len(model)
        self.it = iter(obj) if how == 'iter' else obj.rand_iter() if how == 'rand_iter' else obj.min_iter()
        self.done = False

    def step(self):
        ctx, K = self.ctx, self.K
        try:
            m = K.tomask(next(self.it))
        except StopIteration:
            ctx.check(not self.left, 'enumeration:' + self.how, '%s over %s stops with %d of %d members missing',
                      self.how, K.name, len(self.left), self.total)
            self.done = True
            ctx.count('iterators run to the end')
            return
        ctx.check(m in self.left, 'enumeration:' + self.how, '%s over %s yields %r, not a member or seen before',
                  self.how, K.name, K.raw(m))
        self.left.discard(m)
        ctx.count('members yielded')


def small(ctx, rng, k):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    K = KINDS[name]().setup(rng, rng.randint(1, 9) if name != 'EdgeVertexSetSet' else rng.randint(3, 9))
    n = K.n
    ev = name == 'EdgeVertexSetSet'
    ctx.log(K.name, K.elems[:40], getattr(K, 'how', None))
    fams = []
    for _ in range(rng.randint(1, 3)):
        M = random_masks(rng, n)
        M = {K.closure(m) for m in M} if ev else M
        o = K.mk(M, rng)
        if not ev and rng.random() < .3:
            o, M = ~o, set(range(1 << n)) - M
        if rng.random() < .3 and fams:
            o2, M2 = rng.choice(fams)
            o, M = o | o2, M | M2
        fams.append((o, M))
    for o, M in fams:
        ctx.log('family', sorted(M)[:60])
        ctx.count('families')
        ctx.seen(name, n, hash(frozenset(M)))
        ctx.eq(len(o), len(M), 'size:len', 'len()')
        ctx.eq(o.len(), len(M), 'size:len', '.len()')
        ctx.eq(bool(o), bool(M), 'size:bool', 'bool()')
        for size in sorted(set(rng.sample(range(n + 2), min(n + 2, 4)) + [n, n + 1] + rng.choice([[], [10 ** 6, 2 ** 32 + 1]]))):
            want = {m for m in M if popc(m) == size}
            for how, f in (('len(size)', lambda: o.len(size)), ('exact size', lambda: K.exact(o, size))):
                r = f()
                ctx.check(isinstance(r, K.cls), 'result-type', '%s returned %r', how, type(r))
                ctx.eq(len(r), len(want), 'size:' + how, '%s %d: number' % (how, size))
                if len(want) < 200:
                    ctx.eq(K.masks(r, len(want) + 50), want, 'size:' + how, '%s %d: members' % (how, size))
            ctx.eq(len(o.smaller(size)) + len(want) + len(o.larger(size)), len(M), 'size:partition',
                   'members smaller, equal and larger than %d' % size)
            ctx.count('size restrictions')
        if M:
            ctx.check(K.tomask(o.choice()) in M, 'choice', 'choice() is not a member')
        else:
            for f in (o.choice, o.copy().pop):
                try:
                    f()
                    raise Violation('choice-empty', 'choice()/pop() of the empty family returned something')
                except KeyError:
                    ctx.count('KeyError on empty')
    # interleaved, abandoned and re-created iterators
    run = []
    budget = 500
    finish = []
    while budget > 0:
        budget -= 1
        r = rng.random()
        if (r < .06 or not run) and len(run) < 7:
            o, M = rng.choice(fams)
            run.append(Stepper(ctx, K, o, M, rng.choice(['iter', 'iter', 'rand_iter', 'rand_iter', 'min_iter']), rng))
            ctx.count('iterators begun')
            if budget < 200 and len(M) > 150:
                break
        elif r < .08:
            run.pop(rng.randrange(len(run)))
            ctx.count('iterators abandoned')
        else:
            s = rng.choice(run)
            s.step()
            if s.done:
                run.remove(s)
    for s in run:
        while not s.done:
            s.step()
    # popping to the end
    o, M = rng.choice(fams)
    c, left = o.copy(), set(M)
    if len(left) <= 150:
        while left:
            m = K.tomask(c.pop())
            ctx.check(m in left, 'pop', 'pop() yields %r, not a member', K.raw(m))
            left.discard(m)
            if rng.random() < .2:
                ctx.eq(len(c), len(left), 'pop', 'len() after pop()')
        ctx.eq(len(c), 0, 'pop', 'len() after popping everything')
        ctx.eq(len(o), len(M), 'pop', 'popping a copy changes the original')


class Cubes(object):
    """signed sums of cubes {S | inc <= S, S & exc = 0}: exact sizes of big families"""
    def __init__(self, n, terms): self.n, self.terms = n, terms

    @staticmethod
    def cube(n, inc, exc):
        return Cubes(n, [(1, inc, exc)] if not inc & exc else [])

    def __and__(self, o):
        out = []
        for c, i, e in self.terms:
            for c2, i2, e2 in o.terms:
                if not (i | i2) & (e | e2):
                    out.append((c * c2, i | i2, e | e2))
        return Cubes(self.n, out)

    def plus(self, o, sign=1): return Cubes(self.n, self.terms + [(sign * c, i, e) for c, i, e in o.terms])
    def __or__(self, o): return self.plus(o).plus(self & o, -1)
    def __sub__(self, o): return self.plus(self & o, -1)
    def __xor__(self, o): return (self - o).plus(o - self)
    def has(self, m): return sum(c for c, i, e in self.terms if m & i == i and not m & e)
    def count(self): return sum(c << (self.n - popc(i) - popc(e)) for c, i, e in self.terms)

    def count_size(self, k):
        return sum(c * comb(self.n - popc(i) - popc(e), k - popc(i)) for c, i, e in self.terms if k >= popc(i))


def big(ctx, rng, k):
    from .algebra import grid
    if rng.random() < .5:
        K = SetSetKind().setup(rng, rng.choice([20, 40, 62, 63, 64, 65, 100, 130, 256, 500, 900]))
    else:
        K = GraphKind().adopt(rng, relabel(rng, *grid(rng))[1])
    n = K.n
    full = (1 << n) - 1
    ctx.count('big universes')
    ctx.log('big', K.name, n)

    def cube():
        t = rng.random()
        inc = exc = 0
        for _ in range(rng.choice([0, 1, 2, 5, n // 3])):
            inc |= 1 << rng.randrange(n)
        for _ in range(rng.choice([0, 1, 2, 5, n // 3])):
            exc |= 1 << rng.randrange(n)
        if t < .15:
            inc = rng.randrange(full + 1)
            exc = full & ~inc
        exc &= ~inc
        o = K.mkdict(inc, exc, rng) if rng.random() < .8 or t < .15 else K.mkdict(inc, 0) - \
            (K.mkdict(inc, 0) - K.mkdict(inc, exc))
        return o, Cubes.cube(n, inc, exc)
    o, c = cube()
    for _ in range(rng.randint(0, 3)):
        o2, c2 = cube()
        op = rng.choice('|&-^')
        if op == '|':
            o, c = o | o2, c | c2
        elif op == '&':
            o, c = o & o2, c & c2
        elif op == '-':
            o, c = o - o2, c - c2
        else:
            o, c = o ^ o2, c ^ c2
        if len(c.terms) > 60:
            break
    total = c.count()
    ctx.seen('big', n, total)
    ctx.eq(o.len(), total, 'size:len', '.len() of a big family over %d elements' % n)
    try:
        ln = len(o)
        ctx.eq(ln, total, 'size:len', 'len() of a big family')
    except OverflowError:
        ctx.check(total >= 1 << 63, 'size:overflow', 'len() raises OverflowError for %d members', total)
        ctx.count('OverflowError')
    for size in rng.sample(range(n + 1), 3) + [0, n]:
        ctx.eq(K.exact(o, size).len(), c.count_size(size), 'size:exact size',
               'number of members with %d of %d elements' % (size, n))
        ctx.count('size restrictions')
    for how in ('iter', 'rand_iter'):
        it = iter(o) if how == 'iter' else o.rand_iter()
        seen = set()
        for _ in range(rng.choice([5, 40])):
            try:
                m = K.tomask(next(it))
            except StopIteration:
                ctx.eq(len(seen), total, 'enumeration:' + how, 'number of members before the end')
                break
            ctx.eq(c.has(m), 1, 'enumeration:' + how, '%s over a big family yields a non-member %r' % (how, K.raw(m)[:60]))
            # more than 10^17 members: random picks are made with replacement
            if how == 'iter' or total < 10 ** 16:
                ctx.check(m not in seen, 'enumeration:' + how, '%s yields %r twice', how, K.raw(m)[:60])
            seen.add(m)
            ctx.count('members yielded')
    if total:
        ctx.eq(c.has(K.tomask(o.choice())), 1, 'choice', 'choice() from a big family')
        d = o.copy()
        ctx.eq(c.has(K.tomask(d.pop())), 1, 'pop', 'pop() from a big family')
        ctx.eq(d.len(), total - 1, 'pop', 'len() after pop()')
        ctx.eq(o.len(), total, 'pop', 'popping a copy changes the original')


def case(ctx, rng, k):
    (big if rng.random() < .25 else small)(ctx, rng, k)


def session(ctx):
    prelude(ctx)
    ctx.run(case)
