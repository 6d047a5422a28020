"""C01: histories of set-algebra operations, in lock step with Python sets."""
from ..fam import *
from ..core import api_call

BIN = ['union', 'intersection', 'difference', 'symmetric_difference']
PYBIN = {'union': lambda a, b: a | b, 'intersection': lambda a, b: a & b,
         'difference': lambda a, b: a - b, 'symmetric_difference': lambda a, b: a ^ b}
OPER = {'union': lambda a, b: a | b, 'intersection': lambda a, b: a & b,
        'difference': lambda a, b: a - b, 'symmetric_difference': lambda a, b: a ^ b}
UPD = {'union': 'update', 'intersection': 'intersection_update', 'difference': 'difference_update',
       'symmetric_difference': 'symmetric_difference_update'}


def ior(a, b):
    a |= b
    return a


def iand(a, b):
    a &= b
    return a


def isub(a, b):
    a -= b
    return a


def ixor(a, b):
    a ^= b
    return a


IOP = {'union': ior, 'intersection': iand, 'difference': isub, 'symmetric_difference': ixor}


class Slot(object):
    """an object with its model; aliases share the Slot"""
    def __init__(self, obj, model):
        self.obj, self.model = obj, set(model)


def history(ctx, rng, K, steps, big):
    n = K.n
    full = (1 << n) - 1
    ev = isinstance(K, EVKind)
    slots = []
    iters = []      # (iterator, remaining model members, kind)

    def fam():
        ms = sparse() if big else random_masks(rng, n)
        return {K.closure(m) for m in ms} if ev else ms

    def sparse():
        pool = [0, full] + [1 << rng.randrange(n) for _ in range(4)]
        out = set()
        for _ in range(rng.choice([0, 1, 2, 5, 12])):
            m = 0
            for _ in range(rng.choice([1, 2, 3, n // 2])):
                m |= 1 << rng.randrange(n)
            out.add(rng.choice(pool) if rng.random() < .2 else m)
        return out

    def verify(s, why):
        got = K.masks(s.obj, limit=len(s.model) + 200)
        ctx.eq(got, s.model, 'contents', 'members after %s' % why)
        ctx.eq(len(s.obj), len(s.model), 'len', 'len() after %s' % why)

    def new(obj, model, why):
        if not isinstance(obj, K.cls):
            raise Violation('result-type', '%s returned %r instead of a %s' % (why, type(obj), K.cls.__name__))
        s = Slot(obj, model)
        verify(s, why)
        slots.append(s)
        if len(slots) > 7:
            slots.pop(rng.randrange(len(slots)))
        return s

    def amember(s):
        if s.model and rng.random() < .6:
            return rng.choice(sorted(s.model))
        m = rng.randrange(full + 1) if not big else (rng.choice(sorted(sparse() or {0})))
        return K.closure(m) if ev else m

    for _ in range(2):
        m = fam()
        new(K.mk(m, rng), m, 'construction')

    for step in range(steps):
        s = rng.choice(slots)
        t = rng.choice(slots)
        op = rng.choice(['bin', 'bin', 'bin', 'multi', 'upd', 'upd', 'iop', 'rel', 'rel', 'member', 'add', 'add',
                         'remove', 'discard', 'pop', 'clear', 'copy', 'elem', 'elem', 'new', 'invert', 'dict',
                         'iter', 'iterstep', 'alias', 'ctor', 'vertex', 'absent', 'popall'])
        ctx.log(op)
        ctx.count('op:' + op)
        if op == 'bin':
            f = rng.choice(BIN)
            want = PYBIN[f](s.model, t.model)
            if rng.random() < .5:
                r = OPER[f](s.obj, t.obj)
            else:
                r = getattr(s.obj, f)(t.obj)
            new(r, want, '%s of %r and %r' % (f, sorted(s.model)[:20], sorted(t.model)[:20]))
            verify(s, f + ' (left operand)')
            verify(t, f + ' (right operand)')
        elif op == 'multi':
            f = rng.choice(BIN)
            others = [rng.choice(slots) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
            want = set(s.model)
            for o in others:
                want = PYBIN[f](want, o.model)
            new(getattr(s.obj, f)(*[o.obj for o in others]), want, '%s with %d operands' % (f, len(others)))
            verify(s, f)
            for o in others:
                verify(o, f)
        elif op in ('upd', 'iop'):
            f = rng.choice(BIN)
            if op == 'upd':
                others = [rng.choice(slots) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                om = [set(o.model) for o in others]
                before = s.obj
                getattr(s.obj, UPD[f])(*[o.obj for o in others])
                # operands equal to the target itself are read as they are when their turn comes
                want = set(s.model)
                for o, m in zip(others, om):
                    want = PYBIN[f](want, m if o is not s else want)
                s.model = want
                why = UPD[f]
            else:
                others = [t]
                ident = s.obj
                want = PYBIN[f](s.model, t.model)
                r = IOP[f](s.obj, t.obj)
                ctx.check(isinstance(r, K.cls), 'result-type', '%s in place yields %r', f, type(r))
                ctx.check(r is ident, 'in-place-identity', 'in-place %s made a new object: aliases are not updated', f)
                s.model = set(want)
                why = f + ' in place'
            verify(s, why)
            for o in others:
                verify(o, why + ' (operand)')
        elif op == 'rel':
            a, b = s.model, t.model
            pairs = [('==', s.obj == t.obj, a == b), ('!=', s.obj != t.obj, a != b), ('<=', s.obj <= t.obj, a <= b),
                     ('<', s.obj < t.obj, a < b), ('>=', s.obj >= t.obj, a >= b), ('>', s.obj > t.obj, a > b),
                     ('isdisjoint', s.obj.isdisjoint(t.obj), a.isdisjoint(b)),
                     ('issubset', s.obj.issubset(t.obj), a <= b), ('issuperset', s.obj.issuperset(t.obj), a >= b),
                     ('bool', bool(s.obj), bool(a))]
            for nm, got, want in pairs:
                ctx.eq(got, want, 'relation', '%s of %r and %r' % (nm, sorted(a)[:20], sorted(b)[:20]))
            ctx.count('relations', len(pairs))
        elif op == 'member':
            m = amember(s)
            ctx.eq(K.member(m, rng) in s.obj, m in s.model, 'membership', 'member %r' % (K.raw(m),))
            ctx.eq(K.member(m, rng) not in s.obj, m not in s.model, 'membership', 'not in')
            i = rng.randrange(n)
            ctx.eq(K.elem(i, rng) in s.obj, any(x >> i & 1 for x in s.model), 'element-membership',
                   'element %r' % (K.elems[i],))
            if K.name == 'GraphSet' and not isinstance(K.vertices[0], tuple):
                v = rng.choice(K.vertices)
                ctx.eq(v in s.obj, any(x & K.incident(v) for x in s.model), 'vertex-membership', 'vertex %r' % (v,))
        elif op == 'add':
            m = amember(s)
            s.obj.add(K.member(m, rng))
            s.model.add(m)
            verify(s, 'add %r' % (K.raw(m),))
        elif op == 'remove':
            if s.model:
                m = rng.choice(sorted(s.model))
                s.obj.remove(K.member(m, rng))
                s.model.remove(m)
                verify(s, 'remove %r' % (K.raw(m),))
        elif op == 'absent':
            m = amember(s)
            if m not in s.model:
                try:
                    s.obj.remove(K.member(m, rng))
                    raise Violation('remove-absent', 'remove() of an absent member %r raised nothing' % (K.raw(m),))
                except KeyError:
                    ctx.count('KeyError')
                verify(s, 'rejected remove')
        elif op == 'discard':
            m = amember(s)
            s.obj.discard(K.member(m, rng))
            s.model.discard(m)
            verify(s, 'discard %r' % (K.raw(m),))
        elif op == 'pop' or op == 'popall':
            cnt = 1 if op == 'pop' else min(len(s.model) + 1, 6)
            for _ in range(cnt):
                if s.model:
                    m = K.tomask(s.obj.pop())
                    ctx.check(m in s.model, 'pop', 'pop() returned %r, not a member', K.raw(m))
                    s.model.discard(m)
                else:
                    try:
                        s.obj.pop()
                        raise Violation('pop-empty', 'pop() of an empty family raised nothing')
                    except KeyError:
                        ctx.count('KeyError')
            verify(s, 'pop')
        elif op == 'clear':
            if rng.random() < .3:
                s.obj.clear()
                s.model.clear()
                verify(s, 'clear')
        elif op == 'copy':
            new(s.obj.copy(), s.model, 'copy')
        elif op == 'ctor':
            new(K.cls(s.obj) if K.name != 'setset' else setset(s.obj.copy()), s.model, 'construction from a family')
        elif op == 'alias':
            a = Slot.__new__(Slot)
            slots.append(s)
            if len(slots) > 7:
                slots.pop(0)
        elif op == 'elem':
            i = rng.randrange(n)
            b = 1 << i
            what = rng.choice(['add', 'discard', 'remove'])
            if ev:
                # add_vertex grafts a vertex onto every member
                i = rng.randrange(K.nv)
                b = 1 << i
                s.obj.add_vertex(K.elems[i])
                s.model = {m | b for m in s.model}
                verify(s, 'add_vertex %r' % (K.elems[i],))
            elif what == 'add':
                s.obj.add(K.elem(i, rng))
                s.model = {m | b for m in s.model}
                verify(s, 'add element %r' % (K.elems[i],))
            elif what == 'discard':
                s.obj.discard(K.elem(i, rng))
                s.model = {m & ~b for m in s.model}
                verify(s, 'discard element %r' % (K.elems[i],))
            elif any(m & b for m in s.model):
                s.obj.remove(K.elem(i, rng))
                s.model = {m & ~b for m in s.model}
                verify(s, 'remove element %r' % (K.elems[i],))
            else:
                try:
                    s.obj.remove(K.elem(i, rng))
                    raise Violation('remove-absent', 'remove() of an absent element %r raised nothing' % (K.elems[i],))
                except KeyError:
                    ctx.count('KeyError')
                verify(s, 'rejected remove')
        elif op == 'vertex':
            if K.name in ('GraphSet', 'DiGraphSet') and not isinstance(K.vertices[0], tuple):
                v = rng.choice(K.vertices)
                inc = K.incident(v)
                if K.name == 'GraphSet' or True:
                    s.obj.discard(v)
                    s.model = {m & ~inc for m in s.model}
                    verify(s, 'discard vertex %r' % (v,))
        elif op == 'new':
            m = fam()
            new(K.mk(m, rng), m, 'construction')
        elif op == 'invert':
            if not ev and not big and n <= 9:
                new(~s.obj, set(range(full + 1)) - s.model, 'complement of a family')
                verify(s, 'complement')
        elif op == 'dict':
            if ev:
                if len(K.edges) <= 4:
                    r = K.cls({})
                    ne = len(K.edges)
                    new(r, {K.closure(x << K.nv) for x in range(1 << ne)}, 'construction from {}')
            elif n <= 9 and not big:
                inc = rng.randrange(full + 1) & rng.randrange(full + 1) if rng.random() < .8 else 0
                exc = rng.randrange(full + 1) & rng.randrange(full + 1) & ~inc
                if inc and rng.random() < .15:
                    # contradictory constraints: rejected, or the empty family
                    try:
                        r = K.mkdict(inc, exc | inc, rng)
                    except TypeError:
                        ctx.count('contradictory constraints rejected')
                    else:
                        new(r, set(), 'contradictory constraints')
                new(K.mkdict(inc, exc, rng), {m for m in range(full + 1) if m & inc == inc and not m & exc},
                    'construction from include %r exclude %r' % (K.raw(inc), K.raw(exc)))
                if rng.random() < .3:
                    new(K.cls({}), set(range(full + 1)), 'construction from {}')
                    if rng.random() < .5:
                        new(K.cls({'exclude': K.raw(exc)}), {m for m in range(full + 1) if not m & exc},
                            'construction from exclude')
                    else:
                        new(K.cls({'include': K.raw(inc)}), {m for m in range(full + 1) if m & inc == inc},
                            'construction from include')
        elif op == 'iter':
            it = iter(s.obj) if rng.random() < .7 else s.obj.rand_iter()
            left = set(s.model)
            for _ in range(rng.randint(1, 2)):
                try:
                    m = K.tomask(next(it))
                    ctx.check(m in left, 'iterator', 'a fresh iterator yields %r, which is not (any more) to come', m)
                    left.discard(m)
                except StopIteration:
                    ctx.check(not left, 'iterator', 'iteration stops with %d members to come', len(left))
            iters.append((it, left))
            if len(iters) > 4:
                it, left = iters.pop(0)
                rest = set()
                for mem in it:
                    m = K.tomask(mem)
                    ctx.check(m in left and m not in rest, 'live-iterator',
                              'an iterator begun before later changes yields %r', K.raw(m))
                    rest.add(m)
                ctx.eq(rest, left, 'live-iterator', 'rest of an iterator begun before later changes')
                ctx.count('live iterators finished')
        elif op == 'iterstep' and iters:
            it, left = rng.choice(iters)
            try:
                m = K.tomask(next(it))
                ctx.check(m in left, 'live-iterator', 'a running iterator yields %r', K.raw(m))
                left.discard(m)
            except StopIteration:
                ctx.check(not left, 'live-iterator', 'a running iterator stops with %d members to come', len(left))
        ctx.seen(K.name, op, len(s.model) if not big else -1, hash(frozenset(s.model)) & 0xffff)
        if step % 12 == 11:
            for x in slots:
                verify(x, 'unrelated operations')
    for x in slots:
        verify(x, 'the whole history')
    for it, left in iters:
        rest = K.masks(it)
        ctx.eq(rest, left, 'live-iterator', 'rest of an iterator at the end of the history')


def case(ctx, rng, k):
    name = rng.choice(['setset', 'GraphSet', 'GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet'])
    big = rng.random() < .12
    if big:
        K = SetSetKind().setup(rng, rng.choice([40, 70, 130, 400, 1200])) if rng.random() < .6 else \
            GraphKind().adopt(rng, relabel(rng, *grid(rng))[1])
    else:
        K = KINDS[name]().setup(rng, rng.randint(1, 7) if name != 'EdgeVertexSetSet' else rng.randint(3, 8))
    ctx.log(K.name, K.elems[:40], getattr(K, 'how', None))
    ctx.count('history:' + K.name + (':big' if big else ''))
    history(ctx, rng, K, 40, big)
    if k < 2:
        ctx.sample({'universe': repr(K.elems)[:200], 'kind': K.name, 'last operations': ctx.trace[-8:]})


def grid(rng):
    a, b = rng.choice([(4, 6), (5, 8), (3, 20)])
    E = []
    for i in range(a):
        for j in range(b):
            if i + 1 < a:
                E.append((i * b + j, (i + 1) * b + j))
            if j + 1 < b:
                E.append((i * b + j, i * b + j + 1))
    return a * b, E


def session(ctx):
    prelude(ctx)
    ctx.run(case)
