"""C15: families written to files and strings and read back, here and in
other processes; damaged texts and failing files."""
import io, os, pickle, resource, tempfile, threading
from ..fam import *
from ..core import api_call
from ..pristine import Pristine, Crash

CLS = {'setset': setset, 'GraphSet': GraphSet, 'DiGraphSet': DiGraphSet, 'VertexSetSet': VertexSetSet,
       'EdgeVertexSetSet': EdgeVertexSetSet}


def universe_of(K):
    if isinstance(K, SetSetKind):
        return setset.universe()
    if isinstance(K, DiKind):
        return DiGraphSet.universe()
    if isinstance(K, VertexKind):
        return Universe.v_objtable.universe()
    return GraphSet.universe()


def other_process(name, universe, text, noise, path):
    """loads a text under a pickled universe in a fresh process"""
    universe = pickle.loads(universe)
    if noise:
        setset.set_universe(range(noise))
        x = setset([set(range(noise)), {0, noise - 1}, set()])
        x |= x.add_some_element()
        setset.set_universe([0])
    cls = CLS[name]
    if name == 'VertexSetSet':
        GraphSet.set_universe([(1, 2), (1, 3)])
        Universe.set_vertex_universe(universe, tuple_vertex=True)
    elif name == 'setset':
        setset.set_universe(universe)
    else:
        cls2 = GraphSet if name == 'EdgeVertexSetSet' else cls
        cls2.set_universe(universe, traversal='as-is')
    if path is None:
        f = cls.loads(text)
    else:
        with open(path) as fp:
            f = cls.load(fp)
    n = f.len()
    mem = sorted(sorted(map(repr, m)) for m in f) if n <= 3000 else None
    again = cls.loads(f.dumps())
    return n, mem, canon(f.dumps()), again == f and type(f) is cls and again.dumps() == f.dumps()


def canon(text):
    """the text with the node names replaced by their order of appearance"""
    ix, out = {}, []
    for line in text.splitlines():
        w = line.split()
        if len(w) == 4:
            for x in w[2:]:
                if x not in 'BT' and x not in ix:
                    return 'reference to an unwritten node: ' + line
            ix.setdefault(w[0], 'n%d' % len(ix))
            out.append((ix[w[0]], w[1], ix.get(w[2], w[2]), ix.get(w[3], w[3])))
        else:
            out.append(tuple(w))
    return out


def evaluate(text):
    """the family a text describes, as masks (element i is bit i - 1)"""
    L = text.split('\n')
    if L[0] in ('B', 'T'):
        return set() if L[0] == 'B' else {0}
    fam = {'B': set(), 'T': {0}}
    root = None
    for line in L:
        if line == '.':
            return fam[root]
        a, v, l, h = line.split()
        fam[a] = fam[l] | {m | 1 << (int(v) - 1) for m in fam[h]}
        root = a
    raise ValueError('no end')


def read_back(ctx, rng, K, f, masks, d):
    """one roundtrip through a string, a file or a pipe"""
    cls = K.cls
    how = rng.choice(['str', 'str', 'file', 'binary', 'append', 'pipe', 'fd', 'tmp'])
    t = f.dumps()
    p = os.path.join(d, 'f')
    if how == 'str':
        g = cls.loads(t)
    elif how in ('file', 'binary'):
        b = 'b' if how == 'binary' else ''
        with open(p, 'w' + b) as fp:
            ctx.check(f.dump(fp) is None, 'dump:result', 'dump() returns something')
        with open(p) as fp:
            ctx.eq(fp.read(), t, 'dump:text', 'dump() against dumps()')
        with open(p, 'r' + b) as fp:
            g = cls.load(fp)
            ctx.check(not fp.closed, 'load:closes', 'load() closed the file')
    elif how == 'append':
        with open(p, 'w') as fp:
            fp.write('0 1 B T\n'[:0])
            fp.flush()
            f.dump(fp)
            fp.write('this follows the family\n')
        with open(p) as fp:
            s = fp.read()
            ctx.eq(s, t + 'this follows the family\n', 'dump:text', 'a file written on after dump()')
        with open(p) as fp:
            g = cls.load(fp)
    elif how == 'pipe':
        r, w = os.pipe()

        step, b = rng.choice([1, 7, 100, 1000, 100000]), t.encode()

        def write():
            i = 0
            try:
                while i < len(b):
                    i += os.write(w, b[i:i + (step if i < 3000 else 100000)])
            except BrokenPipeError:
                pass
            os.close(w)
        th = threading.Thread(target=write)
        th.start()
        try:
            with os.fdopen(r) as fp:
                g = cls.load(fp)
        finally:
            th.join()
    elif how == 'fd':
        fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        f._ss.dump(fd) if not isinstance(f, setset) else f.dump(fd)
        os.lseek(fd, 0, 0)
        with os.fdopen(fd) as fp:
            g = cls.load(fp)
    else:
        with tempfile.TemporaryFile(dir=d) as fp:
            f.dump(fp)
            fp.seek(0)
            g = cls.load(fp)
    ctx.count('through ' + how)
    ctx.check(type(g) is cls, 'load:type', 'loaded a %s', type(g).__name__)
    ctx.check(g == f and not (g != f), 'load:equal', 'the family read back (%s) differs from the one written: %s', how, t[:300])
    ctx.eq(g.dumps(), t, 'load:redump', 'text written again (%s)' % how)
    return g


def ALLK(rng):
    K = rng.choice([SetSetKind, SetSetKind, GraphKind, GraphKind, DiKind, VertexKind, EVKind])()
    n = rng.choice([1, 2, 4, 6, 8, 10])
    return K.setup(rng, n) if not isinstance(K, DiKind) else K.setup(rng, min(n, 8))


def small(ctx, rng, k, srv, d):
    K = ALLK(rng)
    ctx.log(K.name, K.elems)
    prev = None
    for rep in range(4):
        masks = random_masks(rng, K.n)
        if isinstance(K, EVKind):
            masks = {K.closure(m) for m in masks}
        f = K.mk(masks, rng)
        t = f.dumps()
        ctx.log('family', sorted(masks)[:200], t[:200])
        g = read_back(ctx, rng, K, f, masks, d)
        ctx.eq(K.masks(g), masks, 'load:members', 'members read back')
        ctx.eq(K.masks(f), masks, 'dump:changes', 'the family after dump()')
        ctx.eq(f.dumps(), t, 'dump:repeat', 'dumps() again')
        ctx.check(len(t) < 4000 or t.count('\n') <= 1 + len(masks) * K.n + 1, 'dump:size', 'text of %d lines', t.count('\n'))
        # what the text says, read by the stated format
        ix = {e: i for i, e in enumerate(obj_universe(K))}
        back = [K.index[e] for e in obj_universe(K)] if K.name != 'setset' else None
        if back is None:
            back = [K.index[e] for e in setset._objtable.universe()]
        said = {sum(1 << back[i] for i in bits(m)) for m in evaluate(t)}
        ctx.eq(said, masks, 'dump:says', 'family described by the text')
        ctx.seen(K.name, K.n, sorted(masks))
        # changing the loaded family leaves the first one alone
        if masks:
            g.clear()
            ctx.eq(f.len(), len(masks), 'load:shared', 'the family after clearing the one read back')
        if prev is not None:
            g = K.cls.loads(prev[0])
            ctx.eq(K.masks(g), prev[1], 'load:earlier', 'an earlier text read later')
        if rng.random() < .25:
            path = None
            if rng.random() < .5:
                path = os.path.join(d, 'g')
                with open(path, 'w') as fp:
                    f.dump(fp)
            try:
                n, mem, can, same = srv.call('vf.props.dumps:other_process', K.name, pickle.dumps(universe_of(K)), t,
                                             rng.choice([0, 0, 3, 20, 200]), path)
            except Crash as e:
                ctx.check(False, 'load:crash', '%s', e)
            except RuntimeError as e:
                ctx.check(False, 'load:other-error', 'reading in another process: %s', e)
            ctx.eq(n, len(masks), 'load:other-len', 'sets read in another process')
            ctx.eq(mem, sorted(sorted(map(repr, m)) for m in f), 'load:other-members', 'members read in another process')
            ctx.eq(can, canon(t), 'load:other-text', 'text written again by another process')
            ctx.check(same, 'load:other-again', 'a second roundtrip in another process differs')
            ctx.count('read in another process')
        prev = (t, masks)


def obj_universe(K):
    return {'GraphSet': lambda: Universe.e_objtable.universe(), 'DiGraphSet': lambda: DiGraphSet._objtable.universe(),
            'VertexSetSet': lambda: Universe.v_objtable.universe(),
            'EdgeVertexSetSet': lambda: Universe.ev_objtable.universe(),
            'setset': lambda: setset._objtable.universe()}[K.name]()


def damage(rng, t):
    """a text that does not describe a family, and what was done to it"""
    L = t.split('\n')
    assert L[-1] == '' and L[-2] == '.'
    nodes = L[:-2]
    kind = rng.choice(['cut', 'cut', 'cutline', 'noend', 'empty', 'junk', 'ref', 'var', 'field', 'drop', 'blank', 'swap'])
    if kind == 'cut':
        # inside the text, before its final dot
        return t[:rng.randrange(len(t) - 2)], 'cut' if len(nodes[0]) > 1 else None
    if kind == 'cutline':
        return '\n'.join(nodes[:rng.randrange(len(nodes) + 1)]) + '\n', kind if len(nodes[0]) > 1 else None
    if kind == 'noend':
        return '\n'.join(nodes) + '\n', kind if len(nodes[0]) > 1 else None
    if kind == 'empty':
        return rng.choice(['', '\n', '.', '.\n', ' \n.\n']), kind
    if kind == 'blank':
        return rng.choice([' ', '\t\n', '\n\n\n']), kind
    if kind == 'junk':
        j = rng.choice(['hello', '1 2', '{}', '-', '5 5', 'B B B B', '1 2 3', 'nan nan nan nan', 'x' * rng.choice([300, 5000]),
                        '1 ' * 400, '\u4e16\u754c', '9' * 400 + ' 1 B T', '7 1 B ' + 'T' * 300, '7 1 ' + '9' * 255 + ' T'])
        i = rng.randrange(len(nodes) + 1) if len(nodes[0]) > 1 else 0
        return '\n'.join(nodes[:i] + [j] + nodes[i:] + ['.', '']), kind
    if len(nodes[0]) <= 1:
        return t, None
    i = rng.randrange(len(nodes))
    w = nodes[i].split()
    if kind == 'ref':
        c = rng.choice([2, 3])
        w[c] = rng.choice(['999999999', 'X', '-7', 'b', '%s', '99999999999999999999999', w[0]])
    elif kind == 'var':
        w[1] = rng.choice(['0', '-1', '99999999', 'x', '', '4294967297', '65537', '18446744073709551617', '-9223372036854775808'])
    elif kind == 'field':
        w = w[:rng.randrange(1, 4)]
    elif kind == 'drop':
        if len(nodes) < 2:
            return t, None
        i = rng.randrange(len(nodes) - 1)        # all but the root are referred to later
        return '\n'.join(nodes[:i] + nodes[i + 1:] + ['.', '']), kind
    elif kind == 'swap':
        if len(nodes) < 2:
            return t, None
        return '\n'.join([nodes[-1]] + nodes[:-1] + ['.', '']), kind    # the root first: refers to what follows
    nodes = nodes[:i] + [' '.join(w)] + nodes[i + 1:]
    return '\n'.join(nodes + ['.', '']), kind


def broken(ctx, rng, k, srv, d):
    K = ALLK(rng)
    masks = random_masks(rng, K.n)
    if isinstance(K, EVKind):
        masks = {K.closure(m) for m in masks}
    f = K.mk(masks, rng)
    t = f.dumps()
    for rep in range(12):
        bad, kind = damage(rng, t)
        if kind is None:
            continue
        ctx.log(K.name, kind, bad[:300])
        via = rng.choice(['str', 'str', 'file', 'pipe'])
        try:
            if via == 'str':
                g = K.cls.loads(bad)
            else:
                p = os.path.join(d, 'b')
                with open(p, 'wb') as fp:
                    fp.write(bad.encode())
                with open(p) as fp:
                    g = K.cls.load(fp)
        except ValueError:
            ctx.count('rejected: ' + kind)
        except Exception as e:
            ctx.check(False, 'load:wrong-error', 'a damaged text (%s) raises %r instead of ValueError', kind, e)
        else:
            ctx.check(False, 'load:accepts', 'a damaged text (%s) is read as %d sets: %r', kind, g.len(), bad[:300])
        ctx.checks += 1
        ctx.eq(K.masks(K.cls.loads(t)), masks, 'load:after-error', 'a good text read after a damaged one')
        ctx.eq(K.masks(f), masks, 'load:error-damage', 'a family after a failed load')
        ctx.seen('damaged', kind, bad)
    # arguments that are not texts or files
    for bad in (None, 3.5, [], b'B\n', object(), io.StringIO('B\n.\n')):
        for fn in (K.cls.loads, K.cls.load, f.dump):
            if fn == f.dump and bad is None:
                pass
            try:
                fn(bad)
            except (TypeError, ValueError, AttributeError, io.UnsupportedOperation):
                ctx.checks += 1
            else:
                ctx.check(False, 'dump:argument', '%s(%r) raises nothing', fn.__name__, bad)
    # files that cannot be used
    p = os.path.join(d, 'x')
    with open(p, 'w') as fp:
        fp.write(t)
    st = os.stat(p).st_size
    with open(p) as fp:
        raises(ctx, 'dump() to a file open for reading', f.dump, fp)
    with open(p, 'a') as fp:
        raises(ctx, 'load() from a file open for writing', K.cls.load, fp)
    fp = open(p)
    fp.close()
    raises(ctx, 'load() from a closed file', K.cls.load, fp)
    raises(ctx, 'dump() to a closed file', f.dump, fp)
    with open('/dev/full', 'w') as fp:
        raises(ctx, 'dump() to a full device', f.dump, fp)
    with open('/dev/null') as fp:
        raises(ctx, 'load() from an empty file', K.cls.load, fp)
    r, w = os.pipe()
    os.close(r)
    with os.fdopen(w, 'w') as fp:
        raises(ctx, 'dump() to a pipe nobody reads', f.dump, fp)
    ctx.eq(os.stat(p).st_size, st, 'dump:touches', 'size of a file open for reading')
    ctx.eq(K.masks(f), masks, 'dump:error-damage', 'the family after failing files')
    fds = len(os.listdir('/proc/self/fd'))
    for _ in range(3):
        with open(p) as fp:
            ctx.eq(K.masks(K.cls.load(fp)), masks, 'load:after-error', 'a good file after failing ones')
        try:
            K.cls.loads(t[:1] + '!')
        except ValueError:
            pass
        with open('/dev/full', 'w') as fp:
            try:
                f.dump(fp)
            except OSError:
                pass
    ctx.eq(len(os.listdir('/proc/self/fd')), fds, 'dump:descriptors', 'open descriptors after loads and dumps')
    ctx.count('failing files')


def raises(ctx, what, fn, *a):
    try:
        r = fn(*a)
    except (OSError, ValueError):
        ctx.checks += 1
    except Exception as e:
        ctx.check(False, 'dump:wrong-error', '%s raises %r', what, e)
    else:
        ctx.check(False, 'dump:silent', '%s raises nothing and returns %r', what, r)


def big(ctx, rng, k, srv, d):
    what = rng.choice(['paths', 'trees', 'matchings', 'power', 'random', 'sizes', 'wide'])
    K = GraphKind()
    if what in ('paths', 'trees', 'matchings'):
        n, E = thin_grid(rng, ((3, 10), (4, 8), (5, 6), (6, 6)) if what != 'trees' else ((3, 10), (4, 7)))
        L, edges = relabel(rng, n, E, shuffle=False)
        K.adopt(rng, edges, rng.choice(['as-is', 'as-is', 'bfs']) if n <= 30 else 'as-is')
        f = {'paths': lambda: GraphSet.paths(L[0], L[-1]), 'trees': lambda: GraphSet.trees(is_spanning=True),
             'matchings': lambda: GraphSet.matchings()}[what]()
    elif what == 'power':
        n = rng.choice([50, 500, 1500])
        K = SetSetKind().setup(rng, n, 'int')
        f = setset({}) if rng.random() < .5 else K.mkdict(1, 2)
    elif what == 'sizes':
        n = rng.choice([30, 120])
        K = SetSetKind().setup(rng, n, 'int')
        f = setset({}).set_size(n // 3)
    elif what == 'wide':
        n = rng.choice([200, 1000])
        K = SetSetKind().setup(rng, n, 'str')
        f = K.mk([1 << i for i in range(n)] + [0])
    else:
        K = SetSetKind().setup(rng, 26, 'int')
        f = K.mk({rng.getrandbits(26) for _ in range(4000)}, rng)
    t = f.dumps()
    n = f.len()
    ctx.log('big', what, K.n, n)
    g = read_back(ctx, rng, K, f, None, d)
    ctx.eq(g.len(), n, 'load:len', 'sets read back')
    try:
        m, mem, can, same = srv.call('vf.props.dumps:other_process', K.name, pickle.dumps(universe_of(K)), t,
                                     rng.choice([0, 50, 2000]), None)
    except Crash as e:
        ctx.check(False, 'load:crash', '%s', e)
    except RuntimeError as e:
        ctx.check(False, 'load:other-error', 'reading in another process: %s', e)
    ctx.eq(m, n, 'load:other-len', 'sets of a large family read in another process')
    ctx.check(can == canon(t), 'load:other-text', 'a large family written again by another process differs')
    ctx.check(same, 'load:other-again', 'a second roundtrip in another process differs')
    p = os.path.join(d, 'big')
    # a device that fills up on the way
    if len(t) > 20000:
        for limit in (4096, 10000, len(t) // 2):
            st = srv.raw('vf.props.dumps:limited', K.name, pickle.dumps(universe_of(K)), t, p, limit)
            ctx.check(st == ('ok', 'OSError'), 'dump:short', 'writing %d bytes where %d fit: %r', len(t), limit, st)
        cut = rng.randrange(len(t) - 3)
        with open(p, 'w') as fp:
            fp.write(t[:cut])
        with open(p) as fp:
            raises(ctx, 'load() of a file cut at %d of %d' % (cut, len(t)), K.cls.load, fp)
        ctx.count('short writes')
    ctx.count('big:' + what)
    ctx.seen('big', what, K.n, t[:50], len(t))


def limited(name, universe, text, path, limit):
    import signal
    universe = pickle.loads(universe)
    if name == 'setset':
        setset.set_universe(universe)
    else:
        GraphSet.set_universe(universe, traversal='as-is')
    f = CLS[name].loads(text)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        with open(path, 'w') as fp:
            f.dump(fp)
    except OSError:
        return 'OSError' if f.dumps() == CLS[name].loads(text).dumps() else 'changed'
    return 'silent'


def session(ctx):
    srv = Pristine()
    prelude(ctx)
    d = tempfile.mkdtemp(prefix='vf-dumps-')
    try:
        def case(ctx, rng, k):
            r = rng.random()
            (big if r < .05 else broken if r < .3 else small)(ctx, rng, k, srv, d)
        ctx.run(case)
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
        srv.close()
