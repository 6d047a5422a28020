"""Counts the subgraphs of a thin graph that satisfy a list of conditions.

A dynamic program over the edges in order of their later endpoint, with one
Python dict from states to exact numbers.  Nothing is shared with the library;
it is compared with brute force (gmodel) on small graphs whenever it is used."""


class TooWide(Exception):
    pass


def count(n, edges, degs=None, sizes=None, weights=None, sums=None, acyclic=False, groups=(), nc=None, hist=None, bip=False,
          flat=None, limit=60000):
    """degs[v]: allowed degrees (None: any); sizes: allowed numbers of edges;
    weights, sums=(lo, hi): the sum of the edges' integer weights;
    groups, nc: as for G.groups(); hist: degree -> exact number of vertices or
    None for any, other degrees don't occur; bip: without odd cycles;
    flat: no unused edge within a component, the argument being the range of
    the number of components (isolated vertices counted) or True"""
    degs = degs or [None] * n
    E = sorted(((min(u, v), max(u, v), i) for i, (u, v) in enumerate(edges)), key=lambda e: (e[1], e[0]))
    last = {}
    for t, (u, v, i) in enumerate(E):
        last[u] = last[v] = t
    group = {}
    for gi, g in enumerate(groups):
        for v in g:
            group[v] = gi
    size = [len(g) for g in groups]
    m = len(E)
    cap = [max([d for d in range(len(edges) + 1) if d in D] + [0]) if D is not None else None for D in degs]
    hkeys = sorted(k for k, c in hist.items() if c is not None) if hist is not None else []
    hmax = max(list(hist) + [0]) if hist is not None else None
    needdeg = hist is not None
    ranged = flat is not None and flat is not True
    comps = acyclic or groups or nc is not None or bip or flat is not None
    maxsize = max([k for k in range(len(edges) + 1) if k in sizes] + [-1]) if sizes is not None else None
    wtop = wlow = None
    if sums is not None:
        # how much the later edges can still change the sum
        wtop, wlow = [0] * (m + 1), [0] * (m + 1)
        for t in range(m - 1, -1, -1):
            w = weights[E[t][2]]
            wtop[t], wlow[t] = wtop[t + 1] + max(w, 0), wlow[t + 1] + min(w, 0)
    isolated = [v for v in range(n) if v not in last]

    # state: (frontier, comps, sep, ne, sum, closed, histogram); frontier is a tuple of
    # (degree, component, colour), comps of (group or -1, members of it seen, has an edge)
    def canon(fr, info, sep):
        names, out, inf = {}, [], []
        col = {}
        for d, c, p in fr:
            if c not in names:
                names[c] = len(names)
                inf.append(info[c])
                col[c] = p if bip else 0
            out.append((d, names[c], (p ^ col[c]) if bip else 0))
        s = frozenset(tuple(sorted((names[a], names[b]))) for a, b in sep if a in names and b in names) if sep else sep
        return tuple(out), tuple(inf), s

    def leave(v, d, S):
        """the degree d of v is final; the new histogram or None"""
        D = degs[v]
        if D is not None and d not in D:
            return None
        if hist is not None:
            if d not in hist:
                return None
            if hist[d] is not None:
                j = hkeys.index(d)
                if S[j] >= hist[d]:
                    return None
                S = S[:j] + (S[j] + 1,) + S[j + 1:]
        return S

    def close(inf, closed):
        """a component is complete; the new number of closed ones or None"""
        g, k, has = inf
        if g >= 0:
            if k != size[g]:
                return None
            return closed + 1 if ranged else closed
        if ranged:
            return closed + 1
        if has and nc is not None:
            return closed + 1 if closed < nc else None
        return closed

    cur = {((), (), frozenset(), 0, 0, 0, (0,) * len(hkeys)): 1}
    frontier = []
    for t, (u, v, i) in enumerate(E):
        new = [x for x in (u, v) if x not in frontier]
        nf = frontier + new
        iu, iv = nf.index(u), nf.index(v)
        out = [x for x in (u, v) if last[x] == t]
        keep = [j for j, x in enumerate(nf) if x not in out]
        nx = {}
        for (fr, info, sep, ne, sm, closed, H), c in cur.items():
            k = len(info)
            for x in new:
                fr = fr + ((0, k, 0),)
                info = info + (((group[x], 1, False) if x in group else (-1, 0, False)),)
                k += 1
            for use in (0, 1):
                f, inf, sp, ne2, sm2, cl, H2 = fr, info, sep, ne, sm, closed, H
                du, cu, pu = f[iu]
                dv, cv, pv = f[iv]
                if use:
                    du, dv = du + 1, dv + 1
                    if cap[u] is not None and du > cap[u] or cap[v] is not None and dv > cap[v]:
                        continue
                    if needdeg and (du > hmax or dv > hmax):
                        continue
                    if not needdeg:
                        if degs[u] is None: du = 1
                        if degs[v] is None: dv = 1
                    if sizes is not None:
                        ne2 += 1
                        if ne2 > maxsize:
                            continue
                    if sums is not None:
                        sm2 += weights[i]
                    if comps:
                        if cu == cv:
                            if acyclic or bip and pu == pv:
                                continue
                        else:
                            if flat is not None and tuple(sorted((cu, cv))) in sp:
                                continue
                            ga, gb = inf[cu], inf[cv]
                            if ga[0] >= 0 and gb[0] >= 0 and ga[0] != gb[0]:
                                continue
                            flip = 1 if bip and pu == pv else 0
                            f = tuple((d, cu, p ^ flip) if cc == cv else (d, cc, p) for d, cc, p in f)
                            pu, pv = f[iu][2], f[iv][2]
                            inf = list(inf)
                            inf[cu] = (max(ga[0], gb[0]), ga[1] + gb[1], True)
                            inf = tuple(inf)
                            if flat is not None:
                                sp = frozenset(tuple(sorted((cu if a == cv else a, cu if b == cv else b))) for a, b in sp)
                            cv = cu
                        if not inf[cu][2]:
                            inf = list(inf)
                            inf[cu] = (inf[cu][0], inf[cu][1], True)
                            inf = tuple(inf)
                    f = list(f)
                    f[iu], f[iv] = (du, cu, pu), (dv, cv, pv)
                elif flat is not None:
                    if cu == cv:
                        continue
                    sp = sp | {tuple(sorted((cu, cv)))}
                if sums is not None and not (sm2 + wlow[t + 1] <= sums[1] and sm2 + wtop[t + 1] >= sums[0]):
                    continue
                ok = True
                for x in out:
                    H2 = leave(x, f[nf.index(x)][0], H2)
                    if H2 is None:
                        ok = False
                        break
                if not ok:
                    continue
                g = [f[j] for j in keep]
                if comps:
                    alive = set(e[1] for e in g)
                    for cc in set(f[nf.index(x)][1] for x in out):
                        if cc not in alive:
                            cl = close(inf[cc], cl)
                            if cl is None:
                                ok = False
                                break
                    if not ok:
                        continue
                    if ranged and cl > flat[1]:
                        continue
                    g, inf, sp = canon(g, inf, sp)
                else:
                    g = tuple((d, 0, 0) for d, _, _ in g)
                    inf = ((-1, 0, False),)
                key = (g, inf, sp, ne2, sm2, cl, H2)
                nx[key] = nx.get(key, 0) + c
        cur = nx
        if len(cur) > limit:
            raise TooWide()
        frontier = [nf[j] for j in keep]
    tot = 0
    for (fr, info, sep, ne, sm, closed, H), c in cur.items():
        H2, cl = H, closed
        for v in isolated:
            if H2 is not None:
                H2 = leave(v, 0, H2)
            if H2 is not None:
                cl = close((group[v], 1, False) if v in group else (-1, 0, False), cl)
            if H2 is None or cl is None:
                H2 = None
                break
        if H2 is None:
            continue
        if nc is not None and not ranged and cl != nc:
            continue
        if ranged and not flat[0] <= cl <= flat[1]:
            continue
        if sizes is not None and ne not in sizes:
            continue
        if any(hist[k] != H2[j] for j, k in enumerate(hkeys)):
            continue
        tot += c
    return tot


def holds(n, edges, S, degs=None, sizes=None, weights=None, sums=None, acyclic=False, groups=(), nc=None, hist=None, bip=False, flat=None):
    """does the set S of edge numbers satisfy the conditions of count()?"""
    d = [0] * n
    adj = [[] for _ in range(n)]
    for i in S:
        u, v = edges[i]
        d[u] += 1
        d[v] += 1
        adj[u].append(v)
        adj[v].append(u)
    comp, col, k = [None] * n, [0] * n, 0
    odd = False
    for r in range(n):
        if comp[r] is None:
            comp[r] = k
            st = [r]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if comp[y] is None:
                        comp[y], col[y] = k, 1 - col[x]
                        st.append(y)
                    elif col[y] == col[x]:
                        odd = True
            k += 1
    if degs and any(D is not None and x not in D for x, D in zip(d, degs)):
        return False
    if sizes is not None and len(S) not in sizes:
        return False
    if sums is not None and not sums[0] <= sum(weights[i] for i in S) <= sums[1]:
        return False
    if acyclic and len(S) != n - k or bip and odd:
        return False
    cs = [set(comp[v] for v in g) for g in groups]
    if any(len(c) > 1 for c in cs) or len(set.union(set(), *cs)) < len(cs):
        return False
    if nc is not None and len(set(comp[edges[i][0]] for i in S) - set.union(set(), *cs)) != nc:
        return False
    if hist is not None and any(hist.get(x, 0) is not None and d.count(x) != hist.get(x, 0) for x in set(d) | set(hist)):
        return False
    if flat is not None:
        if any(i not in S and comp[u] == comp[v] for i, (u, v) in enumerate(edges)):
            return False
        if flat is not True and not flat[0] <= k <= flat[1]:
            return False
    return True


def thin(rng, big=True):
    """(name, n, edges) of a graph whose frontier stays narrow"""
    t = rng.choice(['ladder', 'grid3', 'grid4', 'cycle', 'path2', 'path3', 'cater', 'cyclegrid', 'wheel', 'random'])
    E = []
    if t in ('ladder', 'grid3', 'grid4'):
        w = {'ladder': 2, 'grid3': 3, 'grid4': 4}[t]
        h = rng.choice({'ladder': [20, 50, 100], 'grid3': [10, 25, 50], 'grid4': [6, 12, 25]}[t]) if big else 2
        n = w * h
        for y in range(h):
            for x in range(w):
                v = y * w + x
                if x + 1 < w: E.append((v, v + 1))
                if y + 1 < h: E.append((v, v + w))
    elif t == 'cycle':
        n = rng.choice([40, 120, 300]) if big else 6
        E = [(i, (i + 1) % n) for i in range(n)]
    elif t in ('path2', 'path3'):
        k = int(t[-1])
        n = rng.choice([20, 50, 100]) if big else 5
        E = [(i, i + j) for i in range(n) for j in range(1, k + 1) if i + j < n]
    elif t == 'cater':
        h = rng.choice([15, 40, 90]) if big else 3
        v, n = 0, 1                 # leaves are numbered right after their vertex
        for i in range(h):
            if i:
                E.append((v, n))
                v, n = n, n + 1
            for _ in range(rng.randint(0, 3 if big else 1)):
                E.append((v, n))
                n += 1
    elif t == 'cyclegrid':          # a ring of squares
        h = rng.choice([8, 20, 40]) if big else 3
        n = 2 * h
        E = [(2 * i, 2 * i + 1) for i in range(h)]
        E += [(2 * i + a, 2 * ((i + 1) % h) + a) for i in range(h) for a in (0, 1)]
    elif t == 'wheel':
        n = rng.choice([12, 30]) if big else 5
        E = [(0, i) for i in range(1, n)] + [(i, i % (n - 1) + 1) for i in range(1, n)]
    else:                           # edges between close vertices only
        n = rng.choice([20, 60, 120]) if big else 6
        w = rng.randint(2, 4)
        E = [(i, j) for i in range(n) for j in range(i + 1, min(n, i + w + 1)) if rng.random() < .6]
        used = sorted(set(v for e in E for v in e))
        ix = {v: i for i, v in enumerate(used)}
        E = [(ix[u], ix[v]) for u, v in E]
        n = len(used)
        if not E:
            return thin(rng, big)
    return t, n, E
