"""Brute-force knowledge of all subgraphs of a small graph.

A graph is (n, edges) with vertices 0..n-1 and edges (u, v); a subgraph is a
mask over the edges.  Nothing here shares code or algorithms with the library.
"""
from functools import lru_cache


class G(object):
    def __init__(self, n, edges):
        self.n, self.edges, self.m = n, list(edges), len(edges)
        self.eb = [(1 << u) | (1 << v) for u, v in self.edges]
        self._deg = {}
        self._comp = {}
        adj = [0] * n
        for u, v in self.edges:
            adj[u] |= 1 << v
            adj[v] |= 1 << u
        self.adj = adj

    def all(self):
        return range(1 << self.m)

    def deg(self, S):
        d = self._deg.get(S)
        if d is None:
            d = [0] * self.n
            for i, (u, v) in enumerate(self.edges):
                if S >> i & 1:
                    d[u] += 1
                    d[v] += 1
            d = self._deg[S] = tuple(d)
        return d

    def comps(self, S):
        """vertex masks of the components that have an edge"""
        c = self._comp.get(S)
        if c is None:
            c = []
            for i in range(self.m):
                if S >> i & 1:
                    b = self.eb[i]
                    rest = []
                    for x in c:
                        if x & b:
                            b |= x
                        else:
                            rest.append(x)
                    rest.append(b)
                    c = rest
            c = self._comp[S] = tuple(c)
        return c

    def verts(self, S):
        v = 0
        for i in range(self.m):
            if S >> i & 1:
                v |= self.eb[i]
        return v

    def size(self, S):
        return bin(S).count('1')

    def forest(self, S):
        return self.size(S) == sum(bin(c).count('1') - 1 for c in self.comps(S))

    def connected(self, S):
        """at most one component with edges"""
        return len(self.comps(S)) <= 1

    def comp_of(self, S, v):
        for c in self.comps(S):
            if c >> v & 1:
                return c
        return 1 << v

    # ---- predicates ------------------------------------------------------
    def groups(self, S, vg, nc):
        """vertex groups vg (lists of vertices), nc anonymous components or None"""
        seen = []
        colored = 0
        for g in vg:
            c = self.comp_of(S, g[0])
            for v in g[1:]:
                if not c >> v & 1:
                    return False
            if any(c == o for o in seen):
                return False
            seen.append(c)
            colored |= c
        if nc is not None:
            un = sum(1 for c in self.comps(S) if not c & colored)
            if un != nc:
                return False
        return True

    def path(self, S, s, t):
        d = self.deg(S)
        if s == t:
            return False
        return (S != 0 and len(self.comps(S)) == 1 and d[s] == 1 and d[t] == 1 and
                all(d[v] in (0, 2) for v in range(self.n) if v not in (s, t)))

    def anypath(self, S):
        d = self.deg(S)
        return len(self.comps(S)) == 1 and sorted(set(d)) and max(d) <= 2 and list(d).count(1) == 2

    def cycle(self, S):
        d = self.deg(S)
        return len(self.comps(S)) == 1 and all(x in (0, 2) for x in d)

    def spanning(self, S):
        return all(self.deg(S))

    def bipartite(self, S):
        color = {}
        adj = {}
        for i, (u, v) in enumerate(self.edges):
            if S >> i & 1:
                adj.setdefault(u, []).append(v)
                adj.setdefault(v, []).append(u)
        for s in adj:
            if s in color:
                continue
            color[s] = 0
            st = [s]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if y not in color:
                        color[y] = 1 - color[x]
                        st.append(y)
                    elif color[y] == color[x]:
                        return False
        return True

    def induced_edges(self, vmask):
        """mask of the edges inside a vertex set"""
        S = 0
        for i in range(self.m):
            if self.eb[i] & ~vmask == 0:
                S |= 1 << i
        return S
