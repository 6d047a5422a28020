From 556a0b36e99f1c3fe54325e0e8cbd7773f724c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 01/64] fix: build the edge-vertex universe in the traversal
 order of the edges

to_edgevertexsetset() numbers edges and vertices in the order of the edge
universe, but the edge-vertex universe was numbered in the order given by the
user, so conversions were wrong whenever the traversal reordered the edges.
---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..05403de 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -241,7 +241,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From c9c67ccc591795133a51d9967b65d347c9175af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 02/64] fix: every set hits all members of the empty family

blocking()/hitting() of an empty family returned the family of the empty set
instead of all sets.
---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..3558ed5 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -139,7 +139,7 @@ zdd_t maximal(zdd_t f) {
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
-  if (f == bot()) return top();
+  if (f == bot()) return complement(bot(), num_elems_a);
   if (f == top()) return bot();
   vector<vector<zdd_t> > stacks(num_elems_a + 1);
   set<word_t> visited;
-- 
2.43.0


From c7d711279dbbb127be0ec5f5521cb926de73263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 03/64] fix: non_supersets() must drop the empty set when the
 other family has it

The empty set is a superset of the empty set, so it is not a non-superset of a
family that contains the empty set among others.
---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 3558ed5..161d42a 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -229,7 +229,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == bot() || g == top() || f == g)
     return bot();
   else if (f == top())
-    return top();
+    return f - (g & top());
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-- 
2.43.0


From c017e6fc1d5ee81e21c8050461fc926a0265f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 04/64] fix: no set has fewer than zero elements

smaller(0) returned the empty set as a member and graph_size(0) dropped it.
---
 src/SAPPOROBDD/ZBDD.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SAPPOROBDD/ZBDD.cc b/src/SAPPOROBDD/ZBDD.cc
index d021c2a..2eb10b0 100644
--- a/src/SAPPOROBDD/ZBDD.cc
+++ b/src/SAPPOROBDD/ZBDD.cc
@@ -124,6 +124,7 @@ ZBDD ZBDD::PermitSym(int n) const
 {
   if(*this == -1) return -1;
   if(*this == 0) return 0;
+  if(n < 0) return 0;
   if(*this == 1) return 1;
   if(n < 1) return *this & 1;
 
-- 
2.43.0


From 59cfcc8ec712d5101a277fd2c87f5545bc22014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 05/64] fix: pass the native set to the degree distribution
 search

The GraphSet object itself was reinterpreted as a native set.
---
 graphillion/graphset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..689a9c6 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2667,7 +2667,9 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From 04b7516ac772a6e6da18f3275faf30140d58c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 06/64] fix: steiner_paths() must search the given graphset

It was passed as the first terminal of the paths.
---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 689a9c6..4f14be4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2629,7 +2629,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From 6a0f2f7d90711807781fcdda98674f9931d4d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 07/64] fix: bipartite_graphs() must not add the empty graph to
 a selection without it

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4f14be4..4c74049 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2515,7 +2515,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From 67d9c23b4ffdc56f32cbcb7023a2932a185521e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 08/64] fix: raise the TypeError of bicliques()

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4c74049..5bcf5f4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2069,7 +2069,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From 096174ec9bac44b073e71cb5a52ee8bbabeafebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 09/64] fix: GraphSet.flip() must use the edge as written in
 the universe

A reversed edge was added to the universe as a new element.
---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 5bcf5f4..03c6796 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From cb707e0ee62542e40565d25a622b567813a31cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 10/64] fix: bfs and dfs traversals of digraphs must keep both
 opposite arcs

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..5f961be 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2117,6 +2117,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From 89a813c2228008591224bb711be448b298285b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 11/64] fix: a rejected universe must leave the previous one
 usable

The vertices and weights were cleared before the new universe was checked.
---
 graphillion/digraphset.py | 17 ++++++++++-------
 graphillion/universe.py   | 38 +++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 5f961be..3ecca7d 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1759,8 +1759,8 @@ class DiGraphSet(object):
         """
         sorted_edges = []
         indexed_edges = set()
-        DiGraphSet._vertices = set()
-        DiGraphSet._weights = {}
+        vertices = set()
+        edge_weights = {}
         universe = DiGraphSet.converters['to_edges'](universe)
         for e in universe:
             if e[:2] in indexed_edges:  # directed
@@ -1768,7 +1768,7 @@ class DiGraphSet(object):
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                DiGraphSet._weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
@@ -1777,12 +1777,15 @@ class DiGraphSet(object):
             sorted_edges = DiGraphSet._traverse(
                 indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            DiGraphSet._vertices.add(u)
-            DiGraphSet._vertices.add(v)
+            vertices.add(u)
+            vertices.add(v)
         #setset_base.set_universe(sorted_edges)
-        DiGraphSet._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in sorted_edges:
-            DiGraphSet._objtable.add_elem(e)
+            objtable.add_elem(e)
+        DiGraphSet._vertices = vertices
+        DiGraphSet._weights = edge_weights
+        DiGraphSet._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 05403de..a6c09e5 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -209,8 +209,8 @@ class Universe:
             raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
-        Universe.vertices = set()
-        Universe.weights = {}
+        vertices = set()
+        edge_weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
         for e in universe:
@@ -219,9 +219,9 @@ class Universe:
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                Universe.weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
-                Universe.weights[e] = weights[e]
+                edge_weights[e] = weights[e]
 
         if traversal != 'as-is':
             if source is None:
@@ -230,12 +230,15 @@ class Universe:
                     source = min(e[0], e[1], source)
             sorted_edges = Universe._traverse(indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            Universe.vertices.add(u)
-            Universe.vertices.add(v)
+            vertices.add(u)
+            vertices.add(v)
         #setset.set_universe(sorted_edges)
-        Universe.e_objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in sorted_edges:
-            Universe.e_objtable.add_elem(e)
+            objtable.add_elem(e)
+        Universe.vertices = vertices
+        Universe.weights = edge_weights
+        Universe.e_objtable = objtable
 
         from graphillion.setset_base import setset_base
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
@@ -290,29 +293,30 @@ class Universe:
         if vertex_num != len(set(universe)):
             raise ValueError("duplicated elements found")
 
-        Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
+        objtable = ObjectTable()
+        vertex_weights = dict(Universe.weights)
 
         for i, vertex in enumerate(universe):
             if not tuple_vertex and isinstance(vertex, tuple):
                 if len(vertex) == 2:
                     vertex, weight = vertex
-                    Universe.weights[vertex] = weight
+                    vertex_weights[vertex] = weight
                 elif len(vertex) == 1:
                     vertex = vertex[0]
                     if weights is not None and vertex in weights:
-                        Universe.weights[vertex] = weights[vertex]
+                        vertex_weights[vertex] = weights[vertex]
                     else:
-                        Universe.weights[vertex] = 1
+                        vertex_weights[vertex] = 1
                 else:
                     raise TypeError(vertex)
             else:
                 if weights is not None and vertex in weights:
-                    Universe.weights[vertex] = weights[vertex]
+                    vertex_weights[vertex] = weights[vertex]
                 else:
-                    Universe.weights[vertex] = 1
-            Universe.v_objtable.add_elem(vertex)
+                    vertex_weights[vertex] = 1
+            objtable.add_elem(vertex)
+        Universe.v_objtable = objtable
+        Universe.weights = vertex_weights
 
     @staticmethod
     def _set_ev_universe(universe):
-- 
2.43.0


From 778744aed0d2ac38be8bfa09ad09cf3ee7b69e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 12/64] fix: an unknown vertex is not an element of the
 edge-vertex universe

EdgeVertexSetSet.add() and others silently extended the universe by it.
---
 graphillion/edgevertex_setset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..13193df 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1565,6 +1565,8 @@ class EdgeVertexSetSet(object):
     @staticmethod
     def _conv_edgevertex(edge_or_vertex):
         if not isinstance(edge_or_vertex, tuple) or len(edge_or_vertex) < 2:
+            if edge_or_vertex not in Universe.ev_objtable.obj2int:
+                raise KeyError(edge_or_vertex)
             return edge_or_vertex # interpret it as a vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
-- 
2.43.0


From 320bf26e15508bb21e618757193801b09f4b37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 13/64] fix: DiGraphSet.flip() must use the arc as written in
 the universe

A reversed arc was added to the universe as a new element.
---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 3ecca7d..6d1a608 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -983,7 +983,7 @@ class DiGraphSet(object):
         """
         type, obj = DiGraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(DiGraphSet._objtable, edge)
+            self._ss.flip(DiGraphSet._objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From f45206d0cedcff821238bf536bbd247dcb4d5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 14/64] fix: a component leaving the frontier ends an induced
 subgraph

takable() compared the address of a copy, so that it never saw an existing
component leave: induced subgraphs were lost.
---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From 38015b28d81651bb03d8f4b22e3ff979df918e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 15/64] fix: no graph satisfies an empty range of degrees or
 sizes

graphs() raised IndexError, also in odd_hole_graphs() and the classes using it
on universes of less than five vertices.
---
 graphillion/graphset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 03c6796..1ac65e4 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1940,6 +1940,8 @@ class GraphSet(object):
                     raise KeyError(v)
                 if isinstance(r, int):
                     dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                elif len(r) == 0:
+                    dc[pickle.dumps(v, protocol=0)] = (0, 0, 1)
                 elif len(r) == 1:
                     dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
                 else:
@@ -1949,6 +1951,8 @@ class GraphSet(object):
         if num_edges is not None:
             if isinstance(num_edges, int):
                 ne = (num_edges, num_edges + 1, 1)
+            elif len(num_edges) == 0:
+                ne = (0, 0, 1)
             elif len(num_edges) == 1:
                 ne = (num_edges[0], num_edges[0] + 1, 1)
             else:
-- 
2.43.0


From d247cf2e68bd1c47937d33e8e8e67987aacb1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 16/64] fix: cost sums must not overflow 32 bits

Costs are 32 bit integers, but the sums compared with the bound were kept in
32 bits as well, so that cost_le/ge/eq returned wrong sets.
---
 src/SAPPOROBDD/BDDCT.cc | 4 ++--
 src/SAPPOROBDD/BDDCT.h  | 4 ++--
 src/pygraphillion.cc    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SAPPOROBDD/BDDCT.cc b/src/SAPPOROBDD/BDDCT.cc
index 2119e7d..326e3c3 100644
--- a/src/SAPPOROBDD/BDDCT.cc
+++ b/src/SAPPOROBDD/BDDCT.cc
@@ -466,8 +466,8 @@ ZBDD CLE0(const ZBDD& f, const bddcost spent)
   int top = f.Top();
   int tlev = BDD_LevOfVar(top);
   ZBDD h = CLE0(f.OffSet(top), spent);
-  int min0 = RetMin;
-  int max0 = RetMax;
+  bddcost min0 = RetMin;
+  bddcost max0 = RetMax;
   bddcost cost = CT->CostOfLev(tlev);
   h += CLE0(f.OnSet0(top), spent + cost).Change(top);
   if(min == bddcost_null)
diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..e3e7d79 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -14,8 +14,8 @@ class BDDCT;
 #include <iostream>
 #include "ZBDD.h"
 
-typedef int bddcost;
-#define bddcost_null 0x7FFFFFFF
+typedef long long bddcost;
+#define bddcost_null 0x7FFFFFFFFFFFFFFFLL
 #define CT_STRLEN 15
 
 #include <map>
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..e1cfe6d 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1281,7 +1281,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   static char* kwlist[3] = {s1, s2, NULL};
   PyObject* costs_obj = NULL;
   bddcost cost_bound = 0;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "Oi", kwlist, &costs_obj, &cost_bound))
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "OL", kwlist, &costs_obj, &cost_bound))
     return NULL;
   if (costs_obj == NULL || costs_obj == Py_None) {
     PyErr_SetString(PyExc_ValueError, "no costs");
@@ -1304,7 +1304,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
         Py_DECREF(cost_iter);
         return NULL;
       }
-      costs.push_back(static_cast<int>(value));
+      costs.push_back(value);
     } else {
       Py_DECREF(cost);
       Py_DECREF(cost_iter);
-- 
2.43.0


From 48af8a156224836991c62d152015464ae19bf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 17/64] fix: release the cost cache

The condition was inverted: every cost_le/ge/eq call leaked its cache and the
node references in it.
---
 src/SAPPOROBDD/BDDCT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index e3e7d79..9c34282 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -35,7 +35,7 @@ public:
     }
     ~CacheEntry(void)
     {
-      if(!_zmap) delete _zmap;
+      if(_zmap) delete _zmap;
     }
   };
 
-- 
2.43.0


From 2e28dd81681f94368e7d94035ef58805f0cb73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 18/64] fix: cost_le() and others must reject missing costs

The documented AssertionError was not raised; a missing cost silently counted
as -1.
---
 graphillion/setset_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 7ffe419..2eab46a 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -174,13 +174,13 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.probability(self, objtable.num_elems(), ps)
 
     def cost_le(self, objtable, costs, cost_bound):
-        cs = [-1] * (objtable.num_elems() + 1)
+        cs = [None] * (objtable.num_elems() + 1)
         for e, c in costs.items():
             i = objtable.obj2int[e]
             cs[i] = c
         # Each cost must be in the range of 32 bit signed integer
         # due to the implementation of BDDCT class of SAPPOROBDD.
-        assert len([c for c in cs[1:] if c < -(1 << 31) or (1 << 31) <= c]) == 0
+        assert len([c for c in cs[1:] if c is None or c < -(1 << 31) or (1 << 31) <= c]) == 0
         return _graphillion.setset.cost_le(self, costs=cs[1:], cost_bound=cost_bound)
 
     def add_some_element(self, objtable):
-- 
2.43.0


From bf8a50c441bada6fb3ea88a154b668a833ea750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 19/64] fix: sizes of 2^31 and more must not wrap around

smaller(), larger(), set_size() and len(size) truncated the size to 32 bits.
---
 src/pygraphillion.cc | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index e1cfe6d..503d0aa 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -222,6 +222,19 @@ static int setset_parse_set(PyObject* so, set<int>* s) {
   return 0;
 }
 
+// Reads the size of a set; no set is as large as INT_MAX.
+static int setset_parse_size(PyObject* io, int* size) {
+  int overflow = 0;
+  long value = PyLong_AsLongAndOverflow(io, &overflow);
+  if (overflow < 0 || (overflow == 0 && value < 0)) {
+    if (!PyErr_Occurred())
+      PyErr_SetString(PyExc_ValueError, "not unsigned int");
+    return -1;
+  }
+  *size = overflow > 0 || value > INT_MAX ? INT_MAX : static_cast<int>(value);
+  return 0;
+}
+
 static vector<int> intersection(const map<string, vector<int> >& m,
                                 const string& key1, const string& key2) {
   map<string, vector<int> >::const_iterator in_i = m.find(key1);
@@ -620,10 +633,13 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int overflow = 0;
+    long len = PyLong_AsLongAndOverflow(obj, &overflow);
     if (PyErr_Occurred()) {
       return NULL;
     }
+    // no set is as large as INT_MAX or has a negative size
+    len = overflow > 0 || len > INT_MAX ? INT_MAX : std::max(len, -1L);
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->set_size(len));
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
@@ -930,12 +946,8 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (set_size < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int set_size = 0;
+  if (setset_parse_size(io, &set_size) == -1) {
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->smaller(set_size));
@@ -943,12 +955,8 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (set_size < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int set_size = 0;
+  if (setset_parse_size(io, &set_size) == -1) {
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->larger(set_size));
@@ -956,12 +964,8 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (set_size < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int set_size = 0;
+  if (setset_parse_size(io, &set_size) == -1) {
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->set_size(set_size));
-- 
2.43.0


From 6f73612b5aa33d587d0d34c07d826d5f299bee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 20/64] fix: update() and others must not leak a reference to
 self

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 503d0aa..2a03583 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -161,8 +161,10 @@ using std::vector;
         PyErr_SetString(PyExc_TypeError, "invalid tuple element");     \
         return NULL;                                                   \
       }                                                                \
-      if (expr(self, _other) == NULL)                                  \
+      PyObject* _result = expr(self, _other);                          \
+      if (_result == NULL)                                             \
         return NULL;                                                   \
+      Py_DECREF(_result);                                              \
     }                                                                  \
     Py_RETURN_NONE;                                                    \
   } while (0);
-- 
2.43.0


From 149e849a7dd37be7bb637f64c21cb9cfef259dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 21/64] fix: do not free a new setset twice when an error
 occurs

---
 src/pygraphillion.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 2a03583..c499b0f 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -89,12 +89,10 @@ using std::vector;
       _ret->ss = new setset(expr);                               \
     } catch (const std::exception& e) {                          \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, e.what());             \
       return NULL;                                               \
     } catch (...) {                                              \
       Py_DECREF(_ret);                                           \
-      Py_TYPE(_ret)->tp_free(reinterpret_cast<PyObject*>(_ret)); \
       PyErr_SetString(PyExc_RuntimeError, "Unknown error "       \
         "occured while creating a new setset");                  \
       return NULL;                                               \
-- 
2.43.0


From bdaec29f510ae09bb8be06f987012cf50d673930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 22/64] fix: raise an error on division by the empty set of
 sets

quotient() and remainder() of a nonempty set by an empty one ended the process.
---
 src/pygraphillion.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c499b0f..fff5de3 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -76,6 +76,15 @@ using std::vector;
 #define CHECK_SETSET_OR_ERROR(obj)                              \
   CHECK_OR_ERROR(obj, PySetset_Check, "setset", NULL);
 
+#define CHECK_DIVISOR_OR_ERROR(obj)                                  \
+  do {                                                               \
+    if (reinterpret_cast<PySetsetObject*>(obj)->ss->empty()) {       \
+      PyErr_SetString(PyExc_ZeroDivisionError,                       \
+                      "division by the empty set of sets");          \
+      return NULL;                                                   \
+    }                                                                \
+  } while (0);
+
 #define RETURN_NEW_OBJECT(py_type, expr)                         \
   do {                                                           \
     PySetsetObject* _ret = reinterpret_cast<PySetsetObject*>(    \
@@ -566,21 +575,25 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
 }
 
 static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) /= (*_other->ss));
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
 }
 
 static PyObject* setset_remainder_update(PySetsetObject* self, PyObject* other) {
   CHECK_SETSET_OR_ERROR(other);
+  CHECK_DIVISOR_OR_ERROR(other);
   RETURN_SELF_SETSET(self, other, _other, (*self->ss) %= (*_other->ss));
 }
 
-- 
2.43.0


From 35bbab1c6fcfa7fa91a6bd4b8680bdbc82147f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 23/64] fix: a setset must hold a valid set from its creation
 on

An object whose __init__() failed or was not called held a null pointer, and
calling __init__() again leaked the previous set.
---
 src/pygraphillion.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index fff5de3..c529253 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -416,6 +416,7 @@ static PyObject* setset_new(PyTypeObject* type, PyObject* /*args*/, PyObject* /*
     PyErr_SetString(PyExc_MemoryError, "Failed to allocate memory for PySetsetObject");
     return NULL;
   }
+  self->ss = new setset();
   return reinterpret_cast<PyObject*>(self);
 }
 
@@ -427,10 +428,10 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
 
   try {
     if (obj == NULL || obj == Py_None) {
-      self->ss = new setset();
+      *self->ss = setset();
     } else if (PySetset_Check(obj)) {
       PySetsetObject* sso = reinterpret_cast<PySetsetObject*>(obj);
-      self->ss = new setset(*(sso->ss));
+      *self->ss = *sso->ss;
     } else if (PyList_Check(obj)) {
       PyObject* i = PyObject_GetIter(obj);
       if (i == NULL) return -1;
@@ -459,11 +460,11 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
         return -1;
       }
 
-      self->ss = new setset(vs);
+      *self->ss = setset(vs);
     } else if (PyDict_Check(obj)) {
       map<string, vector<int> > m;
       if (setset_parse_map(obj, &m) == -1) return -1;
-      self->ss = new setset(m, num_elems_a);
+      *self->ss = setset(m, num_elems_a);
     } else {
       PyErr_SetString(PyExc_TypeError, "invalid argument");
       return -1;
@@ -471,6 +472,7 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   } catch (...) {
     PyErr_SetString(PyExc_RuntimeError, "Unexpected error occurred "
     "during initialization");
+    return -1;
   }
   return 0;
 }
-- 
2.43.0


From 3a161b15d96afebfa1a0e75238853a8fd1271cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 24/64] fix: release the weights when one of them is out of
 range

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c529253..7048a07 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -727,6 +727,8 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     else if (PyLong_Check(eo)) {
       long value = PyLong_AsLong(eo);
       if (PyErr_Occurred()) {
+        Py_DECREF(eo);
+        Py_DECREF(i);
         return NULL;
       }
       w.push_back(static_cast<double>(value));
-- 
2.43.0


From 54130e9cede27f9fa6a27046af8031896431418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 25/64] fix: reject malformed and truncated texts when loading
 a family

Unknown nodes, elements out of range, overlong fields and texts without the
final line crashed or ended the process, or gave a set that is none.
---
 src/graphillion/zdd.cc | 64 +++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 161d42a..a0b0ed5 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -388,6 +388,26 @@ void dump(zdd_t f, FILE* fp) {
   fprintf(fp, ".\n");
 }
 
+// Makes the node described by a line of a dumped family from the nodes n made
+// so far.  Returns null() if the line does not describe a node.
+static zdd_t load_node(const string& line, map<word_t, zdd_t>* n) {
+  word_t k;
+  long long v;
+  char sl[256], sh[256];
+  if (line.length() >= sizeof(sl)) return null();
+  int num = sscanf(line.c_str(), (WORD_FMT + " %lld %s %s").c_str(),
+                   &k, &v, sl, sh);
+  if (num != 4 || v < 1 || v > elem_limit()) return null();
+  word_t l = strcmp(sl, "B") == 0 ? id(bot())
+           : strcmp(sl, "T") == 0 ? id(top())
+           :                        strtoll(sl, NULL, 0);
+  word_t h = strcmp(sh, "B") == 0 ? id(bot())
+           : strcmp(sh, "T") == 0 ? id(top())
+           :                        strtoll(sh, NULL, 0);
+  if (n->find(l) == n->end() || n->find(h) == n->end()) return null();
+  return (*n)[k] = n->at(l) + single(v) * n->at(h);
+}
+
 zdd_t load(istream& in) {
   string line;
   getline(in, line);
@@ -396,27 +416,13 @@ zdd_t load(istream& in) {
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
-  zdd_t root;
+  zdd_t root = null();
   do {
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) goto error;
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) goto error;
-    n[k] = root = n.at(l) + single(v) * n.at(h);
+    if (line[0] == '.') return root;
+    root = load_node(line, &n);
+    if (root == null()) break;
   } while (getline(in, line));
-  return root;
-error:
   in.setstate(in.badbit);
   return null();
 }
@@ -430,27 +436,15 @@ zdd_t load(FILE* fp) {
   map<word_t, zdd_t> n;
   n[id(bot())] = bot();
   n[id(top())] = top();
-  zdd_t root;
+  zdd_t root = null();
   do {
     line = string(buf);
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') break;
-    word_t k;
-    elem_t v;
-    char sl[256], sh[256];
-    int num = sscanf(line.c_str(), (WORD_FMT + " %d %s %s").c_str(),
-                     &k, &v, &sl, &sh);
-    if (num != 4) return null();
-    word_t l = strcmp(sl, "B") == 0 ? id(bot())
-             : strcmp(sl, "T") == 0 ? id(top())
-             :                        strtoll(sl, NULL, 0);
-    word_t h = strcmp(sh, "B") == 0 ? id(bot())
-             : strcmp(sh, "T") == 0 ? id(top())
-             :                        strtoll(sh, NULL, 0);
-    if (l == LLONG_MAX || h == LLONG_MAX) return null();
-    n[k] = root = n.at(l) + single(v) * n.at(h);
+    if (line[0] == '.') return root;
+    root = load_node(line, &n);
+    if (root == null()) break;
   } while (fgets(buf, sizeof(buf), fp) != NULL);
-  return root;
+  return null();
 }
 
 void _enum(zdd_t f, ostream& out,
-- 
2.43.0


From 98d7428171f930ffe200b714f3a268767b3b8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 26/64] fix: visit the shared nodes only with the interpreter
 lock held

dump() and load() let other threads run while they made nodes and counted
references in tables without locks, and an error in load() lost the lock.
---
 src/pygraphillion.cc | 86 ++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 7048a07..ef39a04 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1107,10 +1107,16 @@ static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
+  // other threads may run while the text is written, but not while the nodes,
+  // which they share, are visited
+  stringstream sstr;
+  self->ss->dump(sstr);
+  string text = sstr.str();
+  size_t written = 0;
   Py_BEGIN_ALLOW_THREADS;
-  self->ss->dump(fp);
+  written = fwrite(text.data(), 1, text.size(), fp);
   Py_END_ALLOW_THREADS;
-  if (fclose(fp) != 0) {
+  if (fclose(fp) != 0 || written != text.size()) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
@@ -1123,47 +1129,61 @@ static PyObject* setset_dumps(PySetsetObject* self) {
   return PyUnicode_FromString(sstr.str().c_str());
 }
 
-static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
-  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
-  int fd = PyObject_AsFileDescriptor(obj);
-  if (fd == -1) {
-    return NULL;
-  }
-  FILE* fp = fdopen(dup(fd), "r");
-  if (fp == NULL) {
-    PyErr_SetFromErrno(PyExc_OSError);
-    return NULL;
-  }
+static PyObject* setset_load_text(const string& text) {
+  stringstream sstr(text);
   PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
       PySetset_Type.tp_alloc(&PySetset_Type, 0));
   if (ret == NULL) {
-    fclose(fp);
     PyErr_NoMemory();
     return NULL;
   }
   try {
-    setset* loaded_ss;
-    Py_BEGIN_ALLOW_THREADS;
-    loaded_ss = new setset(setset::load(fp));
-    Py_END_ALLOW_THREADS;
-    ret->ss = loaded_ss;
+    ret->ss = new setset(setset::load(sstr));
   } catch (const std::exception& e) {
     Py_DECREF(ret);
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, e.what());
     return NULL;
   } catch (...) {
     Py_DECREF(ret);
-    fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
     return NULL;
   }
+  if (sstr.bad()) {
+    Py_DECREF(ret);
+    PyErr_SetString(PyExc_ValueError, "not a dumped set of sets");
+    return NULL;
+  }
+  return reinterpret_cast<PyObject*>(ret);
+}
 
+static PyObject* setset_load(PySetsetObject* self, PyObject* obj) {
+  CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
+  int fd = PyObject_AsFileDescriptor(obj);
+  if (fd == -1) {
+    return NULL;
+  }
+  FILE* fp = fdopen(dup(fd), "r");
+  if (fp == NULL) {
+    PyErr_SetFromErrno(PyExc_OSError);
+    return NULL;
+  }
+  // other threads may run while the text is read, but not while the nodes,
+  // which they share, are made
+  string text;
+  char buf[256];
+  Py_BEGIN_ALLOW_THREADS;
+  while (fgets(buf, sizeof(buf), fp) != NULL) {
+    bool is_first = text.empty();
+    text += buf;
+    if (buf[0] == '.' || (is_first && (buf[0] == 'B' || buf[0] == 'T')))
+      break;
+  }
+  Py_END_ALLOW_THREADS;
   if (fclose(fp) != 0) {
     PyErr_SetFromErrno(PyExc_OSError);
     return NULL;
   }
-  return reinterpret_cast<PyObject*>(ret);
+  return setset_load_text(text);
 }
 
 static PyObject* setset_loads(PySetsetObject* self, PyObject* obj) {
@@ -1172,25 +1192,7 @@ static PyObject* setset_loads(PySetsetObject* self, PyObject* obj) {
   if (utf8_str == NULL) {
     return NULL;
   }
-  stringstream sstr(utf8_str);
-  PySetsetObject* ret = reinterpret_cast<PySetsetObject*>(
-      PySetset_Type.tp_alloc(&PySetset_Type, 0));
-  if (ret == NULL) {
-    PyErr_NoMemory();
-    return NULL;
-  }
-  try {
-    ret->ss = new setset(setset::load(sstr));
-  } catch (const std::exception& e) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, e.what());
-    return NULL;
-  } catch (...) {
-    Py_DECREF(ret);
-    PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred");
-    return NULL;
-  }
-  return reinterpret_cast<PyObject*>(ret);
+  return setset_load_text(utf8_str);
 }
 
 static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
@@ -1209,9 +1211,7 @@ static PyObject* setset_enum(PySetsetObject* self, PyObject* obj) {
   auto outer_pair = std::make_pair(prefix.c_str(), "])");
   auto inner_pair = std::make_pair("set([", "])");
   try {
-    Py_BEGIN_ALLOW_THREADS;
     self->ss->_enum(fp, outer_pair, inner_pair);
-    Py_END_ALLOW_THREADS;
   } catch (const std::exception& e) {
     fclose(fp);
     PyErr_SetString(PyExc_RuntimeError, e.what());
-- 
2.43.0


From 887c4a6967f5a7fad4c96e5efa7e99bce8f385e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 27/64] fix: draw random numbers uniformly

The generator is defined on 32 bit words.  On 64 bit words its first numbers
were almost zero, so that the first random picks of a process were never
uniform.
---
 src/graphillion/zdd.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index a0b0ed5..46405c1 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -302,7 +302,7 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
   }
   double ch = algo_c(hi(f));
   double cl = algo_c(lo(f));
-  if (rand_xor128() > cl / (ch + cl)) {
+  if (rand_xor128() >= cl / (ch + cl)) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack);
   } else {
@@ -597,16 +597,23 @@ zdd_t zuniq(elem_t v, zdd_t l, zdd_t h) {
 
 // G. Marsaglia, "Xorshift RNGs," Journal of Statistical Software, vol.8,
 // issue.14, 2003.  http://www.jstatsoft.org/v08/i14/
-double rand_xor128() {
-    static unsigned long x = 123456789, y = 362436069, z = 521288629,
+static uint32_t xor128() {
+    static uint32_t x = 123456789, y = 362436069, z = 521288629,
         w = 88675123;
-    unsigned long t;
+    uint32_t t;
     t = (x^(x << 11));
     x = y;
     y = z;
     z = w;
     w = (w^(w >> 19))^(t^(t >> 8));
-    return static_cast<double>(w) / ULONG_MAX;
+    return w;
+}
+
+// Returns a random number in [0, 1) with 53 random bits.
+double rand_xor128() {
+    uint64_t high = xor128();
+    uint64_t low = xor128();
+    return ((high << 32 | low) >> 11) * (1.0 / (UINT64_C(1) << 53));
 }
 
 // max_elem must not be NULL.
-- 
2.43.0


From ee4440670b5cfa1dfacf6158be831dd702dcb288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 28/64] fix: count more than 2^1024 sets when picking at random

The counts overflowed a double and the picks always followed the same branch.
---
 src/graphillion/zdd.cc | 9 +++++----
 src/graphillion/zdd.h  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 46405c1..6ee9e12 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -300,8 +300,8 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
     }
     assert(false);
   }
-  double ch = algo_c(hi(f));
-  double cl = algo_c(lo(f));
+  long double ch = algo_c(hi(f));
+  long double cl = algo_c(lo(f));
   if (rand_xor128() >= cl / (ch + cl)) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack);
@@ -556,8 +556,9 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 }
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
-double algo_c(zdd_t f) {
-  static map<word_t, double> counts;
+// A double overflows at 2^1024 sets.
+long double algo_c(zdd_t f) {
+  static map<word_t, long double> counts;
   if (is_term(f))
     return f == top() ? 1 : 0;
   else if (counts.find(id(f)) != counts.end())
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index ab711a0..b263ff5 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -92,7 +92,7 @@ void _enum(zdd_t f, std::ostream& out, std::vector<elem_t>* stack, bool* first,
 void _enum(zdd_t f, FILE* fp, std::vector<elem_t>* stack, bool* first,
            const std::pair<const char*, const char*>& inner_braces);
 void algo_b(zdd_t f, const std::vector<double>& w, std::vector<bool>* x);
-double algo_c(zdd_t f);
+long double algo_c(zdd_t f);
 double probability(elem_t e, zdd_t f, const std::vector<double>& probabilities,
                    std::map<word_t, double>& cache, elem_t num_elems_a);
 zdd_t zuniq(elem_t v, zdd_t l, zdd_t h);
-- 
2.43.0


From 39f5d5e1ececdc3977f83ee9142796d8a15d448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 29/64] fix: len() must count 2^63-1 sets

---
 src/pygraphillion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index ef39a04..95dddfb 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -30,6 +30,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "graphillion/partition/BalancedPartition.h"
 #include "pygraphillion.h"
 
+#include <cerrno>
 #include <cstdlib>
 #include <climits>
 
@@ -620,8 +621,9 @@ static int setset_bool(PySetsetObject* self) {
 
 static Py_ssize_t setset_len(PyObject* obj) {
   PySetsetObject* self = reinterpret_cast<PySetsetObject*>(obj);
+  errno = 0;
   long long int len = strtoll(self->ss->size().c_str(), NULL, 0);
-  if (len != LLONG_MAX) {
+  if (errno != ERANGE) {
     return len;
   } else {
     PyErr_SetString(PyExc_OverflowError, "overflow, use obj.len()");
-- 
2.43.0


From 5668031fe13ac964fb0dab56c5d912642dbd2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 30/64] fix: accept integer probabilities in reliability()

---
 src/pygraphillion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 95dddfb..8f3f49f 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2488,7 +2488,7 @@ static PyObject* reliability(PyObject*, PyObject* args, PyObject* kwds) {
     if (i == NULL) return NULL;
     PyObject* p;
     while ((p = PyIter_Next(i))) {
-      if (!PyFloat_Check(p)) {
+      if (!PyFloat_Check(p) && !PyLong_Check(p)) {
         PyErr_SetString(PyExc_TypeError, "invalid probability");
         Py_DECREF(p);
         Py_DECREF(i);
-- 
2.43.0


From de8c60b39c542dfeff69cefddcd78156736a9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 31/64] fix: cost_ge() must accept the cost -2^31

---
 graphillion/digraphset.py        | 4 ++--
 graphillion/edgevertex_setset.py | 4 ++--
 graphillion/graphset.py          | 4 ++--
 graphillion/vertex_setset.py     | 3 +--
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 6d1a608..256ad27 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1558,8 +1558,8 @@ class DiGraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return DiGraphSet(self._ss.cost_le(objtable=DiGraphSet._objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=DiGraphSet._objtable, costs=costs, cost_bound=cost_bound - 1)
+        return DiGraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new DiGraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 13193df..58202ad 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1411,8 +1411,8 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return EdgeVertexSetSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new EdgeVertexSetSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 1ac65e4..21859d8 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1570,8 +1570,8 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
-        return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
+        lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
+        return GraphSet(self._ss.difference(lt_ss))
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new GraphSet with subgraphs whose cost is equal to the cost bound.
diff --git a/graphillion/vertex_setset.py b/graphillion/vertex_setset.py
index f7930f9..d7261ac 100644
--- a/graphillion/vertex_setset.py
+++ b/graphillion/vertex_setset.py
@@ -1625,8 +1625,7 @@ class VertexSetSet(object):
 
         """
         #assert costs.keys() == VertexSetSet._vertex2obj.keys()
-        inv_costs = {k: -v for k, v in costs.items()}
-        return self.cost_le(inv_costs, -cost_bound)
+        return self - self.cost_le(costs, cost_bound - 1)
 
     def cost_eq(self, costs, cost_bound):
         """Returns a new VertexSetSet with subsets whose cost is equal to the cost bound.
-- 
2.43.0


From 216c5739b87c0bd8b2754832f8d20af63bef7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 32/64] fix: cost bounds near 2^63 must not overflow

---
 src/graphillion/setset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..c66c73f 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -443,7 +443,10 @@ setset setset::cost_le(const std::vector<bddcost>& costs, const bddcost cost_bou
     bddvar var = i + 1;
     bddct.SetCostOfLev(BDD_LevOfVar(var), costs[i]);
   }
-  zdd_t valid_cost_zdd = bddct.ZBDD_CostLE(this->zdd_, cost_bound);
+  // No sum of costs reaches the limit, so that differences do not overflow.
+  const bddcost limit = 1LL << 62;
+  const bddcost bound = std::max(-limit, std::min(limit, cost_bound));
+  zdd_t valid_cost_zdd = bddct.ZBDD_CostLE(this->zdd_, bound);
   return setset(valid_cost_zdd);
 }
 
-- 
2.43.0


From 57c4422fadbe30e4cd2eb7b33064bf242340af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 33/64] fix: in- and out-degree constraints must allow the
 degrees on the way

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..0ee25ef 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (out_constraints.at(edge.v1).upperBound() < outdeg1 + 1) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (in_constraints.at(edge.v2).upperBound() < indeg2 + 1) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 9fef74f1a10908fd6a8e20242f13c2c4bd77f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 34/64] fix: spanning rooted trees must reach the vertices not
 yet seen

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..4d888c2 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -260,7 +260,8 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
-            if (frontier_exists) {
+            if (frontier_exists ||
+                edge_index < fm_.getAllVerticesEnteringLevel()) {
               return 0;
             } else {
               return -1;  // return the 1-terminal
-- 
2.43.0


From d1f3a17fa38359a7f44fa47a750415ba01e4aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 35/64] fix: to_vertexsetset() must follow an explicitly set
 vertex universe

---
 graphillion/graphset.py   |  8 +++++++-
 src/graphillion/setset.cc |  4 ++++
 src/graphillion/setset.h  |  1 +
 src/graphillion/zdd.cc    | 18 ++++++++++++++++++
 src/graphillion/zdd.h     |  1 +
 src/pygraphillion.cc      | 22 ++++++++++++++++++++++
 6 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 21859d8..4e9fa5a 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1687,7 +1687,13 @@ class GraphSet(object):
 
         """
         from graphillion import VertexSetSet
-        return VertexSetSet(self._ss.to_vertexsetset(Universe.e_objtable))
+        ss = self._ss.to_vertexsetset(Universe.e_objtable)
+        # The vertex universe may have been set explicitly in another order.
+        vertices = [eval(v) for v in
+                    setset_base.get_vertices_from_top(Universe.e_objtable)]
+        if vertices != Universe.v_objtable.universe()[:len(vertices)]:
+            ss = ss.rename([Universe.v_objtable.obj2int[v] for v in vertices])
+        return VertexSetSet(ss)
 
     def to_edgevertexsetset(self):
         """Returns a new EdgeVertexSetSet with edges and vertices of each graph in `self`.
diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index c66c73f..2252e6e 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -462,6 +462,10 @@ setset setset::remove_add_some_elements(int n, int lower) const {
   return setset(graphillion::remove_add_some_elements(this->zdd_, n, lower));
 }
 
+setset setset::rename(const std::vector<elem_t>& elems) const {
+  return setset(graphillion::rename(this->zdd_, elems));
+}
+
 setset setset::to_vertexsetset_setset(const std::vector<std::vector<std::string>> &edges_from_top) const {
   if (this->zdd_ == bot()) {
     return setset(bot());
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index f865c4a..db2bde3 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -178,6 +178,7 @@ class setset {
   setset add_some_element(int n, int lower) const;
   setset remove_add_some_elements(int n, int lower) const;
 
+  setset rename(const std::vector<elem_t>& elems) const;
   setset to_vertexsetset_setset(const std::vector<std::vector<std::string>> &edges_from_top) const;
 
   setset to_edgevertexsetset_setset(const std::vector<std::vector<std::string>> &edges_from_top) const;
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 6ee9e12..5e2603f 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -112,6 +112,24 @@ zdd_t complement(zdd_t f, elem_t num_elems_a) {
   return n[num_elems_a + 1] - f;
 }
 
+// pins the keys, since a node may be reclaimed and its id be used again
+static zdd_t rename(zdd_t f, const vector<elem_t>& elems,
+                    map<word_t, std::pair<zdd_t, zdd_t> >* cache) {
+  if (is_term(f)) return f;
+  map<word_t, std::pair<zdd_t, zdd_t> >::iterator i = cache->find(id(f));
+  if (i != cache->end()) return i->second.second;
+  zdd_t r = rename(lo(f), elems, cache)
+    + rename(hi(f), elems, cache).Change(elems[elem(f) - 1]);
+  (*cache)[id(f)] = std::make_pair(f, r);
+  return r;
+}
+
+// Returns the family in which the element i is replaced by elems[i - 1].
+zdd_t rename(zdd_t f, const vector<elem_t>& elems) {
+  map<word_t, std::pair<zdd_t, zdd_t> > cache;
+  return rename(f, elems, &cache);
+}
+
 zdd_t minimal(zdd_t f) {
   static map<word_t, zdd_t> cache;
   if (is_term(f)) return f;
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index b263ff5..6ca1975 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -66,6 +66,7 @@ inline elem_t elem(zdd_t f) {
 zdd_t operator|(const zdd_t& f, const zdd_t& g);
 
 zdd_t complement(zdd_t f, elem_t num_elems_a);
+zdd_t rename(zdd_t f, const std::vector<elem_t>& elems);
 zdd_t minimal(zdd_t f);
 zdd_t maximal(zdd_t f);
 zdd_t hitting(zdd_t f, elem_t num_elems_a);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 8f3f49f..c137db2 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1414,6 +1414,27 @@ std::vector<std::vector<std::string>> parse_args_to_edges(PyObject* args) {
   return edges;
 }
 
+static PyObject* setset_rename(PySetsetObject* self, PyObject* elems_obj) {
+  PyObject* seq = PySequence_Fast(elems_obj, "a sequence of elements is needed");
+  if (seq == NULL) return NULL;
+  vector<graphillion::elem_t> elems;
+  for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(seq); ++i) {
+    long e = PyLong_AsLong(PySequence_Fast_GET_ITEM(seq, i));
+    if (PyErr_Occurred() || e < 1 || e > setset::max_elem()) {
+      if (!PyErr_Occurred())
+        PyErr_SetString(PyExc_ValueError, "no such element");
+      Py_DECREF(seq);
+      return NULL;
+    }
+    elems.push_back(e);
+  }
+  Py_DECREF(seq);
+  // elements not given keep their places
+  for (graphillion::elem_t e = elems.size() + 1; e <= setset::max_elem(); ++e)
+    elems.push_back(e);
+  RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->rename(elems));
+}
+
 static PyObject* setset_to_vss_convert(PySetsetObject* self, PyObject* args, bool is_evss) {
   std::vector<std::vector<std::string>> edges = parse_args_to_edges(args);
   if (PyErr_Occurred()) {
@@ -1516,6 +1537,7 @@ static PyMethodDef setset_methods[] = {
   {"remove_some_element", reinterpret_cast<PyCFunction>(setset_remove_some_element), METH_NOARGS, ""},
   {"add_some_element", reinterpret_cast<PyCFunction>(setset_add_some_element), METH_VARARGS, ""},
   {"remove_add_some_elements", reinterpret_cast<PyCFunction>(setset_remove_add_some_elements), METH_VARARGS, ""},
+  {"rename", reinterpret_cast<PyCFunction>(setset_rename), METH_O, ""},
   {"to_vertexsetset", reinterpret_cast<PyCFunction>(setset_to_vertexsetset), METH_VARARGS, ""},
   {"to_edgevertexsetset", reinterpret_cast<PyCFunction>(setset_to_edgevertexsetset), METH_VARARGS, ""},
   {NULL}  /* Sentinel */
-- 
2.43.0


From 207aeca7d306f03b3132c76db4c6e231ef06350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 36/64] fix: a text without any node does not describe a family

---
 src/graphillion/zdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 5e2603f..4197805 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -437,7 +437,7 @@ zdd_t load(istream& in) {
   zdd_t root = null();
   do {
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') return root;
+    if (line[0] == '.' && root != null()) return root;
     root = load_node(line, &n);
     if (root == null()) break;
   } while (getline(in, line));
@@ -458,7 +458,7 @@ zdd_t load(FILE* fp) {
   do {
     line = string(buf);
     if (line.empty() || is_space(line)) continue;  // skip preceding empty lines
-    if (line[0] == '.') return root;
+    if (line[0] == '.' && root != null()) return root;
     root = load_node(line, &n);
     if (root == null()) break;
   } while (fgets(buf, sizeof(buf), fp) != NULL);
-- 
2.43.0


From ef714ee9f99f73764065fad51ec434c346c0039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 37/64] fix: know a vertex by its value, not by how it is
 pickled or printed

---
 graphillion/digraphset.py  | 31 +++++++++++++--------------
 graphillion/graphset.py    | 44 ++++++++++++++++++--------------------
 graphillion/setset_base.py | 10 +++++----
 graphillion/universe.py    | 17 ++++++++++++++-
 4 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 256ad27..c847be3 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -24,7 +24,6 @@ from functools import partial
 import _graphillion
 from graphillion.universe import ObjectTable
 from graphillion.setset_base import setset_base
-import pickle
 import heapq
 
 
@@ -1831,7 +1830,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1857,7 +1856,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1894,14 +1893,14 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
 
         ss = _graphillion._directed_st_path(
-            graph=graph, s=pickle.dumps(s, protocol=0), t=pickle.dumps(t, protocol=0),
+            graph=graph, s=DiGraphSet._objtable.vertex_name(s), t=DiGraphSet._objtable.vertex_name(t),
             is_hamiltonian=is_hamiltonian, search_space=ss)
         return DiGraphSet(ss)
 
@@ -1930,13 +1929,13 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         rs = []
         if roots is not None:
             for root in roots:
                 assert root in DiGraphSet._vertices
-                rs.append(pickle.dumps(root, protocol=0))
+                rs.append(DiGraphSet._objtable.vertex_name(root))
 
         ss = None if graphset is None else graphset._ss
 
@@ -1971,12 +1970,12 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
         ss = _graphillion._rooted_trees(
-            graph=graph, root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)
+            graph=graph, root=DiGraphSet._objtable.vertex_name(root), is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
 
     @staticmethod
@@ -2010,7 +2009,7 @@ class DiGraphSet(object):
         for e in DiGraphSet._objtable.universe():
             assert e[0] in DiGraphSet._vertices and e[1] in DiGraphSet._vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (DiGraphSet._objtable.vertex_name(e[0]), DiGraphSet._objtable.vertex_name(e[1])))
 
         in_dc = None
         if in_degree_constraints is not None:
@@ -2019,11 +2018,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    in_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    in_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    in_dc[pickle.dumps(v, protocol=0)] = (
+                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         out_dc = None
@@ -2033,11 +2032,11 @@ class DiGraphSet(object):
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    out_dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 1:
-                    out_dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    out_dc[pickle.dumps(v, protocol=0)] = (
+                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (
                         r[0], r[-1] + 1, r[1] - r[0])
 
         ss = None if graphset is None else graphset._ss
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4e9fa5a..32bd2b0 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -25,7 +25,6 @@ from builtins import range, int
 import _graphillion
 from graphillion.universe import Universe
 from graphillion.setset_base import setset_base
-import pickle
 
 class GraphSet(object):
     """Represents and manipulates a set of graphs.
@@ -1689,8 +1688,7 @@ class GraphSet(object):
         from graphillion import VertexSetSet
         ss = self._ss.to_vertexsetset(Universe.e_objtable)
         # The vertex universe may have been set explicitly in another order.
-        vertices = [eval(v) for v in
-                    setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertices = setset_base.get_vertices_from_top(Universe.e_objtable)
         if vertices != Universe.v_objtable.universe()[:len(vertices)]:
             ss = ss.rename([Universe.v_objtable.obj2int[v] for v in vertices])
         return VertexSetSet(ss)
@@ -1922,7 +1920,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         vg = []
         nc = 0
@@ -1934,7 +1932,7 @@ class GraphSet(object):
                     for v in vs:
                         if v not in Universe.vertices:
                             raise KeyError(v)
-                    vg.append([pickle.dumps(v, protocol=0) for v in vs])
+                    vg.append([Universe.e_objtable.vertex_name(v) for v in vs])
         if not vg and nc == 0:
             nc = -1
 
@@ -1945,13 +1943,13 @@ class GraphSet(object):
                 if v not in Universe.vertices:
                     raise KeyError(v)
                 if isinstance(r, int):
-                    dc[pickle.dumps(v, protocol=0)] = (r, r + 1, 1)
+                    dc[Universe.e_objtable.vertex_name(v)] = (r, r + 1, 1)
                 elif len(r) == 0:
-                    dc[pickle.dumps(v, protocol=0)] = (0, 0, 1)
+                    dc[Universe.e_objtable.vertex_name(v)] = (0, 0, 1)
                 elif len(r) == 1:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[0] + 1, 1)
+                    dc[Universe.e_objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
                 else:
-                    dc[pickle.dumps(v, protocol=0)] = (r[0], r[-1] + 1, r[1] - r[0])
+                    dc[Universe.e_objtable.vertex_name(v)] = (r[0], r[-1] + 1, r[1] - r[0])
 
         ne = None
         if num_edges is not None:
@@ -1973,8 +1971,8 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
-                    u = pickle.dumps(we[0], protocol=0)
-                    v = pickle.dumps(we[1], protocol=0)
+                    u = Universe.e_objtable.vertex_name(we[0])
+                    v = Universe.e_objtable.vertex_name(we[1])
                     w = float(we[2]) if len(we) >= 3 else 1.0
                     expr.append((u, v, w))
                 min = float(c[1][0])
@@ -2481,7 +2479,7 @@ class GraphSet(object):
         graph = []
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
-            graph.append((pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+            graph.append((Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         if degree == None:
             degree = (1, len(Universe.vertices))
@@ -2513,7 +2511,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         odd_gs = GraphSet(_graphillion._odd_edges_subgraphs(graph))
         odd_cycle_gs = odd_gs.cycles()
@@ -2675,7 +2673,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         ss = None if graphset is None else graphset._ss
 
@@ -2720,7 +2718,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-              (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+              (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         ss = _graphillion._partitions(
           graph=graph, num_comp_lb=num_comp_lb, num_comp_ub=num_comp_ub)
@@ -2756,7 +2754,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2764,7 +2762,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe.e_objtable.vertex_name(v)] = r
 
         ss = _graphillion._balanced_partitions(
             graph=graph, weight_list=wl, ratio=ratio, lower=lower, upper=upper, num_comps=num_comps)
@@ -2786,7 +2784,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         ss = _graphillion._induced_graphs(graph=graph)
         return GraphSet(ss)
@@ -2816,7 +2814,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         wl = None
         if weight_list is not None:
@@ -2824,7 +2822,7 @@ class GraphSet(object):
             for v, r in weight_list.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                wl[pickle.dumps(v, protocol=0)] = r
+                wl[Universe.e_objtable.vertex_name(v)] = r
 
         ss = _graphillion._weighted_induced_graphs(graph=graph, weight_list=wl, lower=lower, upper=upper)
         return GraphSet(ss)
@@ -2843,7 +2841,7 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         ss = None if forbidden_graphset is None else forbidden_graphset._ss
 
@@ -2881,14 +2879,14 @@ class GraphSet(object):
         for e in Universe.e_objtable.universe():
             assert e[0] in Universe.vertices and e[1] in Universe.vertices
             graph.append(
-                (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
+                (Universe.e_objtable.vertex_name(e[0]), Universe.e_objtable.vertex_name(e[1])))
 
         terms = []
         if terminals is not None:
             for v in terminals:
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                terms.append(pickle.dumps(v, protocol=0))
+                terms.append(Universe.e_objtable.vertex_name(v))
 
         #ps = [1.0] * (_graphillion._num_elems())
         ps = [1.0] * (Universe.e_objtable.num_elems())
diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 2eab46a..1608690 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -190,17 +190,19 @@ class setset_base(_graphillion.setset):
         return _graphillion.setset.remove_add_some_elements(self, objtable.num_elems())
 
     def to_vertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = objtable.named_edges()
         return _graphillion.setset.to_vertexsetset(self, edges_from_top)
 
     def to_edgevertexsetset(self, objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
+        edges_from_top = objtable.named_edges()
         return _graphillion.setset.to_edgevertexsetset(self, edges_from_top)
 
     @staticmethod
     def get_vertices_from_top(objtable):
-        edges_from_top = [list(e) for e in objtable.int2obj[1:]]
-        return _graphillion._get_vertices_from_top(edges_from_top)
+        edges_from_top = objtable.named_edges()
+        names = _graphillion._get_vertices_from_top(edges_from_top)
+        vertices = dict((repr(n), v) for v, n in objtable.vertex2name.items())
+        return [vertices[n] for n in names]
 
     @staticmethod
     def load(fp):
diff --git a/graphillion/universe.py b/graphillion/universe.py
index a6c09e5..4649022 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -33,6 +33,8 @@ class ObjectTable:
     def __init__(self):
         self.obj2int = {}
         self.int2obj = [None]
+        self.vertex2name = {}
+        self.named_elems = 0
 
     def num_elems(self):
         return len(self.int2obj) - 1
@@ -59,6 +61,19 @@ class ObjectTable:
         assert self.int2obj[i] == elem
         assert self.obj2int[elem] == i
 
+    # The name by which the native code knows a vertex of the elements, which
+    # are edges.  Equal vertices have the same name however they are written.
+    def vertex_name(self, vertex):
+        if self.named_elems != self.num_elems():
+            for e in self.int2obj[self.named_elems + 1:]:
+                for v in e:
+                    self.vertex2name.setdefault(v, b'%d' % len(self.vertex2name))
+            self.named_elems = self.num_elems()
+        return self.vertex2name.get(vertex, b'?')
+
+    def named_edges(self):
+        return [[self.vertex_name(v) for v in e] for e in self.universe()]
+
     def conv_elem(self, elem):
         if elem not in self.obj2int:
             self.add_elem(elem)
@@ -241,7 +256,7 @@ class Universe:
         Universe.e_objtable = objtable
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
-- 
2.43.0


From b80bf5e0f5dc2881e68d8f296357ead6a9ed8dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 38/64] fix: a vertex that is a tuple must not be taken for an
 edge

---
 graphillion/digraphset.py        | 3 ++-
 graphillion/edgevertex_setset.py | 2 ++
 graphillion/graphset.py          | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index c847be3..80ef7f4 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2145,7 +2145,8 @@ class DiGraphSet(object):
             return 'digraphset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([DiGraphSet._conv_edge(e) for e in obj])
-        elif isinstance(obj, tuple):
+        elif isinstance(obj, tuple) and (
+                obj in DiGraphSet._objtable.obj2int or obj not in DiGraphSet._vertices):
             return 'edge', DiGraphSet._conv_edge(obj)
         elif obj in DiGraphSet._vertices:
             return 'vertex', [e for e in DiGraphSet._objtable.universe() if obj in e]
diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 58202ad..ce2df0f 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1568,6 +1568,8 @@ class EdgeVertexSetSet(object):
             if edge_or_vertex not in Universe.ev_objtable.obj2int:
                 raise KeyError(edge_or_vertex)
             return edge_or_vertex # interpret it as a vertex
+        if edge_or_vertex in Universe.ev_objtable.obj2int:
+            return edge_or_vertex
         if len(edge_or_vertex) > 2:
             edge_or_vertex = edge_or_vertex[:2]
         if edge_or_vertex in Universe.ev_objtable.obj2int:
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 32bd2b0..f72377d 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2958,7 +2958,8 @@ class GraphSet(object):
             return 'graphset', obj
         elif isinstance(obj, (set, frozenset, list)):
             return 'graph', set([GraphSet._conv_edge(e) for e in obj])
-        elif isinstance(obj, tuple):
+        elif isinstance(obj, tuple) and (
+                obj in Universe.e_objtable.obj2int or obj not in Universe.vertices):
             return 'edge', GraphSet._conv_edge(obj)
         elif obj in Universe.vertices:
             return 'vertex', [e for e in Universe.e_objtable.universe() if obj in e]
-- 
2.43.0


From aa06668ca6f48ce71fd7398818ecc9f356e75834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 39/64] fix: don't reuse exchanges of elements cached for a
 smaller universe

---
 src/graphillion/reconf.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..0c14ab6 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,12 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Levels move whenever an element is added below; variables don't.
+static bddword range_key(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16) + BDD_VarOfLev(lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +95,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, range_key(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +117,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, range_key(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +135,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, range_key(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +161,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, range_key(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From 0d4af66d5e8a88f43eb70a6b948596e4c6787fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 40/64] fix: reject linear constraints on edges that are not in
 the universe

---
 graphillion/graphset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index f72377d..c4e3ed5 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1971,6 +1971,7 @@ class GraphSet(object):
             for c in linear_constraints:
                 expr = []
                 for we in c[0]:
+                    GraphSet._conv_edge(we[:2])  # the edge must be known
                     u = Universe.e_objtable.vertex_name(we[0])
                     v = Universe.e_objtable.vertex_name(we[1])
                     w = float(we[2]) if len(we) >= 3 else 1.0
-- 
2.43.0


From 04a47b5e0286c55414f5dc8e65bcc0417c9f66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 41/64] fix: reject roots and ends of paths that are not in the
 universe

---
 graphillion/digraphset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 80ef7f4..1445dbd 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1897,7 +1897,9 @@ class DiGraphSet(object):
 
         ss = None if graphset is None else graphset._ss
 
-        assert(s in DiGraphSet._vertices and t in DiGraphSet._vertices)
+        for v in [s, t]:
+            if v not in DiGraphSet._vertices:
+                raise KeyError(v)
 
         ss = _graphillion._directed_st_path(
             graph=graph, s=DiGraphSet._objtable.vertex_name(s), t=DiGraphSet._objtable.vertex_name(t),
@@ -1934,7 +1936,8 @@ class DiGraphSet(object):
         rs = []
         if roots is not None:
             for root in roots:
-                assert root in DiGraphSet._vertices
+                if root not in DiGraphSet._vertices:
+                    raise KeyError(root)
                 rs.append(DiGraphSet._objtable.vertex_name(root))
 
         ss = None if graphset is None else graphset._ss
@@ -1974,6 +1977,8 @@ class DiGraphSet(object):
 
         ss = None if graphset is None else graphset._ss
 
+        if root not in DiGraphSet._vertices:
+            raise KeyError(root)
         ss = _graphillion._rooted_trees(
             graph=graph, root=DiGraphSet._objtable.vertex_name(root), is_spanning=is_spanning, search_space=ss)
         return DiGraphSet(ss)
-- 
2.43.0


From 2efef71c93793caf3cac56ec5ad66cb84dfe9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 42/64] fix: a rejected universe must leave the previous one in
 place

---
 graphillion/setset.py   |  7 ++++---
 graphillion/universe.py | 29 +++++++++++++++++++----------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/graphillion/setset.py b/graphillion/setset.py
index 9e903df..f8a2f96 100644
--- a/graphillion/setset.py
+++ b/graphillion/setset.py
@@ -185,10 +185,11 @@ class setset(setset_base):
     def set_universe(universe):
         if len(universe) != len(set(universe)):
             raise ValueError('duplicated elements found')
-        setset._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in universe:
-            setset._objtable.add_elem(e)
-        setset._objtable.check_universe()
+            objtable.add_elem(e)
+        objtable.check_universe()
+        setset._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 4649022..36c8f26 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -251,20 +251,29 @@ class Universe:
         objtable = ObjectTable()
         for e in sorted_edges:
             objtable.add_elem(e)
-        Universe.vertices = vertices
-        Universe.weights = edge_weights
-        Universe.e_objtable = objtable
 
         from graphillion.setset_base import setset_base
-        vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
-        Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
+        names = ['vertices', 'weights', 'isolated_vertices', 'edge_vertex_kind',
+                 'e_objtable', 'v_objtable', 'ev_objtable']
+        previous = [(n, getattr(Universe, n)) for n in names]
+        try:
+            Universe.vertices = vertices
+            Universe.weights = edge_weights
+            Universe.e_objtable = objtable
 
-        Universe._set_ev_universe(sorted_edges)
+            vertex_universe = setset_base.get_vertices_from_top(Universe.e_objtable)
+            Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        if isolated is None:
-            Universe.isolated_vertices = set()
-        else:
-            Universe.isolated_vertices = isolated.copy()
+            Universe._set_ev_universe(sorted_edges)
+
+            if isolated is None:
+                Universe.isolated_vertices = set()
+            else:
+                Universe.isolated_vertices = isolated.copy()
+        except Exception:
+            for n, value in previous:
+                setattr(Universe, n, value)
+            raise
 
     @staticmethod
     def set_vertex_universe(universe, weights=None, tuple_vertex=False):
-- 
2.43.0


From e096c5eb0c13dc5010aadafc97efcfa5c6930409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 43/64] fix: a base collection from a larger universe must not
 hang a search

---
 .../DegreeDistributionGraphs.cc               |  3 ++-
 .../ForbiddenInducedSubgraphs.cc              |  3 ++-
 src/graphillion/graphset.cc                   | 22 +++++++++++++------
 src/graphillion/regular/RegularGraphs.cc      |  3 ++-
 src/graphillion/setset.cc                     |  4 ++--
 src/graphillion/zdd.cc                        |  9 ++++++++
 src/graphillion/zdd.h                         |  1 +
 7 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
index ffe2718..6600308 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
+++ b/src/graphillion/degree_distribution/DegreeDistributionGraphs.cc
@@ -5,6 +5,7 @@
 #include "subsetting/util/IntSubset.hpp"
 #include "subsetting/eval/ToZBDD.hpp"
 #include "subsetting/spec/SapporoZdd.hpp"
+#include "graphillion/zdd.h"
 
 tdzdd::DdStructure<2>
 constructDegreeDistributionGraphs(const tdzdd::Graph &g,
@@ -21,7 +22,7 @@ constructDegreeDistributionGraphs(const tdzdd::Graph &g,
 
   tdzdd::DdStructure<2> dd;
   if (search_space != NULL) {
-    tdzdd::SapporoZdd f(*search_space, offset);
+    tdzdd::SapporoZdd f(graphillion::within(*search_space, g.edgeSize()), offset);
     //dd = tdzdd::DdStructure<2>(f, use_mp);
     dd = tdzdd::DdStructure<2>(f, false); // not use multi processors because
                                           // SAPPOROBDDD is not thread safe
diff --git a/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc b/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
index e5afe7c..e3d7960 100644
--- a/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
+++ b/src/graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc
@@ -7,6 +7,7 @@
 #include "subsetting/spec/SizeConstraint.hpp"
 #include "subsetting/util/IntSubset.hpp"
 #include "subsetting/spec/SapporoZdd.hpp"
+#include "graphillion/zdd.h"
 
 #include "graphillion/setset.h"
 
@@ -54,7 +55,7 @@ setset SearchForbiddenInducedSubgraphs(const std::vector<edge_t> &edges, setset*
 
   int offset =
       graphillion::setset::max_elem() - g.edgeSize();
-  tdzdd::SapporoZdd szdd(ss->zdd_, offset);
+  tdzdd::SapporoZdd szdd(within(ss->zdd_, g.edgeSize()), offset);
   auto new_dd = constructForbiddenInducedSubgraphs(g,
     tdzdd::DdStructure<2>(szdd));
   return setset(new_dd);
diff --git a/src/graphillion/graphset.cc b/src/graphillion/graphset.cc
index a561873..4865e5a 100644
--- a/src/graphillion/graphset.cc
+++ b/src/graphillion/graphset.cc
@@ -40,6 +40,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include "subsetting/util/Graph.hpp"
 
 #include "graphillion/setset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/digraphs/FrontierDegreeSpecified.hpp"
 #include "graphillion/digraphs/FrontierDirectedHamiltonianCycle.hpp"
 #include "graphillion/digraphs/FrontierDirectedSTPath.hpp"
@@ -104,7 +105,8 @@ setset SearchGraphs(
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     //dd = DdStructure<2>(f, use_mp);
     dd = DdStructure<2>(f, false); // not use multi processors because
                                    // SAPPOROBDDD is not thread safe
@@ -179,7 +181,8 @@ setset SearchDirectedCycles(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -206,7 +209,8 @@ setset SearchDirectedHamiltonianCycles(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -234,7 +238,8 @@ setset SearchDirectedSTPath(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -268,7 +273,8 @@ setset SearchDirectedForests(const std::vector<edge_t>& digraph,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -295,7 +301,8 @@ setset SearchRootedTrees(const std::vector<edge_t>& digraph, vertex_t root,
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
@@ -325,7 +332,8 @@ setset SearchDirectedGraphs(
 
   DdStructure<2> dd;
   if (search_space != NULL) {
-    SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());
+    SapporoZdd f(within(search_space->zdd_, g.edgeSize()),
+                 setset::max_elem() - g.edgeSize());
     dd = DdStructure<2>(f);
   } else {
     dd = DdStructure<2>(g.edgeSize());
diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 42eb906..cc96d4a 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -7,6 +7,7 @@
 #include "subsetting/util/IntSubset.hpp"
 #include "subsetting/eval/ToZBDD.hpp"
 #include "subsetting/spec/SapporoZdd.hpp"
+#include "graphillion/zdd.h"
 
 #include <vector>
 #include <climits>
@@ -289,7 +290,7 @@ constructRegularGraphs(const tdzdd::Graph &g,
 
   tdzdd::DdStructure<2> dd;
   if (search_space != NULL) {
-    tdzdd::SapporoZdd f(*search_space, offset);
+    tdzdd::SapporoZdd f(graphillion::within(*search_space, g.edgeSize()), offset);
     //dd = tdzdd::DdStructure<2>(f, use_mp);
     dd = tdzdd::DdStructure<2>(f, false); // not use multi processors because
                                           // SAPPOROBDDD is not thread safe
diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 2252e6e..fe2bb80 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -477,7 +477,7 @@ setset setset::to_vertexsetset_setset(const std::vector<std::vector<std::string>
 
   //const int offset = max_elem() - std::max(graph.edgeSize(), graph.vertexSize());
   const int offset = max_elem() - graph.edgeSize();
-  tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
+  tdzdd::SapporoZdd dd_e_spec(within(this->zdd_, graph.edgeSize()), offset);
   tdzdd::DdStructure<2> dd_e(dd_e_spec);
   dd_e.zddReduce();
   zdd_t dd_v = VariableConverter::eToVZdd(dd_e, graph, vlist, max_elem() - graph.vertexSize());
@@ -494,7 +494,7 @@ setset setset::to_edgevertexsetset_setset(const std::vector<std::vector<std::str
   VariableConverter::VariableList vlist = graph_and_vlist.second;
 
   const int offset = max_elem() - graph.edgeSize();
-  tdzdd::SapporoZdd dd_e_spec(this->zdd_, offset);
+  tdzdd::SapporoZdd dd_e_spec(within(this->zdd_, graph.edgeSize()), offset);
   tdzdd::DdStructure<2> dd_e(dd_e_spec);
   dd_e.zddReduce();
   zdd_t dd_v = VariableConverter::eToEvSZdd(dd_e, graph, vlist, max_elem() - graph.edgeSize() - graph.vertexSize());
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 4197805..3e488d8 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -130,6 +130,15 @@ zdd_t rename(zdd_t f, const vector<elem_t>& elems) {
   return rename(f, elems, &cache);
 }
 
+// Returns the sets in f that consist of elements 1, ..., num_elems_a only.
+zdd_t within(zdd_t f, elem_t num_elems_a) {
+  if (is_term(f) || num_elems_a >= max_elem_) return f;
+  zdd_t all = top();
+  for (elem_t v = num_elems_a; v > 0; --v)
+    all = all.Change(v);
+  return f.Permit(all);
+}
+
 zdd_t minimal(zdd_t f) {
   static map<word_t, zdd_t> cache;
   if (is_term(f)) return f;
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index 6ca1975..c8cae45 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -67,6 +67,7 @@ zdd_t operator|(const zdd_t& f, const zdd_t& g);
 
 zdd_t complement(zdd_t f, elem_t num_elems_a);
 zdd_t rename(zdd_t f, const std::vector<elem_t>& elems);
+zdd_t within(zdd_t f, elem_t num_elems_a);
 zdd_t minimal(zdd_t f);
 zdd_t maximal(zdd_t f);
 zdd_t hitting(zdd_t f, elem_t num_elems_a);
-- 
2.43.0


From d65cd44ff82951c3e4fb9f2fefa9fceec3bc20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 44/64] fix: reject base collections of another type

---
 src/pygraphillion.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index c137db2..8b7688c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1923,8 +1923,13 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
   }
 
   setset* search_space = NULL;
-  if (search_space_obj != NULL && search_space_obj != Py_None)
+  if (search_space_obj != NULL && search_space_obj != Py_None) {
+    if (!PyObject_TypeCheck(search_space_obj, &PySetset_Type)) {
+      PyErr_SetString(PyExc_TypeError, "search_space must be a setset object");
+      return NULL;
+    }
     search_space = reinterpret_cast<PySetsetObject*>(search_space_obj)->ss;
+  }
 
   vector<linear_constraint_t> linear_constraints_entity;
   vector<linear_constraint_t>* linear_constraints = NULL;
@@ -2123,6 +2128,10 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    if (!PyObject_TypeCheck(graphset_obj, &PySetset_Type)) {
+      PyErr_SetString(PyExc_TypeError, "graphset must be a setset object");
+      return NULL;
+    }
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
@@ -2217,6 +2226,10 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
 
   setset* search_space = NULL;
   if (graphset_obj != NULL && graphset_obj != Py_None) {
+    if (!PyObject_TypeCheck(graphset_obj, &PySetset_Type)) {
+      PyErr_SetString(PyExc_TypeError, "graphset must be a setset object");
+      return NULL;
+    }
     search_space = reinterpret_cast<PySetsetObject*>(graphset_obj)->ss;
   }
 
-- 
2.43.0


From 069063f51f8671d8ba0ceed0c895d9a388bf91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 45/64] fix: degrees and sizes outside 32 bits must not wrap
 around

---
 graphillion/digraphset.py | 18 +++---------------
 graphillion/graphset.py   | 21 +++------------------
 graphillion/universe.py   | 24 ++++++++++++++++++++++++
 src/pygraphillion.cc      | 31 ++++++++++++++++++++++---------
 4 files changed, 52 insertions(+), 42 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 1445dbd..cc6e437 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -22,7 +22,7 @@
 
 from functools import partial
 import _graphillion
-from graphillion.universe import ObjectTable
+from graphillion.universe import ObjectTable, int_range
 from graphillion.setset_base import setset_base
 import heapq
 
@@ -2022,13 +2022,7 @@ class DiGraphSet(object):
             for v, r in in_degree_constraints.items():
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 1:
-                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    in_dc[DiGraphSet._objtable.vertex_name(v)] = (
-                        r[0], r[-1] + 1, r[1] - r[0])
+                in_dc[DiGraphSet._objtable.vertex_name(v)] = int_range(r, 2 * len(graph))
 
         out_dc = None
         if out_degree_constraints is not None:
@@ -2036,13 +2030,7 @@ class DiGraphSet(object):
             for v, r in out_degree_constraints.items():
                 if v not in DiGraphSet._vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 1:
-                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    out_dc[DiGraphSet._objtable.vertex_name(v)] = (
-                        r[0], r[-1] + 1, r[1] - r[0])
+                out_dc[DiGraphSet._objtable.vertex_name(v)] = int_range(r, 2 * len(graph))
 
         ss = None if graphset is None else graphset._ss
 
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index c4e3ed5..941a944 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -23,7 +23,7 @@
 from functools import partial
 from builtins import range, int
 import _graphillion
-from graphillion.universe import Universe
+from graphillion.universe import Universe, int_range
 from graphillion.setset_base import setset_base
 
 class GraphSet(object):
@@ -1942,26 +1942,11 @@ class GraphSet(object):
             for v, r in degree_constraints.items():
                 if v not in Universe.vertices:
                     raise KeyError(v)
-                if isinstance(r, int):
-                    dc[Universe.e_objtable.vertex_name(v)] = (r, r + 1, 1)
-                elif len(r) == 0:
-                    dc[Universe.e_objtable.vertex_name(v)] = (0, 0, 1)
-                elif len(r) == 1:
-                    dc[Universe.e_objtable.vertex_name(v)] = (r[0], r[0] + 1, 1)
-                else:
-                    dc[Universe.e_objtable.vertex_name(v)] = (r[0], r[-1] + 1, r[1] - r[0])
+                dc[Universe.e_objtable.vertex_name(v)] = int_range(r, 2 * len(graph))
 
         ne = None
         if num_edges is not None:
-            if isinstance(num_edges, int):
-                ne = (num_edges, num_edges + 1, 1)
-            elif len(num_edges) == 0:
-                ne = (0, 0, 1)
-            elif len(num_edges) == 1:
-                ne = (num_edges[0], num_edges[0] + 1, 1)
-            else:
-                ne = (num_edges[0], num_edges[-1] + 1,
-                      num_edges[1] - num_edges[0])
+            ne = int_range(num_edges, len(graph))
 
         ss = None if graphset is None else graphset._ss
 
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 36c8f26..d7bf3df 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -20,6 +20,30 @@
 import _graphillion
 import heapq
 
+def int_range(r, limit):
+    """Converts `r`, a range or int, to a tuple (start, stop, step).
+
+    Only the numbers from 0 to `limit` are kept, so that the tuple
+    consists of small non-negative integers.
+
+    """
+    if isinstance(r, int):
+        r = (r,)
+    if len(r) == 0:
+        return (0, 0, 1)
+    start, last = r[0], r[-1]
+    step = r[1] - r[0] if len(r) > 1 else 1
+    if step < 0:
+        start, last, step = last, start, -step
+    step = max(step, 1)
+    if start < 0:
+        start %= step
+    last = min(last, limit)
+    if start > last:
+        return (0, 0, 1)
+    return (start, last + 1, min(step, limit + 1))
+
+
 """
 ObjectTable class manages the universe of each class such as GraphSet and VertexSetSet.
 """
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 8b7688c..73f363a 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2060,6 +2060,12 @@ static PyObject* graphset_omp_get_num_procs(PyObject*) {
 }
 
 
+static int clamp_int(long value) {
+  if (value > INT_MAX) return INT_MAX;
+  if (value < INT_MIN) return INT_MIN;
+  return value;
+}
+
 static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   static char s1[] = "graph";
   static char s2[] = "degree";
@@ -2083,12 +2089,12 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
+    long d = PyLong_AsLong(degree_obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
-    degree_lower = d;
-    degree_upper = d;
+    degree_lower = clamp_int(d);
+    degree_upper = clamp_int(d);
   } else if (PyTuple_Check(degree_obj)) {
     Py_ssize_t tuple_size = PyTuple_Size(degree_obj);
     if (tuple_size != 2) {
@@ -2097,7 +2103,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
+      degree_lower = clamp_int(PyLong_AsLong(lower_obj));
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2107,7 +2113,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
+      degree_upper = clamp_int(PyLong_AsLong(upper_obj));
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2200,7 +2206,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
+    long k = PyLong_AsLong(key);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2209,14 +2215,20 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
+    long v = PyLong_AsLong(value);
     if (PyErr_Occurred()) {
       return NULL;
     }
-    if (static_cast<int>(deg_ranges.size()) <= k) {
+    // no vertex has a degree larger than twice the number of edges
+    long max_degree = 2 * static_cast<long>(graph.size());
+    if (k > max_degree) {
+      if (v <= 0) continue;
+      k = max_degree + 1;
+    }
+    if (static_cast<long>(deg_ranges.size()) <= k) {
       deg_ranges.resize(k + 1);
     }
-    deg_ranges[k] = v;
+    deg_ranges[k] = clamp_int(v);
   }
 
   if (!PyBool_Check(is_connected)) {
@@ -2707,6 +2719,7 @@ bool input_vertex_to_range_map(
         return false;
       }
       long value = PyLong_AsLong(io);
+      Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
-- 
2.43.0


From b6c5d0491444d5902d221fdaab2ec7f825532041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 46/64] fix: count degrees and vertices beyond 255

---
 .../degree_distribution/DegreeDistributionSpec.h      | 11 +++++------
 src/graphillion/regular/RegularGraphs.cc              | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index 019725a..63af3c1 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,10 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned char uchar;
-typedef unsigned char DSData;
+typedef unsigned short DSData;
 
-const int DSData_MAX = UCHAR_MAX;
+const int DSData_MAX = USHRT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -43,7 +42,7 @@ private:
   void setDeg(DSData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<DSData>(d);
   }
 
   // This function gets comp of v.
@@ -56,13 +55,13 @@ private:
   void setComp(DSData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<DSData>(fm_.vertexToPos(c));
   }
 
   void clearComp(DSData* data, int v) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(-1);
+      static_cast<DSData>(-1);
   }
 
   void incrementFixedDeg(DSData* data, int d) const {
diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index cc96d4a..dde3921 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -12,10 +12,9 @@
 #include <vector>
 #include <climits>
 
-typedef unsigned char uchar;
-typedef unsigned char RData;
+typedef unsigned short RData;
 
-const int RData_MAX = UCHAR_MAX;
+const int RData_MAX = USHRT_MAX;
 
 class RegularSpec
   : public tdzdd::PodArrayDdSpec<RegularSpec, RData, 2> {
@@ -47,7 +46,7 @@ private:
   void setDeg(RData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<RData>(d);
   }
 
   // This function gets comp of v.
@@ -60,12 +59,12 @@ private:
   void setComp(RData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<RData>(fm_.vertexToPos(c));
   }
 
   void clearComp(RData* data, int v) const {
     assert(is_connected_);
-    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<uchar>(-1);
+    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<RData>(-1);
   }
 
   int getFixedDeg(RData* data) const {
-- 
2.43.0


From 6dd3ae0964592c0f3818f5053eecee351c15eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 47/64] fix: reject families with elements that have no weight
 or probability

---
 src/graphillion/setset.cc |  4 ++++
 src/graphillion/setset.h  |  1 +
 src/graphillion/zdd.cc    |  9 +++++++++
 src/graphillion/zdd.h     |  1 +
 src/pygraphillion.cc      | 11 +++++++++++
 5 files changed, 26 insertions(+)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index fe2bb80..0f6a629 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -550,6 +550,10 @@ elem_t setset::elem_limit() {
   return graphillion::elem_limit();
 }
 
+elem_t setset::last_elem() const {
+  return graphillion::last_elem(this->zdd_);
+}
+
 elem_t setset::max_elem() {
   return graphillion::max_elem();
 }
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index db2bde3..8e4f244 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -202,6 +202,7 @@ class setset {
 
   static iterator end() { return iterator(); }
   static elem_t elem_limit();
+  elem_t last_elem() const;
   static elem_t max_elem();
   static elem_t num_elems();
   static void num_elems(elem_t num_elems);
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 3e488d8..898725b 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -537,6 +537,15 @@ void _enum(zdd_t f, FILE* fp, vector<elem_t>* stack, bool* first,
   _enum(lo(f), fp, stack, first, inner_braces);
 }
 
+// Returns the largest element found in f, or zero.
+elem_t last_elem(zdd_t f) {
+  vector<vector<zdd_t> > stacks;
+  set<word_t> visited;
+  elem_t max_elem = 0;
+  sort_zdd(f, &stacks, &visited, &max_elem);
+  return max_elem;
+}
+
 // Algorithm B modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4.
 void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
   assert(x != NULL);
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index c8cae45..6adae86 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -68,6 +68,7 @@ zdd_t operator|(const zdd_t& f, const zdd_t& g);
 zdd_t complement(zdd_t f, elem_t num_elems_a);
 zdd_t rename(zdd_t f, const std::vector<elem_t>& elems);
 zdd_t within(zdd_t f, elem_t num_elems_a);
+elem_t last_elem(zdd_t f);
 zdd_t minimal(zdd_t f);
 zdd_t maximal(zdd_t f);
 zdd_t hitting(zdd_t f, elem_t num_elems_a);
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 73f363a..a527b0f 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -749,6 +749,10 @@ static PyObject* setset_optimize(PySetsetObject* self, PyObject* weights,
     return NULL;
   }
   Py_DECREF(i);
+  if (static_cast<long>(w.size()) <= self->ss->last_elem()) {
+    PyErr_SetString(PyExc_ValueError, "an element has no weight");
+    return NULL;
+  }
   PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
   if (ssi == NULL) {
     PyErr_NoMemory();
@@ -1095,6 +1099,13 @@ static PyObject* setset_probability(PySetsetObject* self,
     Py_DECREF(eo);
   }
   Py_DECREF(i);
+  if (PyErr_Occurred()) // check the error of PyIter_Next(i)
+    return NULL;
+  if (static_cast<long>(p.size()) <= std::max<long>(num_elems_a,
+                                                    self->ss->last_elem())) {
+    PyErr_SetString(PyExc_ValueError, "an element has no probability");
+    return NULL;
+  }
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
 }
 
-- 
2.43.0


From 6e2979a68b330af0aebad8bd580d5b8592823905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 48/64] fix: reject elements and sizes the engine cannot hold
 instead of ending the process

---
 src/pygraphillion.cc | 107 ++++++++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index a527b0f..18b0952 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -43,6 +43,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #include <limits>
 
 #include "graphillion/graphset.h"
+#include "graphillion/zdd.h"
 #include "graphillion/reliability/reliability.h"
 #include "graphillion/regular/RegularGraphs.h"
 #include "graphillion/induced_graphs/InducedGraphs.h"
@@ -201,6 +202,31 @@ static PyObject* setset_build_set(const set<int>& s) {
   return so;
 }
 
+// Reads an element; the number of elements is limited.
+static int setset_parse_elem(PyObject* eo, int* e) {
+  long value = PyLong_AsLong(eo);
+  if (PyErr_Occurred()) return -1;
+  if (value < 1 || value > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "not an element");
+    return -1;
+  }
+  *e = static_cast<int>(value);
+  return 0;
+}
+
+// Reads the size of a universe and makes sure of its elements.
+static int setset_parse_num_elems(PyObject* io, int* num_elems) {
+  long value = PyLong_AsLong(io);
+  if (PyErr_Occurred()) return -1;
+  if (value < 0 || value > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid number of elements");
+    return -1;
+  }
+  *num_elems = static_cast<int>(value);
+  graphillion::new_elems(*num_elems);
+  return 0;
+}
+
 static int setset_parse_set(PyObject* so, set<int>* s) {
   assert(s != NULL);
   PyObject* i = PyObject_GetIter(so);
@@ -213,14 +239,14 @@ static int setset_parse_set(PyObject* so, set<int>* s) {
       PyErr_SetString(PyExc_TypeError, "not int set");
       return -1;
     }
-    long value = PyLong_AsLong(eo);
+    int e;
+    int result = setset_parse_elem(eo, &e);
     Py_DECREF(eo);
-    // error occurs in PyLong_AsLong
-    if (PyErr_Occurred()) {
+    if (result == -1) {
       Py_DECREF(i);
       return -1;
     }
-    s->insert(value);
+    s->insert(e);
   }
   // error occurs in PyIter_Next
   if (PyErr_Occurred()) {
@@ -291,16 +317,15 @@ static int setset_parse_map(PyObject* dict_obj, map<string, vector<int> >* m) {
         PyErr_SetString(PyExc_TypeError, "not int");
         return -1;
       }
-      long value = PyLong_AsLong(eo);
+      int e;
+      int result = setset_parse_elem(eo, &e);
       Py_DECREF(eo);
-
-      // error occurs in PyLong_AsLong
-      if (PyErr_Occurred()) {
+      if (result == -1) {
         Py_DECREF(i);
         return -1;
       }
 
-      v.push_back(value);
+      v.push_back(e);
     }
     // error occurs in PyIter_Next
     if (PyErr_Occurred()) {
@@ -465,6 +490,10 @@ static int setset_init(PySetsetObject* self, PyObject* args, PyObject* kwds) {
     } else if (PyDict_Check(obj)) {
       map<string, vector<int> > m;
       if (setset_parse_map(obj, &m) == -1) return -1;
+      if (num_elems_a < 0 || num_elems_a > setset::elem_limit()) {
+        PyErr_SetString(PyExc_ValueError, "invalid number of elements");
+        return -1;
+      }
       *self->ss = setset(m, num_elems_a);
     } else {
       PyErr_SetString(PyExc_TypeError, "invalid argument");
@@ -493,12 +522,8 @@ static PyObject* setset_invert(PySetsetObject* self) {
 
 static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (num_elems_a < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int num_elems_a;
+  if (setset_parse_num_elems(io, &num_elems_a) == -1) {
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->complement(num_elems_a));
@@ -797,8 +822,8 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     }
     return self->ss->find(s) != self->ss->end() ? 1 : 0;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return -1;
     }
     return self->ss->supersets(e) != setset() ? 1 : 0;
@@ -817,8 +842,8 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->insert(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     self->ss->insert(e);
@@ -841,8 +866,8 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
       return NULL;
     }
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     if (self->ss->supersets(e).empty()) {
@@ -866,8 +891,8 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     }
     self->ss->erase(s);
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     self->ss->erase(e);
@@ -915,8 +940,8 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg e");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     self->ss->flip(e);
@@ -934,11 +959,11 @@ static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "need arg num_elems");
     return NULL;
   } else if (PyLong_Check(obj)) {
-    long num_elems = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int num_elems;
+    if (setset_parse_num_elems(obj, &num_elems) == -1) {
       return NULL;
     }
-    self->ss->flip_all(static_cast<int>(num_elems));
+    self->ss->flip_all(num_elems);
   } else {
     PyErr_SetString(PyExc_TypeError, "not int");
     return NULL;
@@ -956,12 +981,8 @@ static PyObject* setset_maximal(PySetsetObject* self) {
 
 static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int num_elems_a = PyLong_AsLong(io);
-  if (PyErr_Occurred()) {
-    return NULL;
-  }
-  if (num_elems_a < 0) {
-    PyErr_SetString(PyExc_ValueError, "not unsigned int");
+  int num_elems_a;
+  if (setset_parse_num_elems(io, &num_elems_a) == -1) {
     return NULL;
   }
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->hitting(num_elems_a));
@@ -1013,8 +1034,8 @@ static PyObject* setset_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->supersets(e));
@@ -1033,8 +1054,8 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   if (PySetset_Check(obj)) {
     RETURN_NEW_OBJECT2(Py_TYPE(self), obj, _obj, self->ss->non_supersets(*_obj->ss));
   } else if (PyLong_Check(obj)) {
-    int e = PyLong_AsLong(obj);
-    if (PyErr_Occurred()) {
+    int e;
+    if (setset_parse_elem(obj, &e) == -1) {
       return NULL;
     }
     RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->non_supersets(e));
@@ -1364,6 +1385,11 @@ static PyObject* setset_add_some_element(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "not a positive number");
     return NULL;
   }
+  if (num_variables > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid number of elements");
+    return NULL;
+  }
+  graphillion::new_elems(num_variables);
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->add_some_element(setset::max_elem(),
     setset::max_elem() - num_variables + 1));
 }
@@ -1377,6 +1403,11 @@ static PyObject* setset_remove_add_some_elements(PySetsetObject* self, PyObject*
     PyErr_SetString(PyExc_TypeError, "not a positive number");
     return NULL;
   }
+  if (num_variables > setset::elem_limit()) {
+    PyErr_SetString(PyExc_ValueError, "invalid number of elements");
+    return NULL;
+  }
+  graphillion::new_elems(num_variables);
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->remove_add_some_elements(setset::max_elem(),
     setset::max_elem() - num_variables + 1));
 }
-- 
2.43.0


From 5cdb57e9a65c55edfbb5497a4a28b3ce42b84c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 49/64] fix: an empty degree distribution must not be read
 beyond its end

---
 src/pygraphillion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 18b0952..af519a6 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2238,7 +2238,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
   PyObject* key, *value;
   Py_ssize_t pos = 0;
 
-  std::vector<int> deg_ranges;
+  std::vector<int> deg_ranges(1, 0);
   while (PyDict_Next(deg_dist, &pos, &key, &value)) {
     if (!PyLong_Check(key)) {
       PyErr_SetString(PyExc_TypeError, "key must be an integer.");
-- 
2.43.0


From c5456fd26445d5e26a87b1c1286d9d852452f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 50/64] fix: a setset as the right operand only must not end
 the process

---
 src/pygraphillion.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index af519a6..d1aa96c 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -78,6 +78,13 @@ using std::vector;
 #define CHECK_SETSET_OR_ERROR(obj)                              \
   CHECK_OR_ERROR(obj, PySetset_Check, "setset", NULL);
 
+// A binary operator is also called with a setset as the right operand only.
+#define CHECK_LEFT_OPERAND(obj)                                  \
+  do {                                                           \
+    if (!PySetset_Check(reinterpret_cast<PyObject*>(obj)))       \
+      Py_RETURN_NOTIMPLEMENTED;                                  \
+  } while (0);
+
 #define CHECK_DIVISOR_OR_ERROR(obj)                                  \
   do {                                                               \
     if (reinterpret_cast<PySetsetObject*>(obj)->ss->empty()) {       \
@@ -530,6 +537,7 @@ static PyObject* setset_complement(PySetsetObject* self, PyObject* io) {
 }
 
 static PyObject* setset_union(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) | (*_other->ss));
 }
@@ -548,6 +556,7 @@ static PyObject* setset_update_multi(PySetsetObject* self, PyObject* others) {
 }
 
 static PyObject* setset_intersection(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) & (*_other->ss));
 }
@@ -566,6 +575,7 @@ static PyObject* setset_intersection_update_multi(PySetsetObject* self, PyObject
 }
 
 static PyObject* setset_difference(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) - (*_other->ss));
 }
@@ -584,6 +594,7 @@ static PyObject* setset_difference_update_multi(PySetsetObject* self, PyObject*
 }
 
 static PyObject* setset_symmetric_difference(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) ^ (*_other->ss));
 }
@@ -602,6 +613,7 @@ static PyObject* setset_symmetric_difference_update_multi(PySetsetObject* self,
 }
 
 static PyObject* setset_quotient(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) / (*_other->ss));
@@ -614,6 +626,7 @@ static PyObject* setset_quotient_update(PySetsetObject* self, PyObject* other) {
 }
 
 static PyObject* setset_remainder(PySetsetObject* self, PyObject* other) {
+  CHECK_LEFT_OPERAND(self);
   CHECK_SETSET_OR_ERROR(other);
   CHECK_DIVISOR_OR_ERROR(other);
   RETURN_NEW_OBJECT2(Py_TYPE(self), other, _other, (*self->ss) % (*_other->ss));
-- 
2.43.0


From b0746bd8285587be853a025711e93418eb7fba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 51/64] fix: reject numbers of threads that cannot be started

---
 src/pygraphillion.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index d1aa96c..a738928 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2100,8 +2100,16 @@ static PyObject* graphset_omp_set_num_threads(PyObject*, PyObject* obj) {
     PyErr_SetString(PyExc_TypeError, "not an integer");
     return NULL;
   }
-  long value = PyLong_AsLong(obj);
-  omp_set_num_threads(value);
+  int overflow;
+  long value = PyLong_AsLongAndOverflow(obj, &overflow);
+  if (overflow == 0 && value == -1 && PyErr_Occurred()) return NULL;
+  // libgomp ends the process if it is asked for more threads than it can start
+  const int max_threads = std::max(1024, omp_get_num_procs());
+  if (overflow != 0 || value < 1 || value > max_threads) {
+    PyErr_Format(PyExc_ValueError, "not between 1 and %d", max_threads);
+    return NULL;
+  }
+  omp_set_num_threads(static_cast<int>(value));
 #endif
   Py_RETURN_NONE;
 }
-- 
2.43.0


From d08731f92d365ebf2635e7e6c8408a6d33c496ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 52/64] fix: weights of components of 2^31 and more must not
 wrap around

---
 .../ComponentWeightInducedSpec.h              |  9 +++---
 .../partition/BalancedPartition.cc            | 15 +++++-----
 .../partition/ComponentRatioSpec.h            | 29 +++++++++++--------
 .../partition/ComponentWeightSpec.h           | 20 ++++++++-----
 src/pygraphillion.cc                          | 18 ++++++++----
 5 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
index 74a2eb0..928682c 100644
--- a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
+++ b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
@@ -6,7 +6,8 @@
 
 class ComponentWeightInducedSpecMate {
  public:
-  using offset = int32_t;
+  // wide enough for the weight of a component, which is a sum of 32-bit weights
+  using offset = int64_t;
 
   ComponentWeightInducedSpecMate(offset _offset_or_weight = 0)
       : offset_or_weight(_offset_or_weight),
@@ -53,7 +54,7 @@ class ComponentWeightInducedSpecMate {
     return *(this + (next_conn & next_mask));
   }
 
-  int get_weight() const {
+  offset get_weight() const {
     assert(head().offset_or_weight >= 0);
     return head().offset_or_weight;
   }
@@ -138,8 +139,8 @@ class ComponentWeightInducedSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<ComponentWeightInducedSpecMate> initialMate;
 
diff --git a/src/graphillion/partition/BalancedPartition.cc b/src/graphillion/partition/BalancedPartition.cc
index c4cb5fb..3dc4f28 100644
--- a/src/graphillion/partition/BalancedPartition.cc
+++ b/src/graphillion/partition/BalancedPartition.cc
@@ -26,19 +26,20 @@ tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
   auto sum =
-      std::accumulate(weight_list.begin(), weight_list.end(), weight_t{0});
-  weight_t initial_lower = 0;
+      std::accumulate(weight_list.begin(), weight_list.end(), int64_t{0});
+  int64_t initial_lower = 0;
   if (k != -1) {
     initial_lower = std::max(
-        initial_lower, static_cast<weight_t>(floor(static_cast<double>(sum) /
-                                                   (ratio * (k - 1) + 1))));
+        initial_lower,
+        static_cast<int64_t>(floor(static_cast<double>(sum) /
+                                   ((k > 1 ? ratio * (k - 1) : 0) + 1))));
   }
-  weight_t initial_upper = sum;
+  int64_t initial_upper = sum;
   if (k != -1) {
     initial_upper =
         std::min(initial_upper,
-                 static_cast<weight_t>(ceil(ratio * static_cast<double>(sum) /
-                                            (ratio + (k - 1)))));
+                 static_cast<int64_t>(ceil(static_cast<double>(sum) /
+                                           (1 + (k - 1) / ratio))));
   }
 
   ComponentWeightSpec cwspec(g, weight_list, initial_lower, initial_upper);
diff --git a/src/graphillion/partition/ComponentRatioSpec.h b/src/graphillion/partition/ComponentRatioSpec.h
index 31c63fe..e5adae7 100644
--- a/src/graphillion/partition/ComponentRatioSpec.h
+++ b/src/graphillion/partition/ComponentRatioSpec.h
@@ -4,12 +4,13 @@
 #include "subsetting/util/Graph.hpp"
 
 struct ComponentRatioSpecCount {
-  int32_t lower;
-  int32_t upper;
+  int64_t lower;
+  int64_t upper;
 
-  ComponentRatioSpecCount() : lower(INT_MAX), upper(0) {}
+  ComponentRatioSpecCount() : lower(INT64_MAX), upper(0) {}
 
-  size_t hash() const { return lower + upper * 31415926535; }
+  size_t hash() const { return static_cast<size_t>(lower) +
+           static_cast<size_t>(upper) * 31415926535; }
 
   bool operator==(ComponentRatioSpecCount const& o) const {
     return lower == o.lower && upper == o.upper;
@@ -23,8 +24,9 @@ struct ComponentRatioSpecCount {
 
 class ComponentRatioSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  // wide enough for the weight of a component, which is a sum of 32-bit weights
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -58,7 +60,7 @@ class ComponentRatioSpecMate {
 
   ComponentRatioSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -69,7 +71,10 @@ class ComponentRatioSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const {
+    fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt));
+  }
 
   void mergeLists(ComponentRatioSpecMate& o1, ComponentRatioSpecMate& o2,
                   ComponentRatioSpecMate* mate) {
@@ -149,14 +154,14 @@ class ComponentRatioSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   double const ratio;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
 
-  bool updateRatio(Count& count, int weight) const {
+  bool updateRatio(Count& count, int64_t weight) const {
     if (weight < lower) {
       return false;
     } else {
@@ -302,7 +307,7 @@ class ComponentRatioSpec
     for (int i = 0; i < mateSize; ++i) {
       mate[i] = initialMate[v0 + i];
     }
-    assert(count.lower == INT_MAX);
+    assert(count.lower == INT64_MAX);
     assert(count.upper == 0);
 
     return n;
diff --git a/src/graphillion/partition/ComponentWeightSpec.h b/src/graphillion/partition/ComponentWeightSpec.h
index e13f4a7..b0a164b 100644
--- a/src/graphillion/partition/ComponentWeightSpec.h
+++ b/src/graphillion/partition/ComponentWeightSpec.h
@@ -5,8 +5,9 @@
 
 class ComponentWeightSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  // wide enough for the weight of a component, which is a sum of 32-bit weights
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -40,7 +41,7 @@ class ComponentWeightSpecMate {
 
   ComponentWeightSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -51,7 +52,10 @@ class ComponentWeightSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const {
+    fprintf(fp, "(%lld,%lld)", static_cast<long long>(hoc),
+            static_cast<long long>(nxt));
+  }
 
   void mergeLists(ComponentWeightSpecMate& o1, ComponentWeightSpecMate& o2,
                   ComponentWeightSpecMate* mate) {
@@ -130,8 +134,8 @@ class ComponentWeightSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
@@ -230,8 +234,8 @@ class ComponentWeightSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentWeightSpec(tdzdd::Graph const& graph,
-                      const std::vector<uint32_t>& weight_list, uint32_t lower,
-                      uint32_t upper, bool /*noLoop*/ = false,
+                      const std::vector<uint32_t>& weight_list, int64_t lower,
+                      int64_t upper, bool /*noLoop*/ = false,
                       bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index a738928..47b80f1 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2359,13 +2359,17 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long long lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
   }
+  if (lower < 0 || upper > std::numeric_limits<weight_t>::max()) {
+    PyErr_SetString(PyExc_ValueError, "bound is out of valid range");
+    return NULL;
+  }
   if (num_comps != -1 && num_comps < 1) {
     PyErr_SetString(PyExc_ValueError, "not positive integer");
     return NULL;
@@ -2374,7 +2378,7 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
   }
-  if (ratio != 0 && ratio < 1.0) {
+  if (ratio != 0 && !(ratio >= 1.0)) {
     PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0");
     return NULL;
   }
@@ -2460,11 +2464,15 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  long long lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
+  if (lower < 0 || upper > std::numeric_limits<uint32_t>::max()) {
+    PyErr_SetString(PyExc_ValueError, "bound is out of valid range");
+    return NULL;
+  }
   if (upper < lower) {
     PyErr_SetString(PyExc_TypeError, "lower bound is larger than upper bound");
     return NULL;
-- 
2.43.0


From 0735023c43f95a3c3dadead5cdcac910ae06ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 53/64] fix: exceptions of the native searches must not end the
 process

---
 src/pygraphillion.cc | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 47b80f1..359ad39 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -36,6 +36,7 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 #include <algorithm>
 #include <map>
+#include <new>
 #include <set>
 #include <string>
 #include <sstream>
@@ -3077,44 +3078,58 @@ static PyObject* graphset_directed_graphs(PyObject*, PyObject* args,
   RETURN_NEW_SETSET(ss);
 }
 
+// Runs a search; the native code rejects what it can't handle by exceptions,
+// which must not reach the interpreter.
+template <PyCFunctionWithKeywords search>
+static PyObject* guarded(PyObject* self, PyObject* args, PyObject* kwds) {
+  try {
+    return search(self, args, kwds);
+  } catch (const std::bad_alloc&) {
+    return PyErr_NoMemory();
+  } catch (const std::exception& e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
+}
+
 static PyMethodDef module_methods[] = {
   {"load", reinterpret_cast<PyCFunction>(setset_load), METH_O, ""},
   {"loads", reinterpret_cast<PyCFunction>(setset_loads), METH_O, ""},
   {"_elem_limit", reinterpret_cast<PyCFunction>(setset_elem_limit), METH_NOARGS, ""},
   //{"_num_elems", setset_num_elems, METH_VARARGS, ""},
-  {"_graphs", reinterpret_cast<PyCFunction>(graphset_graphs), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_graphs", reinterpret_cast<PyCFunction>(guarded<graphset_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
   {"_show_messages", reinterpret_cast<PyCFunction>(graphset_show_messages), METH_O, ""},
   {"_omp_get_max_threads", reinterpret_cast<PyCFunction>(graphset_omp_get_max_threads), METH_NOARGS, ""},
   {"_omp_get_num_threads", reinterpret_cast<PyCFunction>(graphset_omp_get_num_threads), METH_NOARGS, ""},
   {"_omp_set_num_threads", reinterpret_cast<PyCFunction>(graphset_omp_set_num_threads), METH_O, ""},
   {"_omp_get_num_procs", reinterpret_cast<PyCFunction>(graphset_omp_get_num_procs), METH_NOARGS, ""},
-  {"_regular_graphs", reinterpret_cast<PyCFunction>(regular_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_odd_edges_subgraphs", reinterpret_cast<PyCFunction>(odd_edges_subgraphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_degree_distribution_graphs", reinterpret_cast<PyCFunction>(degree_distribution_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_partitions", reinterpret_cast<PyCFunction>(graph_partitions), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_balanced_partitions", reinterpret_cast<PyCFunction>(balanced_partitions), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_induced_graphs", reinterpret_cast<PyCFunction>(induced_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_weighted_induced_graphs", reinterpret_cast<PyCFunction>(weighted_induced_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_forbidden_induced_subgraphs", reinterpret_cast<PyCFunction>(forbidden_induced_subgraphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_chordal_graphs", reinterpret_cast<PyCFunction>(chordal_graphs), METH_VARARGS | METH_KEYWORDS, ""},
-  {"_reliability", reinterpret_cast<PyCFunction>(reliability), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_regular_graphs", reinterpret_cast<PyCFunction>(guarded<regular_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_odd_edges_subgraphs", reinterpret_cast<PyCFunction>(guarded<odd_edges_subgraphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_degree_distribution_graphs", reinterpret_cast<PyCFunction>(guarded<degree_distribution_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_partitions", reinterpret_cast<PyCFunction>(guarded<graph_partitions>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_balanced_partitions", reinterpret_cast<PyCFunction>(guarded<balanced_partitions>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_induced_graphs", reinterpret_cast<PyCFunction>(guarded<induced_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_weighted_induced_graphs", reinterpret_cast<PyCFunction>(guarded<weighted_induced_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_forbidden_induced_subgraphs", reinterpret_cast<PyCFunction>(guarded<forbidden_induced_subgraphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_chordal_graphs", reinterpret_cast<PyCFunction>(guarded<chordal_graphs>), METH_VARARGS | METH_KEYWORDS, ""},
+  {"_reliability", reinterpret_cast<PyCFunction>(guarded<reliability>), METH_VARARGS | METH_KEYWORDS, ""},
   {"_get_vertices_from_top", reinterpret_cast<PyCFunction>(setset_get_vertices_from_top), METH_VARARGS, ""},
   // directed version
   {"_directed_cycles",
-    reinterpret_cast<PyCFunction>(graphset_directed_cycles),
+    reinterpret_cast<PyCFunction>(guarded<graphset_directed_cycles>),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_hamiltonian_cycles",
-    reinterpret_cast<PyCFunction>(graphset_directed_hamiltonian_cycles),
+    reinterpret_cast<PyCFunction>(guarded<graphset_directed_hamiltonian_cycles>),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_st_path",
-    reinterpret_cast<PyCFunction>(graphset_directed_st_path),
+    reinterpret_cast<PyCFunction>(guarded<graphset_directed_st_path>),
     METH_VARARGS | METH_KEYWORDS, ""},
-  {"_rooted_forests", reinterpret_cast<PyCFunction>(graphset_rooted_forests),
+  {"_rooted_forests", reinterpret_cast<PyCFunction>(guarded<graphset_rooted_forests>),
     METH_VARARGS | METH_KEYWORDS, ""},
-  {"_rooted_trees", reinterpret_cast<PyCFunction>(graphset_rooted_trees),
+  {"_rooted_trees", reinterpret_cast<PyCFunction>(guarded<graphset_rooted_trees>),
     METH_VARARGS | METH_KEYWORDS, ""},
   {"_directed_graphs",
-    reinterpret_cast<PyCFunction>(graphset_directed_graphs),
+    reinterpret_cast<PyCFunction>(guarded<graphset_directed_graphs>),
     METH_VARARGS | METH_KEYWORDS, ""},
   {NULL}  /* Sentinel */
 };
-- 
2.43.0


From 37d7fb6347e09574f15891c633b90c904f554ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 54/64] fix: levels of a node table must not be collected by
 unsynchronised writes

---
 src/subsetting/dd/NodeTable.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/subsetting/dd/NodeTable.hpp b/src/subsetting/dd/NodeTable.hpp
index 0cf4536..dc3615b 100644
--- a/src/subsetting/dd/NodeTable.hpp
+++ b/src/subsetting/dd/NodeTable.hpp
@@ -264,15 +264,22 @@ public:
 
 #ifdef _OPENMP
             if (useMP) {
-#pragma omp parallel for schedule(static)
-                for (intmax_t j = 0; j < intmax_t(m); ++j) {
-                    for (int b = 0; b < ARITY; ++b) {
-                        int const ii = node[j].branch[b].row();
-                        if (ii == 0) continue;
-                        if (ii < lowest) {
-#pragma omp critical
-                            if (ii < lowest) lowest = ii;
+#pragma omp parallel
+                {
+                    // Levels seen by this thread
+                    MyVector<char> seen(n + 1);
+
+#pragma omp for schedule(static)
+                    for (intmax_t j = 0; j < intmax_t(m); ++j) {
+                        for (int b = 0; b < ARITY; ++b) {
+                            seen[node[j].branch[b].row()] = true;
                         }
+                    }
+
+#pragma omp critical
+                    for (int ii = 1; ii <= n; ++ii) {
+                        if (!seen[ii]) continue;
+                        if (ii < lowest) lowest = ii;
                         if (!lowerMark[ii]) {
                             myLower[ii] = true;
                             lowerMark[ii] = true;
-- 
2.43.0


From 5347a23bf227ec4f5cc203886918b7e263d20fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 55/64] fix: a reduced node must be written by one thread only

---
 src/subsetting/dd/DdReducer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subsetting/dd/DdReducer.hpp b/src/subsetting/dd/DdReducer.hpp
index 108d694..bb2a51c 100644
--- a/src/subsetting/dd/DdReducer.hpp
+++ b/src/subsetting/dd/DdReducer.hpp
@@ -411,6 +411,7 @@ private:
 #endif
         size_t const m = input[i].size();
         newIdTable[i].resize(m);
+        MyVector<char> merged(m); // nodes equal to another one
 #ifdef DEBUG
         etcS1.stop();
         etcP1.start();
@@ -495,6 +496,7 @@ private:
                         else {
                             newIdTable[i][p->column] =
                                     newIdTable[i][pp->column];
+                            merged[p->column] = true;
                         }
                     }
                 }
@@ -540,7 +542,7 @@ private:
                     ff = NodeId(i,
                                 ff.col() + baseColumn[ff.row() - i],
                                 ff.getAttr());
-                    output[i][ff.col()] = input[i][j];
+                    if (!merged[j]) output[i][ff.col()] = input[i][j];
                 }
             }
         }
-- 
2.43.0


From 1d91f63e77b9afcf5107a3fe2ea8e40e3a24b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 56/64] fix: operations on a full node table must fail, not
 return the empty family

---
 src/SAPPOROBDD/ZBDD.h | 38 ++++++++++++---------
 src/pygraphillion.cc  | 78 +++++++++++++++++++++++++------------------
 2 files changed, 68 insertions(+), 48 deletions(-)

diff --git a/src/SAPPOROBDD/ZBDD.h b/src/SAPPOROBDD/ZBDD.h
index b9ca621..eca839b 100644
--- a/src/SAPPOROBDD/ZBDD.h
+++ b/src/SAPPOROBDD/ZBDD.h
@@ -9,10 +9,18 @@ class ZBDDV;
 #ifndef _ZBDD_
 #define _ZBDD_
 
+#include <new>
 #include "BDD.h"
 
 class SeqBDD;
 
+/* Throws if an operation has failed (the node table is full) */
+inline bddword ZBDD_Result(bddword f)
+{
+  if(f == bddnull) { BDD_RecurCount = 0; throw std::bad_alloc(); }
+  return f;
+}
+
 class ZBDD
 {
   bddword _zbdd;
@@ -30,43 +38,43 @@ public:
   }
 
   ZBDD& operator&=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddintersec(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddintersec(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator+=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddunion(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddunion(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator-=(const ZBDD& f)
-    { ZBDD h; h._zbdd = bddsubtract(_zbdd, f._zbdd); return *this = h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddsubtract(_zbdd, f._zbdd)); return *this = h; }
 
   ZBDD& operator<<=(int s)
-    { ZBDD h; h._zbdd = bddlshift(_zbdd, s); return *this = h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddlshift(_zbdd, s)); return *this = h; }
 
   ZBDD& operator>>=(int s)
-    { ZBDD h; h._zbdd = bddrshift(_zbdd, s); return *this = h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddrshift(_zbdd, s)); return *this = h; }
 
   ZBDD& operator*=(const ZBDD&);
   ZBDD& operator/=(const ZBDD&);
   ZBDD& operator%=(const ZBDD&);
 
   ZBDD operator<<(int s) const
-    { ZBDD h; h._zbdd = bddlshift(_zbdd, s); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddlshift(_zbdd, s)); return h; }
 
   ZBDD operator>>(int s) const
-    { ZBDD h; h._zbdd = bddrshift(_zbdd, s); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddrshift(_zbdd, s)); return h; }
 
   int Top(void) const { return bddtop(_zbdd); }
 
   ZBDD OffSet(int v) const
-    { ZBDD h; h._zbdd = bddoffset(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddoffset(_zbdd, v)); return h; }
 
   ZBDD OnSet(int v) const
-    { ZBDD h; h._zbdd = bddonset(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddonset(_zbdd, v)); return h; }
 
   ZBDD OnSet0(int v) const
-    { ZBDD h; h._zbdd = bddonset0(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddonset0(_zbdd, v)); return h; }
 
   ZBDD Change(int v) const
-    { ZBDD h; h._zbdd = bddchange(_zbdd, v); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddchange(_zbdd, v)); return h; }
 
   bddword GetID(void) const { return _zbdd; }
   bddword Size(void) const { return bddsize(_zbdd); }
@@ -85,7 +93,7 @@ public:
   ZBDD Permit(const ZBDD&) const;
   ZBDD PermitSym(int) const;
   ZBDD Support(void) const
-    { ZBDD h; h._zbdd = bddsupport(_zbdd); return h; }
+    { ZBDD h; h._zbdd = ZBDD_Result(bddsupport(_zbdd)); return h; }
   ZBDD Always(void) const;
 
   int SymChk(int, int) const;
@@ -127,13 +135,13 @@ inline ZBDD BDD_CacheZBDD(char op, bddword fx, bddword gx)
   { return ZBDD_ID(bddcopy(bddrcache(op, fx, gx))); }
 
 inline ZBDD operator&(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddintersec(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(ZBDD_Result(bddintersec(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator+(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddunion(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(ZBDD_Result(bddunion(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator-(const ZBDD& f, const ZBDD& g)
-  { return ZBDD_ID(bddsubtract(f.GetID(), g.GetID())); }
+  { return ZBDD_ID(ZBDD_Result(bddsubtract(f.GetID(), g.GetID()))); }
 
 inline ZBDD operator%(const ZBDD& f, const ZBDD& p)
   { return f - (f/p) * p; }
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 359ad39..83644b3 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -95,6 +95,16 @@ using std::vector;
     }                                                                \
   } while (0);
 
+// Handlers of a function that may run out of memory.
+#define CATCH_ERRORS(ret)                             \
+  catch (const std::bad_alloc&) {                     \
+    PyErr_NoMemory();                                 \
+    return (ret);                                     \
+  } catch (const std::exception& e) {                 \
+    PyErr_SetString(PyExc_RuntimeError, e.what());    \
+    return (ret);                                     \
+  }
+
 #define RETURN_NEW_OBJECT(py_type, expr)                         \
   do {                                                           \
     PySetsetObject* _ret = reinterpret_cast<PySetsetObject*>(    \
@@ -133,7 +143,7 @@ using std::vector;
 #define RETURN_SELF_SETSET(self, other, _other, expr)                  \
   do {                                                                 \
     PySetsetObject* _other = reinterpret_cast<PySetsetObject*>(other); \
-    (expr);                                                            \
+    try { (expr); } CATCH_ERRORS(NULL)                                 \
     Py_INCREF(self);                                                   \
     return reinterpret_cast<PyObject*>(self);                          \
   } while (0);
@@ -141,8 +151,10 @@ using std::vector;
 #define RETURN_TRUE_IF(self, other, _other, expr)                       \
   do {                                                                  \
     PySetsetObject* _other = reinterpret_cast<PySetsetObject*>(other); \
-    if (expr) Py_RETURN_TRUE;                                           \
-    else      Py_RETURN_FALSE;                                          \
+    try {                                                               \
+      if (expr) Py_RETURN_TRUE;                                         \
+      else      Py_RETURN_FALSE;                                        \
+    } CATCH_ERRORS(NULL)                                                \
   } while (0);
 
 #define DO_FOR_MULTI(self, others, expr)                                \
@@ -372,7 +384,7 @@ static void setsetiter_dealloc(PySetsetIterObject* self) {
   PyObject_Del(self);
 }
 
-static PyObject* setsetiter_next(PySetsetIterObject* self) {
+static PyObject* setsetiter_next(PySetsetIterObject* self) try {
   if (*(self->it) == setset::end()) {
     PyErr_SetNone(PyExc_StopIteration);
     return NULL;
@@ -384,7 +396,7 @@ static PyObject* setsetiter_next(PySetsetIterObject* self) {
   }
   ++(*self->it);
   return py_set;
-}
+} CATCH_ERRORS(NULL)
 
 static PyMethodDef setsetiter_methods[] = {
   {NULL,           NULL}           /* sentinel */
@@ -658,7 +670,7 @@ static int setset_bool(PySetsetObject* self) {
   return !self->ss->empty();
 }
 
-static Py_ssize_t setset_len(PyObject* obj) {
+static Py_ssize_t setset_len(PyObject* obj) try {
   PySetsetObject* self = reinterpret_cast<PySetsetObject*>(obj);
   errno = 0;
   long long int len = strtoll(self->ss->size().c_str(), NULL, 0);
@@ -668,9 +680,9 @@ static Py_ssize_t setset_len(PyObject* obj) {
     PyErr_SetString(PyExc_OverflowError, "overflow, use obj.len()");
     return -1;
   }
-}
+} CATCH_ERRORS(-1)
 
-static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
+static PyObject* setset_len2(PySetsetObject* self, PyObject* args) try {
   PyObject* obj = NULL;
   if (!PyArg_ParseTuple(args, "|O", &obj)) {
     PyErr_SetString(PyExc_TypeError, "invalid arguments. expected () or (int)");
@@ -701,9 +713,9 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     PyErr_SetString(PyExc_TypeError, "not int");
     return NULL;
   }
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_iter(PySetsetObject* self) {
+static PyObject* setset_iter(PySetsetObject* self) try {
   PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
   if (ssi == NULL) {
     PyErr_NoMemory();
@@ -726,7 +738,7 @@ static PyObject* setset_iter(PySetsetObject* self) {
     return NULL;
   }
   return reinterpret_cast<PyObject*>(ssi);
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_rand_iter(PySetsetObject* self) {
   PySetsetIterObject* ssi = PyObject_New(PySetsetIterObject, &PySetsetIter_Type);
@@ -827,7 +839,7 @@ static PyObject* setset_min_iter(PySetsetObject* self, PyObject* weights) {
 }
 
 // If an item in o is equal to value, return 1, otherwise return 0. On error, return -1.
-static int setset_contains(PySetsetObject* self, PyObject* obj) {
+static int setset_contains(PySetsetObject* self, PyObject* obj) try {
   if (PyAnySet_Check(obj)) {
     set<int> s;
     if (setset_parse_set(obj, &s) == -1) {
@@ -845,9 +857,9 @@ static int setset_contains(PySetsetObject* self, PyObject* obj) {
     PyErr_SetString(PyExc_TypeError, "not set nor int");
     return -1;
   }
-}
+} CATCH_ERRORS(-1)
 
-static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
+static PyObject* setset_add(PySetsetObject* self, PyObject* obj) try {
   if (PyAnySet_Check(obj)) {
     set<int> s;
     if (setset_parse_set(obj, &s) == -1) {
@@ -866,9 +878,9 @@ static PyObject* setset_add(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
+static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) try {
   if (PyAnySet_Check(obj)) {
     set<int> s;
     if (setset_parse_set(obj, &s) == -1) {
@@ -894,9 +906,9 @@ static PyObject* setset_remove(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
+static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) try {
   if (PyAnySet_Check(obj)) {
     set<int> s;
     if (setset_parse_set(obj, &s) == -1) {
@@ -915,7 +927,7 @@ static PyObject* setset_discard(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_pop(PySetsetObject* self) {
   try {
@@ -947,7 +959,7 @@ static PyObject* setset_clear(PySetsetObject* self) {
   Py_RETURN_NONE;
 }
 
-static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
+static PyObject* setset_flip(PySetsetObject* self, PyObject* args) try {
   PyObject* obj = NULL;
   if (!PyArg_ParseTuple(args, "O", &obj)) return NULL;
   if (obj == NULL || obj == Py_None) {
@@ -964,9 +976,9 @@ static PyObject* setset_flip(PySetsetObject* self, PyObject* args) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
+static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) try {
   PyObject* obj = NULL;
   if (!PyArg_ParseTuple(args, "O", &obj)) return NULL;
   if (obj == NULL || obj == Py_None) {
@@ -983,7 +995,7 @@ static PyObject* setset_flip_all(PySetsetObject* self, PyObject* args) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_minimal(PySetsetObject* self) {
   RETURN_NEW_OBJECT(Py_TYPE(self), self->ss->minimal());
@@ -1079,7 +1091,7 @@ static PyObject* setset_non_supersets(PySetsetObject* self, PyObject* obj) {
   }
 }
 
-static PyObject* setset_choice(PySetsetObject* self) {
+static PyObject* setset_choice(PySetsetObject* self) try {
   setset::iterator i = self->ss->begin();
   if (i == self->ss->end()) {
     PyErr_SetString(PyExc_KeyError, "'choice' from an empty set");
@@ -1087,10 +1099,10 @@ static PyObject* setset_choice(PySetsetObject* self) {
   }
   set<int> s = *i;
   return setset_build_set(s);
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_probability(PySetsetObject* self,
-                                    PyObject* args) {
+                                    PyObject* args) try {
   int num_elems_a = -1;
   PyObject* probabilities;
 
@@ -1142,9 +1154,9 @@ static PyObject* setset_probability(PySetsetObject* self,
     return NULL;
   }
   return PyFloat_FromDouble(self->ss->probability(p, num_elems_a));
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
+static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) try {
   CHECK_OR_ERROR(obj, PyObject_AsFileDescriptor, "file", NULL);
   int fd = PyObject_AsFileDescriptor(obj);
   if (fd == -1) {
@@ -1169,13 +1181,13 @@ static PyObject* setset_dump(PySetsetObject* self, PyObject* obj) {
     return NULL;
   }
   Py_RETURN_NONE;
-}
+} CATCH_ERRORS(NULL)
 
-static PyObject* setset_dumps(PySetsetObject* self) {
+static PyObject* setset_dumps(PySetsetObject* self) try {
   stringstream sstr;
   self->ss->dump(sstr);
   return PyUnicode_FromString(sstr.str().c_str());
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_load_text(const string& text) {
   stringstream sstr(text);
@@ -1311,7 +1323,7 @@ static long setset_hash(PyObject* self) {
 }
 */
 
-static PyObject* setset_richcompare(PySetsetObject* self, PyObject* obj, int op) {
+static PyObject* setset_richcompare(PySetsetObject* self, PyObject* obj, int op) try {
   PySetsetObject* sso;
   if(!PySetset_Check(obj)) {
     if (op == Py_EQ) Py_RETURN_FALSE;
@@ -1342,7 +1354,7 @@ static PyObject* setset_richcompare(PySetsetObject* self, PyObject* obj, int op)
   }
   Py_INCREF(Py_NotImplemented);
   return Py_NotImplemented;
-}
+} CATCH_ERRORS(NULL)
 
 static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject* kwds) {
   static char s1[] = "costs";
-- 
2.43.0


From d302bba6b57449da2c674abba7822509243a01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 57/64] fix: results must not be remembered by the ids of nodes
 which may be reclaimed

---
 src/graphillion/setset.cc |   6 +-
 src/graphillion/setset.h  |   1 +
 src/graphillion/zdd.cc    | 133 +++++++++++++++++++++++---------------
 src/graphillion/zdd.h     |   6 +-
 4 files changed, 90 insertions(+), 56 deletions(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index 0f6a629..d693357 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -91,11 +91,11 @@ setset::random_iterator::random_iterator() : iterator(), size_(0) {
 }
 
 setset::random_iterator::random_iterator(const setset::random_iterator& i)
-    : iterator(i), size_(i.size_) {
+    : iterator(i), size_(i.size_), counts_(i.counts_) {
 }
 
 setset::random_iterator::random_iterator(const setset& ss) : iterator(ss, set<elem_t>()) {
-  this->size_ = algo_c(ss.zdd_);
+  this->size_ = algo_c(ss.zdd_, &this->counts_);
   this->next();
 }
 
@@ -105,7 +105,7 @@ void setset::random_iterator::next() {
     this->s_ = set<elem_t>();
   } else {
     vector<elem_t> stack;
-    zdd_t z = choose_random(this->zdd_, &stack);
+    zdd_t z = choose_random(this->zdd_, &stack, &this->counts_);
     // Since same sets are rarely selected from very large setset that has more
     // than 1e17 sets, we don't need to remove the selected sets
     if (this->size_ < 1e17) this->zdd_ -= z;
diff --git a/src/graphillion/setset.h b/src/graphillion/setset.h
index 8e4f244..9eed9ee 100644
--- a/src/graphillion/setset.h
+++ b/src/graphillion/setset.h
@@ -87,6 +87,7 @@ class setset {
     virtual void next();
 
     double size_;
+    std::map<word_t, std::pair<zdd_t, long double> > counts_; // numbers of sets
   };
 
   class weighted_iterator : public iterator {
diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 898725b..60c7cf9 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -139,30 +139,49 @@ zdd_t within(zdd_t f, elem_t num_elems_a) {
   return f.Permit(all);
 }
 
-zdd_t minimal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+// The caches live during a call, and pin their keys like rename().
+typedef map<word_t, pair<zdd_t, zdd_t> > unary_cache_t;
+typedef map<pair<word_t, word_t>, pair<pair<zdd_t, zdd_t>, zdd_t> > binary_cache_t;
+
+static zdd_t non_subsets(zdd_t f, zdd_t g, binary_cache_t* cache);
+static zdd_t non_supersets(zdd_t f, zdd_t g, binary_cache_t* cache);
+
+static zdd_t minimal(zdd_t f, unary_cache_t* cache, binary_cache_t* non_cache) {
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
-    return i->second;
-  zdd_t rl = minimal(lo(f));
-  zdd_t r = minimal(hi(f));
-  zdd_t rh = non_supersets(r, rl);
+  unary_cache_t::iterator i = cache->find(id(f));
+  if (i != cache->end())
+    return i->second.second;
+  zdd_t rl = minimal(lo(f), cache, non_cache);
+  zdd_t r = minimal(hi(f), cache, non_cache);
+  zdd_t rh = non_supersets(r, rl, non_cache);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  (*cache)[id(f)] = std::make_pair(f, r);
+  return r;
 }
 
-zdd_t maximal(zdd_t f) {
-  static map<word_t, zdd_t> cache;
+zdd_t minimal(zdd_t f) {
+  unary_cache_t cache;
+  binary_cache_t non_cache;
+  return minimal(f, &cache, &non_cache);
+}
+
+static zdd_t maximal(zdd_t f, unary_cache_t* cache, binary_cache_t* non_cache) {
   if (is_term(f)) return f;
-  map<word_t, zdd_t>::iterator i = cache.find(id(f));
-  if (i != cache.end())
-    return i->second;
-  zdd_t r = maximal(lo(f));
-  zdd_t rh = maximal(hi(f));
-  zdd_t rl = non_subsets(r, rh);
+  unary_cache_t::iterator i = cache->find(id(f));
+  if (i != cache->end())
+    return i->second.second;
+  zdd_t r = maximal(lo(f), cache, non_cache);
+  zdd_t rh = maximal(hi(f), cache, non_cache);
+  zdd_t rl = non_subsets(r, rh, non_cache);
   r = zuniq(elem(f), rl, rh);
-  return cache[id(f)] = r;
+  (*cache)[id(f)] = std::make_pair(f, r);
+  return r;
+}
+
+zdd_t maximal(zdd_t f) {
+  unary_cache_t cache;
+  binary_cache_t non_cache;
+  return maximal(f, &cache, &non_cache);
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
@@ -217,8 +236,7 @@ zdd_t meet(zdd_t f, zdd_t g) {
   return ZBDD_Meet(f, g);
 }
 
-zdd_t non_subsets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+static zdd_t non_subsets(zdd_t f, zdd_t g, binary_cache_t* cache) {
   if (g == bot())
     return f;
   else if (g == top())
@@ -226,12 +244,12 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
   else if (f == bot() || f == top() || f == g)
     return bot();
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+  binary_cache_t::iterator i = cache->find(k);
+  if (i != cache->end())
+    return i->second.second;
   zdd_t r, r2, rl, rh;
   if (elem(f) < elem(g)) {
-    rl = non_subsets(lo(f), g);
+    rl = non_subsets(lo(f), g, cache);
     rh = hi(f);
     r = zuniq(elem(f), rl, rh);
   } else if (elem(f) == elem(g)) {
@@ -239,18 +257,23 @@ zdd_t non_subsets(zdd_t f, zdd_t g) {
 //    r2 = non_subsets(lo(f), hi(g));
 //    rl = r & r2;
     r2 = lo(g) | hi(g);
-    rl = non_subsets(lo(f), r2);
-    rh = non_subsets(hi(f), hi(g));
+    rl = non_subsets(lo(f), r2, cache);
+    rh = non_subsets(hi(f), hi(g), cache);
     r = zuniq(elem(f), rl, rh);
   } else {
     r2 = lo(g) | hi(g);
-    r = non_subsets(f, r2);
+    r = non_subsets(f, r2, cache);
   }
-  return cache[k] = r;
+  (*cache)[k] = std::make_pair(std::make_pair(f, g), r);
+  return r;
 }
 
-zdd_t non_supersets(zdd_t f, zdd_t g) {
-  static map<pair<word_t, word_t>, zdd_t> cache;
+zdd_t non_subsets(zdd_t f, zdd_t g) {
+  binary_cache_t cache;
+  return non_subsets(f, g, &cache);
+}
+
+static zdd_t non_supersets(zdd_t f, zdd_t g, binary_cache_t* cache) {
   if (g == bot())
     return f;
   else if (f == bot() || g == top() || f == g)
@@ -258,26 +281,32 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == top())
     return f - (g & top());
   else if (elem(f) > elem(g))
-    return non_supersets(f, lo(g));
+    return non_supersets(f, lo(g), cache);
   pair<word_t, word_t> k = make_key(f, g);
-  map<pair<word_t, word_t>, zdd_t>::iterator i = cache.find(k);
-  if (i != cache.end())
-    return i->second;
+  binary_cache_t::iterator i = cache->find(k);
+  if (i != cache->end())
+    return i->second.second;
   elem_t v = elem(f);
   zdd_t r;
   zdd_t rl;
   zdd_t rh;
   if (elem(f) < elem(g)) {
-    rl = non_supersets(lo(f), g);
-    rh = non_supersets(hi(f), g);
+    rl = non_supersets(lo(f), g, cache);
+    rh = non_supersets(hi(f), g, cache);
   } else {
-    rl = non_supersets(hi(f), hi(g));
-    r = non_supersets(hi(f), lo(g));
+    rl = non_supersets(hi(f), hi(g), cache);
+    r = non_supersets(hi(f), lo(g), cache);
     rh = r & rl;
-    rl = non_supersets(lo(f), lo(g));
+    rl = non_supersets(lo(f), lo(g), cache);
   }
   r = zuniq(v, rl, rh);
-  return cache[k] = r;
+  (*cache)[k] = std::make_pair(std::make_pair(f, g), r);
+  return r;
+}
+
+zdd_t non_supersets(zdd_t f, zdd_t g) {
+  binary_cache_t cache;
+  return non_supersets(f, g, &cache);
 }
 
 bool choose(zdd_t f, vector<elem_t>* stack) {
@@ -316,7 +345,8 @@ bool choose(zdd_t f, vector<elem_t>* stack) {
   return false;
 }
 
-zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
+zdd_t choose_random(zdd_t f, vector<elem_t>* stack,
+                    map<word_t, pair<zdd_t, long double> >* counts) {
   assert(stack != NULL);
   if (is_term(f)) {
     if (f == top()) {
@@ -327,13 +357,13 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
     }
     assert(false);
   }
-  long double ch = algo_c(hi(f));
-  long double cl = algo_c(lo(f));
+  long double ch = algo_c(hi(f), counts);
+  long double cl = algo_c(lo(f), counts);
   if (rand_xor128() >= cl / (ch + cl)) {
     stack->push_back(elem(f));
-    return choose_random(hi(f), stack);
+    return choose_random(hi(f), stack, counts);
   } else {
-    return choose_random(lo(f), stack);
+    return choose_random(lo(f), stack, counts);
   }
 }
 
@@ -593,14 +623,15 @@ void algo_b(zdd_t f, const vector<double>& w, vector<bool>* x) {
 
 // Algorithm C modified for ZDD, from Knuth vol. 4 fascicle 1 sec. 7.1.4 (p.75).
 // A double overflows at 2^1024 sets.
-long double algo_c(zdd_t f) {
-  static map<word_t, long double> counts;
+long double algo_c(zdd_t f, map<word_t, pair<zdd_t, long double> >* counts) {
   if (is_term(f))
     return f == top() ? 1 : 0;
-  else if (counts.find(id(f)) != counts.end())
-    return counts.at(id(f));
-  else
-    return counts[id(f)] = algo_c(hi(f)) + algo_c(lo(f));
+  map<word_t, pair<zdd_t, long double> >::iterator i = counts->find(id(f));
+  if (i != counts->end())
+    return i->second.second;
+  long double c = algo_c(hi(f), counts) + algo_c(lo(f), counts);
+  (*counts)[id(f)] = std::make_pair(f, c); // pins the key
+  return c;
 }
 
 static double skip_probability(elem_t e, zdd_t f,
diff --git a/src/graphillion/zdd.h b/src/graphillion/zdd.h
index 6adae86..8efcc6d 100644
--- a/src/graphillion/zdd.h
+++ b/src/graphillion/zdd.h
@@ -77,7 +77,8 @@ zdd_t meet(zdd_t f, zdd_t g);
 zdd_t non_subsets(zdd_t f, zdd_t g);
 zdd_t non_supersets(zdd_t f, zdd_t g);
 bool choose(zdd_t f, std::vector<elem_t>* stack);
-zdd_t choose_random(zdd_t f, std::vector<elem_t>* stack);
+zdd_t choose_random(zdd_t f, std::vector<elem_t>* stack,
+                    std::map<word_t, std::pair<zdd_t, long double> >* counts);
 zdd_t choose_best(zdd_t f, const std::vector<double>& weights,
                   std::set<elem_t>* s);
 void dump(zdd_t f, std::ostream& out);
@@ -95,7 +96,8 @@ void _enum(zdd_t f, std::ostream& out, std::vector<elem_t>* stack, bool* first,
 void _enum(zdd_t f, FILE* fp, std::vector<elem_t>* stack, bool* first,
            const std::pair<const char*, const char*>& inner_braces);
 void algo_b(zdd_t f, const std::vector<double>& w, std::vector<bool>* x);
-long double algo_c(zdd_t f);
+long double algo_c(zdd_t f,
+                   std::map<word_t, std::pair<zdd_t, long double> >* counts);
 double probability(elem_t e, zdd_t f, const std::vector<double>& probabilities,
                    std::map<word_t, double>& cache, elem_t num_elems_a);
 zdd_t zuniq(elem_t v, zdd_t l, zdd_t h);
-- 
2.43.0


From 7634285801e258ef81d1f6b771b6ed8c5ccd6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 58/64] fix: a node that cannot be stored must not be counted
 in the unique table

---
 src/SAPPOROBDD/bddc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 4b3b2b5..4da9190 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -1640,7 +1640,7 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
   /* Check hash-table overflow */
   if(++ varp->hashUsed >= varp->hashSpc)
   {
-    if(hash_enlarge(v)) return bddnull; /* Hash-table overflow */
+    if(hash_enlarge(v)) { varp->hashUsed--; return bddnull; } /* Hash-table overflow */
     key = B_HASHKEY(f0, f1, varp->hashSpc); /* Enlarge success */
   }
 
@@ -1649,7 +1649,7 @@ static bddp getnode(bddvar v, bddp f0, bddp f1)
   {
     if(node_enlarge())
     {
-      if(bddgc()) return bddnull; /* Node-table overflow */
+      if(bddgc()) { varp->hashUsed--; return bddnull; } /* Node-table overflow */
       key = B_HASHKEY(f0, f1, varp->hashSpc);
     }
     /* Node-table enlarged or GC succeeded */
-- 
2.43.0


From 2c3cfaf59a21dbcff19338f41c61b399b26913e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 59/64] fix: a failed operation must not be remembered as its
 answer

---
 src/SAPPOROBDD/bddc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SAPPOROBDD/bddc.cc b/src/SAPPOROBDD/bddc.cc
index 4da9190..af09c7a 100644
--- a/src/SAPPOROBDD/bddc.cc
+++ b/src/SAPPOROBDD/bddc.cc
@@ -2270,6 +2270,10 @@ static bddp apply(bddp f, bddp g, unsigned char op, unsigned char skip)
   /* Stack overflow limitter */
   BDD_RECUR_DEC;
 
+  /* Running out of nodes is not an answer to be remembered */
+  if(h == bddnull && op != BC_CARD && op != BC_CARD2 && op != BC_LIT
+     && op != BC_LEN) return h;
+
   /* Saving to Cache */
   if(key != bddnull)
   {
-- 
2.43.0


From b2acf4a4bf75b689b3f8bd6700f47eaef680af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 60/64] fix: terms of linear constraints must not be leaked

---
 src/pygraphillion.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 83644b3..ea6c0ad 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2033,6 +2033,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
             || !get_double_from_sequence(eo, 2, &w)) {
           Py_DECREF(eo);
           Py_DECREF(j);
+          Py_DECREF(co);
           Py_DECREF(i);
           return NULL;
         }
@@ -2045,6 +2046,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         if (wo == NULL || !PyFloat_Check(wo)) return NULL;
         double w = PyFloat_AsDouble(wo);*/
         expr.push_back(make_pair(make_pair(u, v), w));
+        Py_DECREF(eo);
       }
       Py_DECREF(j);
       if (PyErr_Occurred()) { // check the error of PyIter_Next(j)
-- 
2.43.0


From a3ce08537e12c6d71b52d329d7790ac7273a7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 61/64] fix: elements may be registered by several threads at
 once

---
 graphillion/universe.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index d7bf3df..4e5d0f5 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -19,6 +19,11 @@
 
 import _graphillion
 import heapq
+import threading
+
+# Held while an object is registered on its first use, which several
+# threads may do at the same time.
+_lock = threading.RLock()
 
 def int_range(r, limit):
     """Converts `r`, a range or int, to a tuple (start, stop, step).
@@ -64,11 +69,12 @@ class ObjectTable:
         return len(self.int2obj) - 1
 
     def check_universe(self):
-        for e, i in self.obj2int.items():
-            assert e == self.int2obj[i]
-        for i in range(1, len(self.int2obj)):
-            e = self.int2obj[i]
-            assert i == self.obj2int[e]
+        with _lock:
+            for e, i in self.obj2int.items():
+                assert e == self.int2obj[i]
+            for i in range(1, len(self.int2obj)):
+                e = self.int2obj[i]
+                assert i == self.obj2int[e]
 
     def universe(self):
         return self.int2obj[1:]
@@ -80,8 +86,8 @@ class ObjectTable:
             raise RuntimeError(m)
         i = len(self.int2obj)
         _graphillion.setset([set([i])])
-        self.obj2int[elem] = i
         self.int2obj.append(elem)
+        self.obj2int[elem] = i
         assert self.int2obj[i] == elem
         assert self.obj2int[elem] == i
 
@@ -100,7 +106,9 @@ class ObjectTable:
 
     def conv_elem(self, elem):
         if elem not in self.obj2int:
-            self.add_elem(elem)
+            with _lock:
+                if elem not in self.obj2int:
+                    self.add_elem(elem)
         return self.obj2int[elem]
 
     def conv_arg(self, obj):
-- 
2.43.0


From db41a16874dc12f70affaa98fd777e6e986f8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 62/64] fix: plain edge lists must be accepted when converters
 are set

---
 graphillion/digraphset.py | 4 +++-
 graphillion/graphset.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index cc6e437..c91820d 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -128,7 +128,9 @@ class DiGraphSet(object):
             elif isinstance(obj, (set, frozenset, list)):
                 l = []
                 for g in obj:
-                    edges = DiGraphSet.converters['to_edges'](g)
+                    edges = g
+                    if not isinstance(g, (set, frozenset, list)):
+                        edges = DiGraphSet.converters['to_edges'](g)
                     l.append(set([DiGraphSet._conv_edge(e) for e in edges]))
                 obj = l
             elif isinstance(obj, dict):  # constraints
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 941a944..265e805 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -124,7 +124,9 @@ class GraphSet(object):
             elif isinstance(obj, (set, frozenset, list)):  # a list of graphs [graph+]
                 l = []
                 for g in obj:
-                    edges = GraphSet.converters['to_edges'](g)
+                    edges = g
+                    if not isinstance(g, (set, frozenset, list)):
+                        edges = GraphSet.converters['to_edges'](g)
                     l.append(set([GraphSet._conv_edge(e) for e in edges]))
                 obj = l
             elif isinstance(obj, dict):  # constraints
-- 
2.43.0


From b9bd52097903c531aec4b339cc1020d7ad3f27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 63/64] fix: edge attributes of the universe must work as
 weights

---
 graphillion/setset_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/setset_base.py b/graphillion/setset_base.py
index 1608690..87be2b9 100644
--- a/graphillion/setset_base.py
+++ b/graphillion/setset_base.py
@@ -143,6 +143,8 @@ class setset_base(_graphillion.setset):
             for e, w in weights.items():
                 if e in universe:
                     i = objtable.obj2int[e]
+                    if isinstance(w, dict):  # edge attributes, e.g., of NetworkX
+                        w = w.get('weight', default)
                     ws[i] = w
         i = generator(self, ws)
         while (True):
-- 
2.43.0


From fdf2f1811c820a21ab883e2f410a5d996b9c1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 64/64] fix: odd holes must be found when converters are set

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..4de130a 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -191,7 +191,7 @@ class GraphClass:
         Notes:
             See https://www.graphclasses.org/smallgraphs.html#odd_holes for more information.
         """
-        univ = GraphSet.universe()
+        univ = Universe.e_objtable.universe()
         vertices = set()
         for e in univ:
             vertices.add(e[0])
-- 
2.43.0

