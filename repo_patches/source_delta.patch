From a3df4bd2b04920f9d53a0da09161fb66a19aa0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:59 +0000
Subject: [PATCH 01/48] fix: keep vertex bitsets valid when the search space is
 grown

Growing edge_bits moves it, so the per-vertex bitsets pointed at freed
memory on small graphs. On graphs without edges the available space was
computed as a wrapped-around difference, so it was never grown at all and
the search wrote past the end of the buffer.
---
 src/cliquematch/detail/graph/graph.cpp     | 8 ++++++--
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index 43a2506..f5b550d 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -113,7 +113,7 @@ namespace detail
 
         const u64 size_per_step =
             (max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -132,9 +132,13 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
+                      << (1.0 * spread) / (max_space) << std::endl;
             edge_bits.resize(eb_size + max_space + 1);
             search_end = edge_bits.size();
+            // edge_bits may have moved, so the bitsets have to refer to it again
+            for (cur = 0; cur < size; cur++)
+                vertices[cur].bits.refer_from(&edge_bits[vertices[cur].ebo],
+                                              vertices[cur].N);
         }
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 9782456..557215b 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -114,7 +114,7 @@ namespace detail
 
         const u64 size_per_step =
             (max_neighbors % BITS_PER_U64 != 0) + max_neighbors / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (max_depth + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -133,9 +133,13 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
+                      << (1.0 * spread) / (max_space) << std::endl;
             edge_bits.resize(eb_size + max_space + 1);
             search_end = edge_bits.size();
+            // edge_bits may have moved, so the bitsets have to refer to it again
+            for (cur = 0; cur < size; cur++)
+                vertices[cur].bits.refer_from(&edge_bits[vertices[cur].ebo],
+                                              vertices[cur].N);
         }
     }
 
-- 
2.43.0


From 2418b0d9f9b7951fb675e4d1845bb9996eeff51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:59 +0000
Subject: [PATCH 02/48] fix: never report the sentinel vertex as a clique

In a graph without edges every vertex has the same bound, so the sentinel
was picked as the initial clique location and get_max_clique returned [0].
---
 src/cliquematch/detail/graph/graph.cpp     | 5 ++++-
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index f5b550d..f4288ff 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -82,9 +82,12 @@ namespace detail
         u64 cur, j, vert, mcs, size = vertices.size();
         CLIQUE_LIMIT = 0;
 
+        // vertex 0 is the sentinel, it must never be the root of a search
+        vertices[0].mcs = 0;
+
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             for (j = 0; j < this->vertices[cur].spos; j++)
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 557215b..b18516c 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -79,9 +79,12 @@ namespace detail
         max_depth = 0;
         CLIQUE_LIMIT = 0;
 
+        // vertex 0 is the sentinel, it must never be the root of a search
+        vertices[0].mcs = 0;
+
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             depth = 0;
-- 
2.43.0


From 2f7a2616a531621a6ee2dddd63ab8d766c75ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:39 +0000
Subject: [PATCH 03/48] fix: enumerate cliques that are rooted at the first
 vertex

The enumerators advanced past vertex 1 before searching, so a triangle had
no cliques of size 3.
---
 src/cliquematch/detail/graph/dfs.h        | 4 +++-
 src/cliquematch/detail/nwgraph/nwclique.h | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index 03b7337..d96f5ca 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -68,7 +68,9 @@ namespace detail
         u64 process_graph(graph&);
         void process_vertex(graph&);
         bool load_vertex(graph&);
-        CliqueEnumerator(u64 size) : cur(1), REQUIRED_SIZE(size){};
+        // process_vertex moves to the next vertex before searching, so start at 0
+        // (the dummy case for single vertices does not call process_vertex)
+        CliqueEnumerator(u64 size) : cur(size == 1 ? 1 : 0), REQUIRED_SIZE(size){};
         CliqueEnumerator() = delete;
         ~CliqueEnumerator() = default;
     };
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 65da05a..976d312 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -82,7 +82,8 @@ namespace detail
         u64 process_graph(nwgraph&);
         void process_vertex(nwgraph&);
         bool load_vertex(nwgraph&);
-        NWCliqueEnumerator(double weight) : cur(1), REQUIRED_WEIGHT(weight){};
+        // process_vertex moves to the next vertex before searching, so start at 0
+        NWCliqueEnumerator(double weight) : cur(0), REQUIRED_WEIGHT(weight){};
         NWCliqueEnumerator() = delete;
         ~NWCliqueEnumerator() = default;
     };
-- 
2.43.0


From d6de51a02213578c8025fdbb8849768864c302eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:59 +0000
Subject: [PATCH 04/48] fix: give every clique iterator its own search memory

The iterators borrowed the search memory of the graph while they were
paused. An abandoned iterator never gave it back, so the next searches ran
past the end of the buffer. Two live iterators, or a search during an
iteration, overwrote the candidate sets of each other.
---
 src/cliquematch/detail/graph/dfs.h            |  2 +
 src/cliquematch/detail/graph/enumerate.cpp    | 19 +++++---
 .../detail/nwgraph/nw_enumerate.cpp           | 18 +++++---
 src/cliquematch/detail/nwgraph/nwclique.h     |  2 +
 src/cliquematch/detail/searchmemory.h         | 45 +++++++++++++++++++
 5 files changed, 72 insertions(+), 14 deletions(-)
 create mode 100644 src/cliquematch/detail/searchmemory.h

diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index d96f5ca..9f15044 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -19,6 +19,7 @@
 
 #include <detail/graph/clique.h>
 #include <detail/graph/searchstate.h>
+#include <detail/searchmemory.h>
 
 namespace cliquematch
 {
@@ -58,6 +59,7 @@ namespace detail
     class CliqueEnumerator : public CliqueOperator
     {
        private:
+        SearchMemory memory;
         std::vector<SearchState> states;
         std::vector<u64> to_remove;
         u64 candidates_left, clique_size, clique_potential;
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index 0e2f289..789503e 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -19,6 +19,7 @@
  * (the sub-cliques of S).
  */
 #include <detail/graph/dfs.h>
+#include <algorithm>
 
 namespace cliquematch
 {
@@ -42,8 +43,8 @@ namespace detail
             (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;
 
         // "memory" allocations for cand, res at root of subtree
-        SearchState x(G.vertices[cur], G.load_memory(request_size),
-                      G.load_memory(request_size));
+        SearchState x(G.vertices[cur], memory.load(request_size),
+                      memory.load(request_size));
         this->clique_potential = 1;
 
         // only search thru neighbors with greater degrees
@@ -72,7 +73,7 @@ namespace detail
 
         if (this->clique_potential < this->REQUIRED_SIZE)
         {
-            G.clear_memory(2 * request_size);  // release x.cand, x.res
+            memory.clear(2 * request_size);  // release x.cand, x.res
             return false;
         }
 
@@ -103,12 +104,16 @@ namespace detail
         this->states.reserve(G.CLIQUE_LIMIT);
         this->to_remove.reserve(G.CLIQUE_LIMIT);
 
+        // one bitset for the clique, and one for the candidates at each step
+        this->memory.allocate((std::min(this->REQUIRED_SIZE, G.max_degree) + 1) *
+                              (1 + G.max_degree / BITS_PER_U64));
+
         while (cur < G.n_vert)  // go through all vertices of the graph
         {
             if (states.empty())
             {
                 // when constructed, request_size = 0, so nothing happens
-                G.clear_memory(request_size);
+                memory.clear(request_size);
                 // later, this releases memory of x.res i.e. the space for
                 // the clique allocated at the base of the stack
                 this->process_vertex(G);
@@ -185,7 +190,7 @@ namespace detail
                         // no need to allocate memory for res, refer_from passes the
                         // reference of the cur_state.res much like res is passed in
                         // RecursionDFS
-                        future_state.refer_from(G.load_memory(request_size),
+                        future_state.refer_from(memory.load(request_size),
                                                 cur_state.cand, cur_state.res);
 
                         // remove invalid members from the candidate set
@@ -213,7 +218,7 @@ namespace detail
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
                 states.pop_back();
-                G.clear_memory(request_size);
+                memory.clear(request_size);
 
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
@@ -224,7 +229,7 @@ namespace detail
 
         // now cur = G.n_vert, there are no more cliques to be found
         // the search stack is empty, and
-        // all the necessary G.clear_memory() calls have been made
+        // all the necessary memory.clear() calls have been made
         return cur;
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index 9795e94..e523dbb 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -25,8 +25,8 @@ namespace detail
             (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;
 
         // "memory" allocations for cand, res at root of subtree
-        NWSearchState x(G.vertices[cur], G.load_memory(request_size),
-                        G.load_memory(request_size));
+        NWSearchState x(G.vertices[cur], memory.load(request_size),
+                        memory.load(request_size));
         this->clique_potential = 0;
 
         // only search thru neighbors with greater degrees
@@ -57,7 +57,7 @@ namespace detail
 
         if (this->clique_potential + G.vertices[cur].weight < this->REQUIRED_WEIGHT)
         {
-            G.clear_memory(2 * request_size);  // release x.cand, x.res
+            memory.clear(2 * request_size);  // release x.cand, x.res
             return false;
         }
 
@@ -79,12 +79,16 @@ namespace detail
         this->to_remove.reserve(G.max_depth);
         this->weights.reserve(G.max_neighbors);
 
+        // one bitset for the clique, and one for the candidates at each step
+        this->memory.allocate((G.max_depth + 2) *
+                              (1 + G.max_neighbors / BITS_PER_U64));
+
         while (cur < G.n_vert)  // go through all vertices of the graph
         {
             if (states.empty())
             {
                 // when constructed, request_size = 0, so nothing happens
-                G.clear_memory(request_size);
+                memory.clear(request_size);
                 // later, this releases memory of x.res i.e. the space for
                 // the clique allocated at the base of the stack
                 this->process_vertex(G);
@@ -165,7 +169,7 @@ namespace detail
                         // no need to allocate memory for res, refer_from passes the
                         // reference of the cur_state.res much like res is passed in
                         // RecursionDFS
-                        future_state.refer_from(G.load_memory(request_size),
+                        future_state.refer_from(memory.load(request_size),
                                                 cur_state.cand, cur_state.res);
 
                         // clique_size has increased due to vert
@@ -194,7 +198,7 @@ namespace detail
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
                 states.pop_back();
-                G.clear_memory(request_size);
+                memory.clear(request_size);
 
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
@@ -205,7 +209,7 @@ namespace detail
 
         // now cur = G.n_vert, there are no more cliques to be found
         // the search stack is empty, and
-        // all the necessary G.clear_memory() calls have been made
+        // all the necessary memory.clear() calls have been made
         return cur;
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 976d312..3a8cf32 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -2,6 +2,7 @@
 #define NWCLIQUE_H
 
 #include <detail/nwgraph/nwgraph.h>
+#include <detail/searchmemory.h>
 
 namespace cliquematch
 {
@@ -69,6 +70,7 @@ namespace detail
     class NWCliqueEnumerator : public NWCliqueOperator
     {
        private:
+        SearchMemory memory;
         std::vector<NWSearchState> states;
         std::vector<u64> to_remove;
         std::vector<double> weights;
diff --git a/src/cliquematch/detail/searchmemory.h b/src/cliquematch/detail/searchmemory.h
new file mode 100644
index 0000000..170a99e
--- /dev/null
+++ b/src/cliquematch/detail/searchmemory.h
@@ -0,0 +1,45 @@
+#ifndef SEARCHMEMORY_H
+#define SEARCHMEMORY_H
+
+/* searchmemory.h
+ *
+ * A block of memory for the bitsets of a search that can be paused, used like a
+ * stack: every load must have a matching clear. A paused search cannot share
+ * the memory available in the graph, because other searches may start (or the
+ * paused search may be abandoned) before it is resumed.
+ */
+#include <vector>
+#include <detail/utils.h>
+
+namespace cliquematch
+{
+namespace detail
+{
+    class SearchMemory
+    {
+       private:
+        std::vector<u64> data;
+        u64 used;
+
+       public:
+        SearchMemory() : used(0){};
+        // has to be called before the first load, later calls have no effect
+        void allocate(const u64 N)
+        {
+            if (data.empty()) data.resize(N);
+        }
+        u64* load(const u64 N)
+        {
+            u64* loc = data.data() + used;
+            used += N;
+            return loc;
+        }
+        void clear(const u64 N)
+        {
+            used -= N;
+            for (u64 i = 0; i < N; i++) data[used + i] = 0;
+        }
+    };
+}  // namespace detail
+}  // namespace cliquematch
+#endif /* SEARCHMEMORY_H */
-- 
2.43.0


From 69134ad694336b8bc3676a3d1e8994cd9c3d1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:36 +0000
Subject: [PATCH 05/48] fix: keep the maximum clique when other cliques are
 enumerated

Enumeration stores each clique at the vertex it was found from, which may
be the vertex that holds the maximum clique. The next get_max_clique call
then returned the last enumerated clique instead.
---
 src/cliquematch/detail/graph/clique.cpp     | 6 +++++-
 src/cliquematch/detail/graph/graph.cpp      | 1 +
 src/cliquematch/detail/graph/graph.h        | 1 +
 src/cliquematch/detail/nwgraph/nwclique.cpp | 6 +++++-
 src/cliquematch/detail/nwgraph/nwgraph.cpp  | 1 +
 src/cliquematch/detail/nwgraph/nwgraph.h    | 1 +
 6 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/clique.cpp b/src/cliquematch/detail/graph/clique.cpp
index 88c2826..f31578d 100644
--- a/src/cliquematch/detail/graph/clique.cpp
+++ b/src/cliquematch/detail/graph/clique.cpp
@@ -16,6 +16,7 @@ namespace detail
                                    double time_limit)
     {
         DegreeHeuristic heur;
+        const u64 prev_size = this->CUR_MAX_CLIQUE_SIZE;
 
         this->start_time = std::chrono::steady_clock::now();
         if (use_heur) heur.process_graph((*this));
@@ -30,12 +31,15 @@ namespace detail
             this->start_time = std::chrono::steady_clock::now();
             if (use_dfs) start_vert = dfs.process_graph((*this));
         }
+        // the bitset at a vertex is overwritten when enumerating cliques
+        if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
+            this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
         return this->elapsed_time();
     }
 
     std::vector<u64> graph::get_max_clique() const
     {
-        return this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
+        return this->max_clique;
     }
     std::vector<u64> graph::get_max_clique(u64 i) const
     {
diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index f4288ff..03a3106 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -71,6 +71,7 @@ namespace detail
         search_end = edge_bits.size();
 
         this->set_bounds();
+        this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
     }
 
     /* call set_spos() for each vertex of the graph, collect rudimentary
diff --git a/src/cliquematch/detail/graph/graph.h b/src/cliquematch/detail/graph/graph.h
index 6783b32..70095fa 100644
--- a/src/cliquematch/detail/graph/graph.h
+++ b/src/cliquematch/detail/graph/graph.h
@@ -48,6 +48,7 @@ namespace detail
         std::vector<u64> edge_list;    // store raw list of edges
         std::vector<u64> edge_bits;    // store all clique bitsets (padded)
         std::vector<vertex> vertices;  // store all contextual vertex info
+        std::vector<u64> max_clique;   // store the overall max clique
         u64 el_size;                   // edge_list.size(), computed separately
         u64 eb_size;                   // amount of memory used for bitsets
 
diff --git a/src/cliquematch/detail/nwgraph/nwclique.cpp b/src/cliquematch/detail/nwgraph/nwclique.cpp
index 4ca36d0..9c7564c 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.cpp
+++ b/src/cliquematch/detail/nwgraph/nwclique.cpp
@@ -9,14 +9,18 @@ namespace detail
     {
         NWHeuristic heur;
         NWStackDFS dfs;
+        const double prev_size = this->CUR_MAX_CLIQUE_SIZE;
 
         if (use_heur) heur.process_graph((*this));
         if (use_dfs) start_vert = dfs.process_graph((*this));
+        // the bitset at a vertex is overwritten when enumerating cliques
+        if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
+            this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
     }
 
     std::vector<u64> nwgraph::get_max_clique() const
     {
-        return this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
+        return this->max_clique;
     }
     std::vector<u64> nwgraph::get_max_clique(u64 i) const
     {
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index b18516c..bc99d11 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -65,6 +65,7 @@ namespace detail
         search_end = edge_bits.size();
 
         this->set_bounds();
+        this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
     }
 
     /* call set_spos() for each vertex of the nwgraph, collect rudimentary
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.h b/src/cliquematch/detail/nwgraph/nwgraph.h
index 7ff10e8..c98bd8a 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.h
+++ b/src/cliquematch/detail/nwgraph/nwgraph.h
@@ -16,6 +16,7 @@ namespace detail
         std::vector<u64> edge_list;     // store raw list of edges
         std::vector<u64> edge_bits;     // store all clique bitsets (padded)
         std::vector<wvertex> vertices;  // store all contextual vertex info
+        std::vector<u64> max_clique;    // store the overall max clique
         u64 el_size;                    // edge_list.size(), computed separately
         u64 eb_size;                    // amount of memory used for bitsets
 
-- 
2.43.0


From ad542041e1add0212d6271196edbd9c50c3625f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:36 +0000
Subject: [PATCH 06/48] fix: do not carry an upper bound over to later searches

An upper_bound stayed in force for every later call, even after
reset_search. The vertex where the search stopped kept the size found so
far as its bound, so later searches and enumerations skipped larger
cliques there.
---
 src/cliquematch/core/pygraph.cpp           | 2 +-
 src/cliquematch/core/pynwgraph.cpp         | 2 +-
 src/cliquematch/detail/graph/dfs_stack.cpp | 3 +++
 src/cliquematch/detail/nwgraph/nw_dfs.cpp  | 3 +++
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 95a9dd2..a68257a 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -56,7 +56,7 @@ namespace core
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
         this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+            upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
         finished_all = (current_vertex >= nvert);
         auto ans = this->G->get_max_clique();
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 4da54a6..27a7cac 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -50,7 +50,7 @@ namespace core
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
         this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+            upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs);
         finished_all = (current_vertex >= nvert);
 
diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index 2c8017b..c38c7c9 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -47,6 +47,7 @@ namespace detail
         SearchState x(G.vertices[cur], G.load_memory(request_size),
                       G.load_memory(request_size));
         this->clique_potential = 1;
+        const u64 prev_mcs = G.vertices[cur].mcs;
 
         // only search thru neighbors with greater degrees
         // (this amortizes the search cost because
@@ -198,6 +199,8 @@ namespace detail
             // release memory of all candidates on the stack
             G.clear_memory(request_size * states.size());
             states.clear();
+            // there may be a larger clique in the part that was not searched
+            G.vertices[cur].mcs = prev_mcs;
         }
 
         G.clear_memory(request_size);
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 55758a0..9794d88 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -31,6 +31,7 @@ namespace detail
         NWSearchState x(G.vertices[cur], G.load_memory(request_size),
                         G.load_memory(request_size));
         this->clique_potential = 0;
+        const double prev_mcs = G.vertices[cur].mcs;
 
         this->weights.clear();
         // only search thru neighbors with greater degrees
@@ -185,6 +186,8 @@ namespace detail
             // release memory of all candidates on the stack
             G.clear_memory(request_size * states.size());
             states.clear();
+            // there may be a larger clique in the part that was not searched
+            G.vertices[cur].mcs = prev_mcs;
         }
 
         G.clear_memory(request_size);
-- 
2.43.0


From 7f1082d26a7cc44adcc20301d9296ef607c160e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:36 +0000
Subject: [PATCH 07/48] fix: forget a lower bound that could not be met

After a call failed because of its lower_bound, the next call pruned with
the same bound and returned a single vertex as the maximum clique.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index a68257a..a954d3f 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -60,6 +60,8 @@ namespace core
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
         finished_all = (current_vertex >= nvert);
         auto ans = this->G->get_max_clique();
+        // a lower bound that could not be met must not limit the next search
+        this->G->CUR_MAX_CLIQUE_SIZE = ans.size();
         if (lower_bound > ans.size())
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
                            std::to_string(lower_bound) + ", " +
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 27a7cac..1f183d0 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -55,7 +55,9 @@ namespace core
         finished_all = (current_vertex >= nvert);
 
         auto ans = this->G->get_max_clique();
-        if (lower_bound > this->G->get_clique_weight(ans))
+        // a lower bound that could not be met must not limit the next search
+        this->G->CUR_MAX_CLIQUE_SIZE = this->G->get_clique_weight(ans);
+        if (lower_bound > this->G->CUR_MAX_CLIQUE_SIZE)
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
                            std::to_string(lower_bound) + ", " +
                            std::to_string(upper_bound) + "]\n");
-- 
2.43.0


From 0a612c17c27d30de98152a4f4c85b95e7b6b58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:36 +0000
Subject: [PATCH 08/48] fix: return a clique within the upper bound

The search stops once it has reached upper_bound, but the clique it stops
at can be larger than that.
---
 src/cliquematch/core/pygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index a954d3f..89923ef 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -62,6 +62,8 @@ namespace core
         auto ans = this->G->get_max_clique();
         // a lower bound that could not be met must not limit the next search
         this->G->CUR_MAX_CLIQUE_SIZE = ans.size();
+        // part of a clique is also a clique
+        if (ans.size() > upper_bound) ans.resize(upper_bound);
         if (lower_bound > ans.size())
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
                            std::to_string(lower_bound) + ", " +
-- 
2.43.0


From 11d9b656066ee93623196d956dc851cabb856cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 09/48] fix: resume a timed-out search at the vertex it stopped
 at

A search that ran out of time inside a vertex resumed at the next one, and
stopping at the last vertex counted as having finished. The loop over
continue_search could therefore end with search_done set and a clique that
is not the maximum.
---
 src/cliquematch/core/pygraph.cpp             |  2 +-
 src/cliquematch/core/pynwgraph.cpp           |  2 +-
 src/cliquematch/detail/graph/dfs.h           |  4 +++-
 src/cliquematch/detail/graph/dfs_recurse.cpp | 10 ++++++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 89923ef..e5033d2 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -58,7 +58,7 @@ namespace core
         this->G->CLIQUE_LIMIT =
             upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
-        finished_all = (current_vertex >= nvert);
+        finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
         // a lower bound that could not be met must not limit the next search
         this->G->CUR_MAX_CLIQUE_SIZE = ans.size();
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 1f183d0..a54715d 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -52,7 +52,7 @@ namespace core
         this->G->CLIQUE_LIMIT =
             upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs);
-        finished_all = (current_vertex >= nvert);
+        finished_all = (current_vertex > nvert);
 
         auto ans = this->G->get_max_clique();
         // a lower bound that could not be met must not limit the next search
diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index 9f15044..0dbcf22 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -47,12 +47,14 @@ namespace detail
        private:
         u64 start_vertex;
         double TIME_LIMIT;
+        bool out_of_time;  // was the last vertex left before it was fully searched?
 
        public:
         void process_vertex(graph&, u64);
         void search_vertex(graph&, u64, const graphBits&, graphBits&);
         u64 process_graph(graph&);
-        RecursionDFS(u64 v, double t) : start_vertex(v), TIME_LIMIT(t){};
+        RecursionDFS(u64 v, double t)
+            : start_vertex(v), TIME_LIMIT(t), out_of_time(false){};
         ~RecursionDFS() = default;
     };
 
diff --git a/src/cliquematch/detail/graph/dfs_recurse.cpp b/src/cliquematch/detail/graph/dfs_recurse.cpp
index cf9d679..f730f94 100644
--- a/src/cliquematch/detail/graph/dfs_recurse.cpp
+++ b/src/cliquematch/detail/graph/dfs_recurse.cpp
@@ -29,6 +29,8 @@ namespace detail
                 continue;
             if (G.elapsed_time() > this->TIME_LIMIT) break;
             process_vertex(G, i);
+            // if there was no time to finish this vertex, it has to be searched again
+            if (this->out_of_time) break;
         }
         // If paused midway due to time limits, I want to know where we stopped
         return i;
@@ -44,6 +46,8 @@ namespace detail
         graphBits cand(G.load_memory(request_size), G.vertices[cur].N, false);
         res.set(G.vertices[cur].spos);
         u64 j, vert, clique_potential = 1;
+        const u64 prev_mcs = G.vertices[cur].mcs;
+        this->out_of_time = false;
 
         // only search thru neighbors with greater degrees
         // (this amortizes the search cost because
@@ -70,6 +74,9 @@ namespace detail
         }
 
         if (clique_potential > G.CUR_MAX_CLIQUE_SIZE) search_vertex(G, cur, cand, res);
+        // there may be a larger clique in the part that was not searched
+        if (this->out_of_time || G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)
+            G.vertices[cur].mcs = prev_mcs;
         // search complete
         G.clear_memory(2 * request_size);  // releasing memory of cand, res
     }
@@ -82,7 +89,10 @@ namespace detail
         u64 clique_potential = candidates_left + res.count();
 
         if (G.elapsed_time() > this->TIME_LIMIT)
+        {
+            this->out_of_time = true;
             return;  // out of time, stop searching the graph immediately
+        }
         if (G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)
             return;  // reached required upper bound, no need to search
         if (clique_potential <= G.CUR_MAX_CLIQUE_SIZE)
-- 
2.43.0


From e175351ecc0cd7eaaf5ea61d05362a734e42e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 10/48] fix: show the right value of search_done when printing
 a Graph

---
 src/cliquematch/core/pygraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index e5033d2..271842c 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -109,7 +109,7 @@ namespace core
         ss << "cliquematch.core.Graph object at " << this << "(";
         ss << "n_vertices=" << this->nvert << ",";
         ss << "n_edges=" << this->nedges << ",";
-        ss << "search_done=" << (this->current_vertex < this->nvert ? "True" : "False");
+        ss << "search_done=" << (this->finished_all ? "True" : "False");
         ss << ")";
         return ss.str();
     }
-- 
2.43.0


From 07591dabec51bc64e03d037db59ccfa7083a45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 11/48] fix: raise RuntimeError when an empty graph is reset or
 queried

reset_search and the neighbor lookup dereferenced a null pointer if the
graph had not been loaded yet.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 271842c..7fbf256 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -37,6 +37,7 @@ namespace core
     // Computation
     void pygraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 1;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -309,6 +310,7 @@ namespace core
 
     std::set<u64> pygraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index a54715d..8ccba06 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -36,6 +36,7 @@ namespace core
     // Computation
     void pynwgraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 0;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -291,6 +292,7 @@ namespace core
 
     std::pair<double, std::set<u64>> pynwgraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
-- 
2.43.0


From 2553968323d846c4de90200d5058badc917cfb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 12/48] fix: count only the edges that are in the graph

Repeated edges, loops and one-sided matrix entries made n_edges differ
from the number of edges loaded. to_edgelist then returned uninitialized
rows or wrote past the end of its array, and to_file wrote a wrong header.
---
 src/cliquematch/core/pygraph.cpp   | 3 +++
 src/cliquematch/core/pynwgraph.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 7fbf256..93ee9d4 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -27,6 +27,9 @@ namespace core
         this->nedges = n_edges;
         this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
                                                   std::move(edges));
+        // repeated edges and loops were removed while loading
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pygraph::check_loaded() const
     {
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 8ccba06..5772392 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -26,6 +26,9 @@ namespace core
         this->nedges = n_edges;
         this->G = std::make_shared<detail::nwgraph>(
             this->nvert, this->nedges, std::move(edges), std::move(weights));
+        // repeated edges and loops were removed while loading
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pynwgraph::check_loaded() const
     {
-- 
2.43.0


From f351739053c2783debc7581a2cb9fee0e7828f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 13/48] fix: ignore edges of vertex 0 and unreadable lines in
 graph files

An edge to vertex 0 was attached to the sentinel, which could then be part
of a clique. A file without a readable header or with missing lines was
loaded from uninitialized values.
---
 src/cliquematch/detail/mmio.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 3e254e4..0a4d524 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -26,13 +26,13 @@ namespace detail
         while (f.peek() == '%' || f.peek() == '#') f.ignore(2048, '\n');
 
         u64 n_loops = 0, n_invalids = 0, dummy, i, j;
-        u64 v1, v2;
+        u64 v1 = 0, v2 = 0;
 
         // the file then has the number of vertices twice
         // followed by the number of edges
-        f >> n_vert;
-        f >> dummy;
-        f >> n_edges;
+        if (!(f >> n_vert >> dummy >> n_edges))
+            throw runtime_error("Unable to read the size of the graph!\n" +
+                                string(__FILE__) + "  " + to_string(__LINE__) + "\n");
 
         pair<vector<u64>, vector<u64>> Edges;
         // each edge is going to stored twice
@@ -48,14 +48,13 @@ namespace detail
             Edges.first[j] = j;
             Edges.second[j] = j;
         }
-        for (i = 0, j = n_vert + 1; i < n_edges && !f.eof(); i++, j += 2)
+        for (i = 0, j = n_vert + 1; i < n_edges && f >> v1 >> v2; i++, j += 2)
         {
-            f >> v1 >> v2;
             // there might be some additional data, like edge weights
             f.ignore(2048, '\n');
 
             // ignore any invalid edges or loops
-            if (v1 > n_vert || v2 > n_vert || v1 == v2)
+            if (v1 > n_vert || v2 > n_vert || v1 == 0 || v2 == 0 || v1 == v2)
             {
                 (v1 != v2) ? n_invalids++ : n_loops++;
                 Edges.first[j] = 0;
-- 
2.43.0


From 131a91081a84e6d8203731829e21bbbae09678f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 14/48] fix: assign weights to the right vertices in
 NWGraph.from_adjlist

The weights were used without an entry for the sentinel, so every vertex
had the weight of the next one and the last one was read out of bounds.
---
 src/cliquematch/core/pynwgraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 5772392..ed74a6a 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -236,6 +236,7 @@ namespace core
             }
         }
         if (e / 2 != n_edges) throw CM_ERROR("Number of edges don't match!\n");
+        weights.insert(weights.begin(), 0);  // weight of the sentinel
         pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(weights));
         return pg;
     }
-- 
2.43.0


From 39444e11483feb4b2361242f5e02552ebfd58e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 15/48] fix: consider single vertices in the weighted clique
 search

An isolated vertex that outweighs every other clique was never recorded as
the maximum.
---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 9794d88..c836287 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -66,6 +66,14 @@ namespace detail
             return;
         }
 
+        // no candidates => the vertex by itself beats the existing maximum
+        if (x.cand.count() == 0)
+        {
+            G.vertices[cur].bits.copy_data(x.res);
+            G.CUR_MAX_CLIQUE_SIZE = G.vertices[cur].weight;
+            G.CUR_MAX_CLIQUE_LOCATION = cur;
+        }
+
         x.potential = this->clique_potential;
 
         // always use std::move when pushing on to stack
-- 
2.43.0


From 42105d6ed912db9e557e3bbdaa87b11346fd269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 16/48] fix: use the weights of the candidates in the weighted
 heuristic

The potential of a clique was summed from the wrong neighbors, so the
heuristic could replace the maximum by a lighter clique. It also skipped
vertices by comparing a number of candidates to a weight.
---
 src/cliquematch/detail/nwgraph/nw_heuristic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
index 6e2a313..dff33c9 100644
--- a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
@@ -51,10 +51,10 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree <= G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
         for (i = G.vertices[cur].spos + 1; i < G.vertices[cur].N; i++)
         {
@@ -62,12 +62,12 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree < G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
-        if (candidates_left <= G.CUR_MAX_CLIQUE_SIZE) return;
+        if (cand_potential + cur_clique_weight <= G.CUR_MAX_CLIQUE_SIZE) return;
         std::sort(neighbors.begin(), neighbors.begin() + candidates_left,
                   std::greater<vdata>());
 
-- 
2.43.0


From 1e453cc8af1a09b0d3092defbaea8d084ec48187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 17/48] fix: size the weights vector before writing to it

The elements were written beyond the size of the vector.
---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp       | 3 +--
 src/cliquematch/detail/nwgraph/nw_enumerate.cpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index c836287..07a5fe0 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -9,7 +9,7 @@ namespace detail
         // the upper bound on clique size is the maximum depth on the stack
         this->states.reserve(G.max_depth);
         this->to_remove.reserve(G.max_depth);
-        this->weights.reserve(G.max_neighbors);
+        this->weights.resize(G.max_neighbors);
         this->process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION);
         for (i = 0; i < G.n_vert; i++)
         {
@@ -33,7 +33,6 @@ namespace detail
         this->clique_potential = 0;
         const double prev_mcs = G.vertices[cur].mcs;
 
-        this->weights.clear();
         // only search thru neighbors with greater degrees
         // (this amortizes the search cost because
         // vertices with really low degree have fewer neighbors
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index e523dbb..6be6cd7 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -77,7 +77,7 @@ namespace detail
         // set maximum depth on the stack
         this->states.reserve(G.max_depth);
         this->to_remove.reserve(G.max_depth);
-        this->weights.reserve(G.max_neighbors);
+        this->weights.resize(G.max_neighbors);
 
         // one bitset for the clique, and one for the candidates at each step
         this->memory.allocate((G.max_depth + 2) *
-- 
2.43.0


From 29dd27159450211127cc216b96ab46cc7f8eebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 18/48] fix: do not shift by 64 bits when a bitset ends at a
 word boundary

The result of such a shift is undefined.
---
 src/cliquematch/detail/gbits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/gbits.h b/src/cliquematch/detail/gbits.h
index 2f091c0..2fd39b4 100644
--- a/src/cliquematch/detail/gbits.h
+++ b/src/cliquematch/detail/gbits.h
@@ -95,7 +95,7 @@ namespace detail
             this->data = ext_data;  // CALLER gives me the data,
             // they should have initialized it and checked bounds
             this->valid_len = n_bits;
-            this->pad_cover = ALL_ONES << (64 - (n_bits & 0x3fu));
+            this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);
             if (cleanout) this->clear();
         }
         void clear(const u64 N = 0)
-- 
2.43.0


From bcc060b52d83d5fb740a7f21cd5252783ed4ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:13 +0000
Subject: [PATCH 19/48] fix: read graph files with long lines or a wrong edge
 count

Only 2048 characters of a comment or of the data after an edge were
skipped, and the rest was read as numbers. The arrays were sized from the
edge count in the header, which overflows for a negative count.
---
 src/cliquematch/detail/mmio.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 0a4d524..b1993da 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -1,6 +1,7 @@
 #include <detail/mmio.h>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <stdexcept>
 
@@ -23,7 +24,8 @@ namespace detail
         // a number of lines starting with % or #
         // describing the origin of the graph, who made it,
         // and some properties
-        while (f.peek() == '%' || f.peek() == '#') f.ignore(2048, '\n');
+        while (f.peek() == '%' || f.peek() == '#')
+            f.ignore(numeric_limits<streamsize>::max(), '\n');
 
         u64 n_loops = 0, n_invalids = 0, dummy, i, j;
         u64 v1 = 0, v2 = 0;
@@ -38,8 +40,8 @@ namespace detail
         // each edge is going to stored twice
         // plus dummy loop edges for easier cliques
         // plus a sentinel vertex to show errors
-        Edges.first.resize(2 * n_edges + n_vert + 1);
-        Edges.second.resize(2 * n_edges + n_vert + 1);
+        Edges.first.resize(n_vert + 1);
+        Edges.second.resize(n_vert + 1);
 
         // fill the loop edges first.  A better way might be to fill these at
         // the end, and filling only those vertices which have neighbors.
@@ -48,26 +50,22 @@ namespace detail
             Edges.first[j] = j;
             Edges.second[j] = j;
         }
-        for (i = 0, j = n_vert + 1; i < n_edges && f >> v1 >> v2; i++, j += 2)
+        for (i = 0; i < n_edges && f >> v1 >> v2; i++)
         {
             // there might be some additional data, like edge weights
-            f.ignore(2048, '\n');
+            f.ignore(numeric_limits<streamsize>::max(), '\n');
 
             // ignore any invalid edges or loops
             if (v1 > n_vert || v2 > n_vert || v1 == 0 || v2 == 0 || v1 == v2)
             {
                 (v1 != v2) ? n_invalids++ : n_loops++;
-                Edges.first[j] = 0;
-                Edges.second[j] = 0;
-                Edges.first[j + 1] = 0;
-                Edges.second[j + 1] = 0;
             }
             else
             {
-                Edges.first[j] = v1;
-                Edges.second[j] = v2;
-                Edges.first[j + 1] = v2;
-                Edges.second[j + 1] = v1;
+                Edges.first.push_back(v1);
+                Edges.second.push_back(v2);
+                Edges.first.push_back(v2);
+                Edges.second.push_back(v1);
             }
         }
         f.close();
-- 
2.43.0


From 7980225ec1d77da61d2d73611d90e6be1480e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:48 +0000
Subject: [PATCH 20/48] fix: connect exactly the pairs whose distances differ
 by at most epsilon

The search for the range of distances stopped next to the bound instead of
at it. It let in pairs outside epsilon, dropped pairs with the same
distance as the bound, and read out of bounds if the second set had one
element.
---
 src/cliquematch/templates/ext_template.hpp | 30 +++++++++-------------
 src/cliquematch/templates/pair_dist.hpp    | 27 -------------------
 2 files changed, 12 insertions(+), 45 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 001b6f1..7e76fda 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -39,21 +39,18 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
-
-        short found1, found2;
+        u64 lb_loc = 0;
 
         for (i = 0; i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
-            cur_ub = cur_lb + 2 * epsilon;
+            cur_ub = s1.dists[i].dist + epsilon;
 
-            found1 = binary_find2(base, len2, cur_lb, lb_loc);
-            if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            // the distances in s2 that are within [cur_lb, cur_ub]
+            lb_loc = std::lower_bound(base, base + len2, cur_lb) - base;
+            if (lb_loc == len2) break;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(s2.dists[j] > cur_ub); j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
@@ -111,21 +108,18 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
-
-        short found1, found2;
+        u64 lb_loc = 0;
 
         for (i = 0; i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
-            cur_ub = cur_lb + 2 * epsilon;
+            cur_ub = s1.dists[i].dist + epsilon;
 
-            found1 = binary_find2(base, len2, cur_lb, lb_loc);
-            if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            // the distances in s2 that are within [cur_lb, cur_ub]
+            lb_loc = std::lower_bound(base, base + len2, cur_lb) - base;
+            if (lb_loc == len2) break;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(s2.dists[j] > cur_ub); j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
diff --git a/src/cliquematch/templates/pair_dist.hpp b/src/cliquematch/templates/pair_dist.hpp
index 2d5fa7c..743a6ee 100644
--- a/src/cliquematch/templates/pair_dist.hpp
+++ b/src/cliquematch/templates/pair_dist.hpp
@@ -27,33 +27,6 @@ namespace ext
         // void disp() const;
     };
 
-    template <class T>
-    short binary_find2(const pair_dist<T> *const a, const u64 N, const T &val, u64 &loc)
-    {
-        u64 beg = 0, end = N - 1, mid = beg + ((end - beg) >> 1);
-        if (a[end] < val)
-        {
-            loc = end;
-            return -1;
-        }
-        if (a[beg] > val)
-        {
-            loc = beg;
-            return 0;
-        }
-        while (beg <= end)
-        {
-            loc = mid;
-            if (a[mid] == val)
-                return 1;
-            else if (a[mid] < val)
-                beg = mid + 1;
-            else
-                end = mid - 1;
-            mid = beg + ((end - beg) >> 1);
-        }
-        return 0;
-    }
     /*
     template <class T>
     void pair_dist<T>::disp() const
-- 
2.43.0


From aa9177fdb9cfe131446a4652d997c8ffd1eb9752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:48 +0000
Subject: [PATCH 21/48] fix: check the condition function for both ways to
 match two pairs

With use_cfunc_only, the swapped mapping was added without calling the
condition function for it, and never added on its own.
---
 src/cliquematch/templates/ext_template.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 7e76fda..9ab13e2 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -205,9 +205,9 @@ namespace ext
             {
                 for (j1 = 0; j1 < pts2_len; ++j1)
                 {
-                    for (j2 = j1 + 1; j2 < pts2_len; ++j2)
+                    for (j2 = 0; j2 < pts2_len; ++j2)
                     {
-                        if (cfunc(pts1, i1, i2, pts2, j1, j2))
+                        if (j1 != j2 && cfunc(pts1, i1, i2, pts2, j1, j2))
                         {
                             v1 = i1 * pts2_len + j1 + 1;
                             v2 = i2 * pts2_len + j2 + 1;
@@ -215,16 +215,7 @@ namespace ext
                             edges.second.push_back(v2);
                             edges.first.push_back(v2);
                             edges.second.push_back(v1);
-
-                            // ouch
-                            v1 = i2 * pts2_len + j1 + 1;
-                            v2 = i1 * pts2_len + j2 + 1;
-                            edges.first.push_back(v1);
-                            edges.second.push_back(v2);
-                            edges.first.push_back(v2);
-                            edges.second.push_back(v1);
-
-                            no_of_edges += 2;
+                            no_of_edges++;
                         }
                     }
                 }
-- 
2.43.0


From e345c63057b19ab5df940ce9600dc6fcc44de8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:48 +0000
Subject: [PATCH 22/48] fix: enumerate and format subgraph isomorphisms

all_correspondences took the length of a Graph and always failed. The
edges of the matched subgraph of S2 were selected by the vertices of S1.
---
 src/cliquematch/wrappers/isograph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/wrappers/isograph.py b/src/cliquematch/wrappers/isograph.py
index fb48e95..6631103 100644
--- a/src/cliquematch/wrappers/isograph.py
+++ b/src/cliquematch/wrappers/isograph.py
@@ -23,8 +23,7 @@ class IsoGraph(Graph):
         _build_edges(self, self.S1, self.S2)
 
     def _format_correspondence(self, indices):
-        v1 = set(indices[0])
-        v2 = set(indices[0])
+        v2 = set(indices[1])
         G1 = dict()
         G2 = dict()
         mapping = dict()
@@ -112,11 +111,15 @@ class IsoGraph(Graph):
         offset = lambda l: [x + 1 for x in l]
         if return_indices:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(
+                    self, self.S1.n_vertices, self.S2.n_vertices, size
+                ),
                 lambda x: [offset(x[0]), offset(x[1])],
             )
         else:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(
+                    self, self.S1.n_vertices, self.S2.n_vertices, size
+                ),
                 lambda x: self._format_correspondence([offset(x[0]), offset(x[1])]),
             )
-- 
2.43.0


From cd1b5c7143b74a2b7f9e39dcecdd4a865d30d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:48 +0000
Subject: [PATCH 23/48] fix: start a new search when the edges are built again

search_done and the position of the last search were kept, so a search
loop on the rebuilt graph ended at once or skipped vertices.
---
 src/cliquematch/core/pygraph.cpp   | 3 +++
 src/cliquematch/core/pynwgraph.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 93ee9d4..a090252 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -30,6 +30,9 @@ namespace core
         // repeated edges and loops were removed while loading
         this->nedges = 0;
         this->G->send_data([this](u64, u64) { this->nedges++; });
+        // nothing has been searched yet
+        this->current_vertex = 0;
+        this->finished_all = false;
     }
     void pygraph::check_loaded() const
     {
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index ed74a6a..27b0374 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -29,6 +29,9 @@ namespace core
         // repeated edges and loops were removed while loading
         this->nedges = 0;
         this->G->send_data([this](u64, u64) { this->nedges++; });
+        // nothing has been searched yet
+        this->current_vertex = 0;
+        this->finished_all = false;
     }
     void pynwgraph::check_loaded() const
     {
-- 
2.43.0


From 49e6b1e1958bb9b429d7ab87fd87ae4bdfefe58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:51 +0000
Subject: [PATCH 24/48] fix: raise RuntimeError when no search method is
 selected

The user guide says that a search with both use_heuristic and use_dfs
unset raises an error, but it returned an arbitrary vertex.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index a090252..7619381 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -53,6 +53,8 @@ namespace core
                                              double time_limit, bool use_heuristic,
                                              bool use_dfs, bool continue_search)
     {
+        if (!use_heuristic && !use_dfs)
+            throw CM_ERROR("Either use_heuristic or use_dfs has to be set\n");
         if (!continue_search)
             current_vertex = 0;
         else if (current_vertex != 0)
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 27b0374..0146cc9 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -53,6 +53,8 @@ namespace core
     {
         current_vertex = 0;
         check_loaded();
+        if (!use_heuristic && !use_dfs)
+            throw CM_ERROR("Either use_heuristic or use_dfs has to be set\n");
         this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
-- 
2.43.0


From 4f5d98343b7618a72a554024b38402d2808ae062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 25/48] fix: use the right factor of the SVD to find the
 rotation

numpy.linalg.svd returns the second factor transposed already, so the
rotation was wrong unless that factor was symmetric.
---
 src/cliquematch/wrappers/aligngraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/wrappers/aligngraph.py b/src/cliquematch/wrappers/aligngraph.py
index ecbc003..ce86ce9 100644
--- a/src/cliquematch/wrappers/aligngraph.py
+++ b/src/cliquematch/wrappers/aligngraph.py
@@ -128,9 +128,9 @@ class AlignGraph(GenGraph):
 
         rotmat = np.eye(2, 2)
 
-        d = np.linalg.det(np.matmul(V, U.T))
+        d = np.linalg.det(np.matmul(V, U))
         rotmat[1, 1] = 1 if d > 0 else -1
-        rotmat = np.matmul(np.matmul(V, rotmat), U.T)
+        rotmat = np.matmul(np.matmul(V, rotmat), U)
 
         translation = -np.matmul(np.mean(ans[0], axis=0), rotmat) + np.mean(
             ans[1], axis=0
-- 
2.43.0


From f4f19887e5c639ee95f636c79fa3595f1d43e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 26/48] fix: report the right angle for half turns

Rounding can give a rotation matrix with an element just below -1. Its
arccos is NaN, which was reported as an angle of 0.
---
 src/cliquematch/wrappers/aligngraph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cliquematch/wrappers/aligngraph.py b/src/cliquematch/wrappers/aligngraph.py
index ce86ce9..ce315f0 100644
--- a/src/cliquematch/wrappers/aligngraph.py
+++ b/src/cliquematch/wrappers/aligngraph.py
@@ -136,9 +136,7 @@ class AlignGraph(GenGraph):
             ans[1], axis=0
         )
 
-        theta = np.arccos(rotmat[0, 0])
-        theta = -theta if rotmat[1, 0] < 0 else theta
-        theta = 0 if np.isnan(theta) else theta
+        theta = np.arctan2(rotmat[1, 0], rotmat[0, 0])
 
         return {
             "S1": ans[0],
-- 
2.43.0


From 9e1f75485935bcca16f239d90106e9fd8a65df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 27/48] fix: let an iterator finish on the graph it was created
 for

Building the edges again replaced the graph under a running iterator,
which then used the bitsets of the old graph.
---
 src/cliquematch/core/pyiterator.cpp | 24 ++++++++++++------------
 src/cliquematch/core/pyiterator.h   | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/cliquematch/core/pyiterator.cpp b/src/cliquematch/core/pyiterator.cpp
index 7b43a2a..5870aa9 100644
--- a/src/cliquematch/core/pyiterator.cpp
+++ b/src/cliquematch/core/pyiterator.cpp
@@ -10,9 +10,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.G->get_max_clique(v);
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
     }
@@ -22,9 +22,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return pg.get_correspondence2(len1, len2, G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
     }
@@ -34,9 +34,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.G->get_max_clique(v);
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
     }
@@ -47,9 +47,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return pg.get_correspondence2(len1, len2, G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
     }
diff --git a/src/cliquematch/core/pyiterator.h b/src/cliquematch/core/pyiterator.h
index 0fc61de..85f1fb4 100644
--- a/src/cliquematch/core/pyiterator.h
+++ b/src/cliquematch/core/pyiterator.h
@@ -14,14 +14,15 @@ namespace core
     {
        private:
         pygraph& pg;
+        std::shared_ptr<detail::graph> G;  // the edges of pg can be built again
         pybind11::object rf;
         std::shared_ptr<detail::CliqueEnumerator> en;
 
        public:
         CliqueIterator(pygraph& p, pybind11::object rf, u64 clique_size)
-            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size))
+            : pg(p), G(p.G), rf(rf), en(new detail::CliqueEnumerator(clique_size))
         {
-            if (pg.G.get() == nullptr || pg.nvert == 0)
+            if (G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
         };
         std::vector<u64> next_clique();
@@ -31,6 +32,7 @@ namespace core
     {
        private:
         pygraph& pg;
+        std::shared_ptr<detail::graph> G;  // the edges of pg can be built again
         pybind11::object rf;
         std::shared_ptr<detail::CliqueEnumerator> en;
         u64 len1, len2;
@@ -38,10 +40,10 @@ namespace core
        public:
         CorrespondenceIterator(pygraph& p, pybind11::object rf, u64 len1, u64 len2,
                                u64 clique_size)
-            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size)), len1(len1),
+            : pg(p), G(p.G), rf(rf), en(new detail::CliqueEnumerator(clique_size)), len1(len1),
               len2(len2)
         {
-            if (pg.G.get() == nullptr || pg.nvert == 0)
+            if (G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
         };
         std::pair<std::vector<u64>, std::vector<u64>> next_clique();
@@ -51,14 +53,15 @@ namespace core
     {
        private:
         pynwgraph& pg;
+        std::shared_ptr<detail::nwgraph> G;  // the edges of pg can be built again
         pybind11::object rf;
         std::shared_ptr<detail::NWCliqueEnumerator> en;
 
        public:
         NWCliqueIterator(pynwgraph& p, pybind11::object rf, double clique_size)
-            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size))
+            : pg(p), G(p.G), rf(rf), en(new detail::NWCliqueEnumerator(clique_size))
         {
-            if (pg.G.get() == nullptr || pg.nvert == 0)
+            if (G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
         };
         std::vector<u64> next_clique();
@@ -68,6 +71,7 @@ namespace core
     {
        private:
         pynwgraph& pg;
+        std::shared_ptr<detail::nwgraph> G;  // the edges of pg can be built again
         pybind11::object rf;
         std::shared_ptr<detail::NWCliqueEnumerator> en;
         u64 len1, len2;
@@ -75,10 +79,10 @@ namespace core
        public:
         NWCorrespondenceIterator(pynwgraph& p, pybind11::object rf, u64 len1, u64 len2,
                                  double clique_size)
-            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size)),
+            : pg(p), G(p.G), rf(rf), en(new detail::NWCliqueEnumerator(clique_size)),
               len1(len1), len2(len2)
         {
-            if (pg.G.get() == nullptr || pg.nvert == 0)
+            if (G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
         };
         std::pair<std::vector<u64>, std::vector<u64>> next_clique();
-- 
2.43.0


From 87d56d9892d3b24806e10d98397e2eddd1fd8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:14 +0000
Subject: [PATCH 28/48] fix: reject edge lists that do not have two columns

A list with one column was read out of bounds.
---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 7619381..a1c426c 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -142,6 +142,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) != 2)
+            throw CM_ERROR("Edge list must be a Nx2 array\n");
         std::pair<std::vector<u64>, std::vector<u64>> edges;
         edges.first.resize(no_of_vertices + 1);
         edges.second.resize(no_of_vertices + 1);
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 0146cc9..ca2b037 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -121,6 +121,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) != 2)
+            throw CM_ERROR("Edge list must be a Nx2 array\n");
         auto weights = weights1.unchecked<1>();
 
         std::pair<std::vector<u64>, std::vector<u64>> edges;
-- 
2.43.0


From 16aa342f05a81abd70622290f1f29506a408789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:54 +0000
Subject: [PATCH 29/48] fix: reject a vertex count that does not leave room for
 the sentinel

---
 src/cliquematch/core/pygraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index a1c426c..cade241 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -23,6 +23,7 @@ namespace core
     void pygraph::load_graph(u64 n_vertices, u64 n_edges,
                              std::pair<std::vector<u64>, std::vector<u64>>&& edges)
     {
+        if (n_vertices + 1 == 0) throw CM_ERROR("Too many vertices\n");
         this->nvert = n_vertices;
         this->nedges = n_edges;
         this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
-- 
2.43.0


From 447b0a1150053aee86e85bceca1d2de0ec5b803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:54 +0000
Subject: [PATCH 30/48] fix: reject empty sets when only a condition function
 is used

---
 src/cliquematch/templates/ext_template.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 9ab13e2..b8ca698 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -189,6 +189,10 @@ namespace ext
     {
         u64 no_of_vertices = pts1_len * pts2_len, no_of_edges = 0;
         u64 i1, i2, j1, j2, v1, v2;
+
+        if (pts1_len == 0 || pts2_len == 0)
+            throw CM_ERROR("One of the sets is empty (initialization error)\n");
+
         std::pair<std::vector<u64>, std::vector<u64>> edges;
         edges.first.resize(no_of_vertices + 1);
         edges.second.resize(no_of_vertices + 1);
-- 
2.43.0


From fea5e36381c6efa316c41a4360f07063ef0f263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:54 +0000
Subject: [PATCH 31/48] fix: reject points without two coordinates in
 AlignGraph

---
 src/cliquematch/ext/Aligngraph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cliquematch/ext/Aligngraph.cpp b/src/cliquematch/ext/Aligngraph.cpp
index 487a2cc..b94fcf5 100644
--- a/src/cliquematch/ext/Aligngraph.cpp
+++ b/src/cliquematch/ext/Aligngraph.cpp
@@ -59,6 +59,9 @@ namespace ext
                                  const Eigen::Ref<BoolMatrixR> mask,
                                  const double percentage)
     {
+        if (pts1.cols() < 2 || pts2.cols() < 2 || control_pts.cols() != 2)
+            throw CM_ERROR("Points must have two coordinates\n");
+
         Eigen::RowVector2d _c;
         DoubleMatrixR _rot_con(control_pts.rows(), control_pts.cols());
         ULongMatrixR _RCU(control_pts.rows(), control_pts.cols());
-- 
2.43.0


From 07d63af01757c7712cf727f2e8e11c16b46eb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:34 +0000
Subject: [PATCH 32/48] fix: accept point arrays in any memory layout

---
 src/cliquematch/wrappers/a2agraph.py | 5 +++--
 src/cliquematch/wrappers/a2lgraph.py | 3 ++-
 src/cliquematch/wrappers/l2agraph.py | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/wrappers/a2agraph.py b/src/cliquematch/wrappers/a2agraph.py
index e6a812b..7458dcf 100644
--- a/src/cliquematch/wrappers/a2agraph.py
+++ b/src/cliquematch/wrappers/a2agraph.py
@@ -26,8 +26,9 @@ class A2AGraph(GenGraph):
         super(A2AGraph, self).__init__(
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
-        self.S1 = np.float64(set1)
-        self.S2 = np.float64(set2)
+        # the distances are only computed for arrays in row-major order
+        self.S1 = np.require(np.float64(set1), requirements=["C", "W"])
+        self.S2 = np.require(np.float64(set2), requirements=["C", "W"])
         if d1 is not None:
             self.d1 = d1
             if d2 is not None:
diff --git a/src/cliquematch/wrappers/a2lgraph.py b/src/cliquematch/wrappers/a2lgraph.py
index 515d05b..a8179f0 100644
--- a/src/cliquematch/wrappers/a2lgraph.py
+++ b/src/cliquematch/wrappers/a2lgraph.py
@@ -28,7 +28,8 @@ class A2LGraph(GenGraph):
         super(A2LGraph, self).__init__(
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
-        self.S1 = np.float64(set1)
+        # the distances are only computed for arrays in row-major order
+        self.S1 = np.require(np.float64(set1), requirements=["C", "W"])
         self.S2 = set2
         self.d1 = None
         self.d2 = None
diff --git a/src/cliquematch/wrappers/l2agraph.py b/src/cliquematch/wrappers/l2agraph.py
index d46a530..c539e1a 100644
--- a/src/cliquematch/wrappers/l2agraph.py
+++ b/src/cliquematch/wrappers/l2agraph.py
@@ -29,7 +29,8 @@ class L2AGraph(GenGraph):
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
         self.S1 = set1
-        self.S2 = np.float64(set2)
+        # the distances are only computed for arrays in row-major order
+        self.S2 = np.require(np.float64(set2), requirements=["C", "W"])
         self.d1 = None
         self.d2 = None
         self.is_d1_symmetric = is_d1_symmetric
-- 
2.43.0


From 38ea3650524ce417ec539405f2d55dbe155ca4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:34 +0000
Subject: [PATCH 33/48] fix: convert the points and the mask given to
 AlignGraph

---
 src/cliquematch/wrappers/aligngraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/wrappers/aligngraph.py b/src/cliquematch/wrappers/aligngraph.py
index ce315f0..48d2d9d 100644
--- a/src/cliquematch/wrappers/aligngraph.py
+++ b/src/cliquematch/wrappers/aligngraph.py
@@ -87,6 +87,8 @@ class AlignGraph(GenGraph):
 
     def __init__(self, set1, set2):
         super(AlignGraph, self).__init__(set1, set2)
+        self.S1 = np.require(set1, np.float64, ["C", "W"])
+        self.S2 = np.require(set2, np.float64, ["C", "W"])
 
     def build_edges_with_filter(self, control_points, filter_mask, percentage):
         """Uses control points and a binary mask to filter out invalid mappings
@@ -110,8 +112,8 @@ class AlignGraph(GenGraph):
             self.S2,
             len(self.S2),
             self.epsilon,
-            control_points,
-            filter_mask,
+            np.require(control_points, np.float64, ["C", "W"]),
+            np.require(filter_mask, np.bool_, ["C", "W"]),
             percentage,
         ]
         _build_edges_with_filter(*args)
-- 
2.43.0


From dc8e2bfe794e0f210f162755b545906ce54c21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:45 +0000
Subject: [PATCH 34/48] fix: report a graph file that could not be written

---
 src/cliquematch/core/pygraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index cade241..1f7b3f7 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -282,6 +282,7 @@ namespace core
         f << this->nedges << "\n";
         this->G->send_data([&f](u64 i, u64 j) { f << i << " " << j << "\n"; });
         f.close();
+        if (f.fail()) throw CM_ERROR("Unable to write " + filename + "!!");
     }
 
     ndarray<bool> pygraph::to_adj_matrix() const
-- 
2.43.0


From d5b09f126d30d4f403fb69aadbb44987adb8aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:20 +0000
Subject: [PATCH 35/48] fix: use the metric given for S2 when S1 uses the
 default metric

---
 src/cliquematch/wrappers/_gen_graph.py | 6 ++++++
 src/cliquematch/wrappers/a2agraph.py   | 5 ++++-
 src/cliquematch/wrappers/a2lgraph.py   | 5 ++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/wrappers/_gen_graph.py b/src/cliquematch/wrappers/_gen_graph.py
index 63c5c71..a1e6b4b 100644
--- a/src/cliquematch/wrappers/_gen_graph.py
+++ b/src/cliquematch/wrappers/_gen_graph.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import numpy as np
 from cliquematch.core import (
     Graph,
     _build_edges_metric_only,
@@ -22,6 +23,11 @@ class WrappedIterator(object):
         return self.__next__()
 
 
+def euclidean(points, i, j):
+    """The default metric for the rows of an array."""
+    return np.sqrt(np.sum((points[i] - points[j]) ** 2))
+
+
 class GenGraph(Graph):
     def __init__(
         self, set1, set2, d1=None, d2=None, is_d1_symmetric=True, is_d2_symmetric=True
diff --git a/src/cliquematch/wrappers/a2agraph.py b/src/cliquematch/wrappers/a2agraph.py
index 7458dcf..93564e2 100644
--- a/src/cliquematch/wrappers/a2agraph.py
+++ b/src/cliquematch/wrappers/a2agraph.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from ._gen_graph import GenGraph
+from ._gen_graph import GenGraph, euclidean
 from warnings import warn
 import numpy as np
 
@@ -29,6 +29,9 @@ class A2AGraph(GenGraph):
         # the distances are only computed for arrays in row-major order
         self.S1 = np.require(np.float64(set1), requirements=["C", "W"])
         self.S2 = np.require(np.float64(set2), requirements=["C", "W"])
+        if d1 is None and d2 is not None:
+            warn("A2AGraph: Using default distance metric (Euclidean) for set S1")
+            d1 = euclidean
         if d1 is not None:
             self.d1 = d1
             if d2 is not None:
diff --git a/src/cliquematch/wrappers/a2lgraph.py b/src/cliquematch/wrappers/a2lgraph.py
index a8179f0..41d07c5 100644
--- a/src/cliquematch/wrappers/a2lgraph.py
+++ b/src/cliquematch/wrappers/a2lgraph.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from ._gen_graph import GenGraph
+from ._gen_graph import GenGraph, euclidean
 from warnings import warn
 import numpy as np
 
@@ -35,6 +35,9 @@ class A2LGraph(GenGraph):
         self.d2 = None
         self.is_d1_symmetric = is_d1_symmetric
         self.is_d2_symmetric = is_d2_symmetric
+        if d1 is None and d2 is not None:
+            warn("A2LGraph: Using default distance metric (Euclidean) for set S1")
+            d1 = euclidean
         if d1 is not None:
             self.d1 = d1
             if d2 is not None:
-- 
2.43.0


From c59bedc608d7a41c104695a77e188709a2448e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:24 +0000
Subject: [PATCH 36/48] fix: convert only control points within the mask to
 indices

---
 src/cliquematch/ext/Aligngraph.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/cliquematch/ext/Aligngraph.cpp b/src/cliquematch/ext/Aligngraph.cpp
index b94fcf5..cba3e67 100644
--- a/src/cliquematch/ext/Aligngraph.cpp
+++ b/src/cliquematch/ext/Aligngraph.cpp
@@ -1,8 +1,5 @@
 #include <ext/Aligngraph.h>
 
-using ULongMatrixR =
-    Eigen::Matrix<u64, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
-
 namespace cliquematch
 {
 namespace ext
@@ -10,7 +7,6 @@ namespace ext
     double inline filter_score(const Eigen::Ref<DoubleMatrixR> control,
                                const Eigen::Ref<BoolMatrixR> msk, Eigen::RowVector2d& c,
                                Eigen::Ref<DoubleMatrixR> rot_con,
-                               Eigen::Ref<ULongMatrixR> RCU,
                                const Eigen::Ref<DoubleMatrixR>& M1, const u64 i1,
                                const u64 j1, const Eigen::Ref<DoubleMatrixR>& M2,
                                const u64 i2, const u64 j2)
@@ -39,12 +35,14 @@ namespace ext
         rot_con.col(1) = b * control.col(0) + a * control.col(1);
         rot_con.rowwise() += c;
 
-        RCU = rot_con.cast<u64>();
-        // assumption is M1, M2, control_pts and therefore RCU all are in the same
+        // assumption is M1, M2, control_pts and therefore rot_con all are in the same
         // coordinate system, i.e. (x,y) or (col, row)
+        // only coordinates within the mask can be converted to indices
         for (k = 0; k < static_cast<u64>(rot_con.rows()); k++)
         {
-            if (RCU(k, 1) < m_r && RCU(k, 0) < m_c && msk(RCU(k, 1), RCU(k, 0)))
+            x1 = rot_con(k, 0), y1 = rot_con(k, 1);
+            if (y1 > -1 && y1 < m_r && x1 > -1 && x1 < m_c &&
+                msk(static_cast<u64>(y1), static_cast<u64>(x1)))
                 msk_score++;
         }
         msk_score /= rot_con.rows();
@@ -64,15 +62,14 @@ namespace ext
 
         Eigen::RowVector2d _c;
         DoubleMatrixR _rot_con(control_pts.rows(), control_pts.cols());
-        ULongMatrixR _RCU(control_pts.rows(), control_pts.cols());
 
-        auto rule_func = [&control_pts, &mask, &_c, &_rot_con, &_RCU, &percentage](
+        auto rule_func = [&control_pts, &mask, &_c, &_rot_con, &percentage](
                              const Eigen::Ref<DoubleMatrixR>& p1, const u64 i1,
                              const u64 j1, const Eigen::Ref<DoubleMatrixR>& p2,
                              const u64 i2, const u64 j2) -> bool
         {
-            return filter_score(control_pts, mask, _c, _rot_con, _RCU, p1, i1, j1, p2,
-                                i2, j2) >= percentage;
+            return filter_score(control_pts, mask, _c, _rot_con, p1, i1, j1, p2, i2,
+                                j2) >= percentage;
         };
         return build_edges<Eigen::Ref<DoubleMatrixR>, Eigen::Ref<DoubleMatrixR>, double,
                            double, double>(pg, pts1, pts1_len, pts2, pts2_len, epsilon,
-- 
2.43.0


From a3aa37bbecd93a6d05e868deefda1ce82ae6b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:11 +0000
Subject: [PATCH 37/48] fix: do not join matches whose distances are NaN

A NaN distance compared as equal to every other distance, and the order of the
sorted distances was undefined with a NaN among them, so that other edges could
be lost too.  Keep NaNs at the end and compare the values themselves.
---
 src/cliquematch/templates/ext_template.hpp | 4 ++--
 src/cliquematch/templates/relset.hpp       | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index b8ca698..7d30c91 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -50,7 +50,7 @@ namespace ext
             lb_loc = std::lower_bound(base, base + len2, cur_lb) - base;
             if (lb_loc == len2) break;
 
-            for (j = lb_loc; j < len2 && !(s2.dists[j] > cur_ub); j++)
+            for (j = lb_loc; j < len2 && s2.dists[j].dist <= cur_ub; j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
@@ -119,7 +119,7 @@ namespace ext
             lb_loc = std::lower_bound(base, base + len2, cur_lb) - base;
             if (lb_loc == len2) break;
 
-            for (j = lb_loc; j < len2 && !(s2.dists[j] > cur_ub); j++)
+            for (j = lb_loc; j < len2 && s2.dists[j].dist <= cur_ub; j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
diff --git a/src/cliquematch/templates/relset.hpp b/src/cliquematch/templates/relset.hpp
index 4516d4f..55940e6 100644
--- a/src/cliquematch/templates/relset.hpp
+++ b/src/cliquematch/templates/relset.hpp
@@ -36,7 +36,10 @@ namespace ext
                 count++;
             }
         }
-        std::sort(this->dists.begin(), this->dists.end());
+        // NaNs are not ordered by <, keep them at the end
+        std::sort(this->dists.begin(), this->dists.end(),
+                  [](const pair_dist<Delta>& a, const pair_dist<Delta>& b)
+                  { return a < b || (a.dist == a.dist && b.dist != b.dist); });
     }
 
     /* needed only for debugging
-- 
2.43.0


From 5e6b45b7135d5dafc1654761e5d386dabe4592cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:27 +0000
Subject: [PATCH 38/48] fix: count the vertex itself in the heuristic's first
 bound

A vertex with k candidates can be part of a clique of k + 1 vertices, but it was
left out unless k exceeded the size of the best clique so far.  A heuristic search
could so give a smaller clique than on a fresh object once an interrupted search
had found one, and missed the edge of a graph with one edge.
---
 src/cliquematch/detail/graph/heuristic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/graph/heuristic.cpp b/src/cliquematch/detail/graph/heuristic.cpp
index 00fecd5..8729bef 100644
--- a/src/cliquematch/detail/graph/heuristic.cpp
+++ b/src/cliquematch/detail/graph/heuristic.cpp
@@ -74,7 +74,7 @@ namespace detail
             cand.set(i);
             candidates_left++;
         }
-        if (candidates_left <= G.CUR_MAX_CLIQUE_SIZE) return;
+        if (1 + candidates_left <= G.CUR_MAX_CLIQUE_SIZE) return;
         std::sort(neighbors.begin(), neighbors.begin() + candidates_left,
                   std::greater<vdata>());
 
-- 
2.43.0


From 807312b3c30175a1edb2fbac6bf43e22328711aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:59 +0000
Subject: [PATCH 39/48] fix: keep a metric that is given for S2 only

The constructors dropped d2 unless d1 was given too, and build_edges ignored a d2
that was set as an attribute while d1 was None.  Keep both, and use the Euclidean
distance for an array S1 without a metric.
---
 src/cliquematch/wrappers/_gen_graph.py | 11 +++++++++--
 src/cliquematch/wrappers/a2lgraph.py   |  4 ++--
 src/cliquematch/wrappers/l2agraph.py   |  4 ++--
 src/cliquematch/wrappers/l2lgraph.py   |  4 ++--
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cliquematch/wrappers/_gen_graph.py b/src/cliquematch/wrappers/_gen_graph.py
index a1e6b4b..b8004ff 100644
--- a/src/cliquematch/wrappers/_gen_graph.py
+++ b/src/cliquematch/wrappers/_gen_graph.py
@@ -35,12 +35,17 @@ class GenGraph(Graph):
         super(GenGraph, self).__init__()
         self.S1 = set1
         self.S2 = set2
-        self.d1 = None
-        self.d2 = None
+        self.d1 = d1
+        self.d2 = d2
         self.is_d1_symmetric = is_d1_symmetric
         self.is_d2_symmetric = is_d2_symmetric
         self.epsilon = 1.1
 
+    def _use_default_metric(self):
+        # a metric for S2 can only be passed on together with one for S1
+        if self.d2 and not self.d1 and isinstance(self.S1, np.ndarray):
+            self.d1 = euclidean
+
     def build_edges(self):
         """Build edges of the correspondence graph using distance metrics.
 
@@ -52,6 +57,7 @@ class GenGraph(Graph):
         Returns:
             bool: `True` if construction was successful
         """
+        self._use_default_metric()
         args = [self, self.S1, len(self.S1), self.S2, len(self.S2), self.epsilon]
         if self.d1:
             args = args + [self.d1, self.is_d1_symmetric]
@@ -75,6 +81,7 @@ class GenGraph(Graph):
         Raises:
             RuntimeError: if `.d1`\, `.d2`\, or ``condition_func`` are invalid functions
         """
+        self._use_default_metric()
         args = [
             self,
             self.S1,
diff --git a/src/cliquematch/wrappers/a2lgraph.py b/src/cliquematch/wrappers/a2lgraph.py
index 41d07c5..ec5c4aa 100644
--- a/src/cliquematch/wrappers/a2lgraph.py
+++ b/src/cliquematch/wrappers/a2lgraph.py
@@ -31,8 +31,8 @@ class A2LGraph(GenGraph):
         # the distances are only computed for arrays in row-major order
         self.S1 = np.require(np.float64(set1), requirements=["C", "W"])
         self.S2 = set2
-        self.d1 = None
-        self.d2 = None
+        self.d1 = d1
+        self.d2 = d2
         self.is_d1_symmetric = is_d1_symmetric
         self.is_d2_symmetric = is_d2_symmetric
         if d1 is None and d2 is not None:
diff --git a/src/cliquematch/wrappers/l2agraph.py b/src/cliquematch/wrappers/l2agraph.py
index c539e1a..b221bfd 100644
--- a/src/cliquematch/wrappers/l2agraph.py
+++ b/src/cliquematch/wrappers/l2agraph.py
@@ -31,8 +31,8 @@ class L2AGraph(GenGraph):
         self.S1 = set1
         # the distances are only computed for arrays in row-major order
         self.S2 = np.require(np.float64(set2), requirements=["C", "W"])
-        self.d1 = None
-        self.d2 = None
+        self.d1 = d1
+        self.d2 = d2
         self.is_d1_symmetric = is_d1_symmetric
         self.is_d2_symmetric = is_d2_symmetric
         if d1 is not None:
diff --git a/src/cliquematch/wrappers/l2lgraph.py b/src/cliquematch/wrappers/l2lgraph.py
index 1eb3281..1908b94 100644
--- a/src/cliquematch/wrappers/l2lgraph.py
+++ b/src/cliquematch/wrappers/l2lgraph.py
@@ -28,8 +28,8 @@ class L2LGraph(GenGraph):
         )
         self.S1 = set1
         self.S2 = set2
-        self.d1 = None
-        self.d2 = None
+        self.d1 = d1
+        self.d2 = d2
         self.is_d1_symmetric = is_d1_symmetric
         self.is_d2_symmetric = is_d2_symmetric
         if d1 is not None:
-- 
2.43.0


From 8c5d1b358392f9d546c1be9c9fdb093533f98bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:15:01 +0000
Subject: [PATCH 40/48] fix: do not use a search state after it was removed
 from the stack

The loops that leave a level of the search removed its state from the
vector and then still read the removed element. Read it first.
---
 src/cliquematch/detail/graph/dfs_stack.cpp      | 7 ++++---
 src/cliquematch/detail/graph/enumerate.cpp      | 7 ++++---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp       | 7 ++++---
 src/cliquematch/detail/nwgraph/nw_enumerate.cpp | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index c38c7c9..eb4b97d 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -184,13 +184,14 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_size--;
+
+                // cur_state is gone after this
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index 789503e..95362b7 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -217,13 +217,14 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                memory.clear(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_size--;
+
+                // cur_state is gone after this
+                states.pop_back();
+                memory.clear(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 07a5fe0..26280b9 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -178,13 +178,14 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_weight -= this->weights[cur_state.id];
+
+                // cur_state is gone after this
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index 6be6cd7..85d18e4 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -197,13 +197,14 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                memory.clear(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_weight -= weights[cur_state.id];
+
+                // cur_state is gone after this
+                states.pop_back();
+                memory.clear(request_size);
             }
         }
 
-- 
2.43.0


From 64842b2536548bf677e51d36dd3b88ec29349353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:14 +0000
Subject: [PATCH 41/48] fix: reserve enough memory before a search starts

The list of discarded candidates could grow during the search.  If memory
ran out then, the search memory of the graph was not given back.
---
 src/cliquematch/detail/graph/dfs_stack.cpp | 5 +++--
 src/cliquematch/detail/nwgraph/nw_dfs.cpp  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index eb4b97d..74dc4f4 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -25,8 +25,9 @@ namespace detail
     u64 StackDFS::process_graph(graph& G)
     {
         // the upper bound on clique size is the maximum depth on the stack
-        this->states.reserve(G.CLIQUE_LIMIT);
-        this->to_remove.reserve(G.CLIQUE_LIMIT);
+        // (a clique that is not complete may be larger than G.CLIQUE_LIMIT)
+        this->states.reserve(G.max_degree);
+        this->to_remove.reserve(G.max_degree);
         this->process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION);
         for (i = 0; i < G.n_vert; i++)
         {
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 26280b9..eeec4d2 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -8,7 +8,7 @@ namespace detail
     {
         // the upper bound on clique size is the maximum depth on the stack
         this->states.reserve(G.max_depth);
-        this->to_remove.reserve(G.max_depth);
+        this->to_remove.reserve(G.max_neighbors);
         this->weights.resize(G.max_neighbors);
         this->process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION);
         for (i = 0; i < G.n_vert; i++)
-- 
2.43.0


From 3cba781e70b18a683707c575fc4a2476341582fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:31 +0000
Subject: [PATCH 42/48] fix: do not let a search that failed limit the next one

If memory ran out during or after a search, the size of a clique that was
never stored, or a lower bound, remained the size to beat.
---
 src/cliquematch/core/pygraph.cpp            |  2 --
 src/cliquematch/core/pynwgraph.cpp          |  2 --
 src/cliquematch/detail/graph/clique.cpp     | 33 ++++++++++++++-------
 src/cliquematch/detail/nwgraph/nwclique.cpp | 21 +++++++++----
 4 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 1f7b3f7..774e377 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -70,8 +70,6 @@ namespace core
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
         finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
-        // a lower bound that could not be met must not limit the next search
-        this->G->CUR_MAX_CLIQUE_SIZE = ans.size();
         // part of a clique is also a clique
         if (ans.size() > upper_bound) ans.resize(upper_bound);
         if (lower_bound > ans.size())
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index ca2b037..6d865ce 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -64,8 +64,6 @@ namespace core
         finished_all = (current_vertex > nvert);
 
         auto ans = this->G->get_max_clique();
-        // a lower bound that could not be met must not limit the next search
-        this->G->CUR_MAX_CLIQUE_SIZE = this->G->get_clique_weight(ans);
         if (lower_bound > this->G->CUR_MAX_CLIQUE_SIZE)
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
                            std::to_string(lower_bound) + ", " +
diff --git a/src/cliquematch/detail/graph/clique.cpp b/src/cliquematch/detail/graph/clique.cpp
index f31578d..b791d7d 100644
--- a/src/cliquematch/detail/graph/clique.cpp
+++ b/src/cliquematch/detail/graph/clique.cpp
@@ -19,21 +19,32 @@ namespace detail
         const u64 prev_size = this->CUR_MAX_CLIQUE_SIZE;
 
         this->start_time = std::chrono::steady_clock::now();
-        if (use_heur) heur.process_graph((*this));
-        if (time_limit <= 0)
+        try
         {
-            StackDFS dfs;
-            if (use_dfs) start_vert = dfs.process_graph((*this));
+            if (use_heur) heur.process_graph((*this));
+            if (time_limit <= 0)
+            {
+                StackDFS dfs;
+                if (use_dfs) start_vert = dfs.process_graph((*this));
+            }
+            else
+            {
+                RecursionDFS dfs(start_vert, time_limit);
+                this->start_time = std::chrono::steady_clock::now();
+                if (use_dfs) start_vert = dfs.process_graph((*this));
+            }
+            // the bitset at a vertex is overwritten when enumerating cliques
+            if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
+                this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
         }
-        else
+        catch (...)
         {
-            RecursionDFS dfs(start_vert, time_limit);
-            this->start_time = std::chrono::steady_clock::now();
-            if (use_dfs) start_vert = dfs.process_graph((*this));
+            // a clique that could not be stored must not limit the next search
+            this->CUR_MAX_CLIQUE_SIZE = this->max_clique.size();
+            throw;
         }
-        // the bitset at a vertex is overwritten when enumerating cliques
-        if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
-            this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
+        // a lower bound that could not be met must not limit the next search
+        this->CUR_MAX_CLIQUE_SIZE = this->max_clique.size();
         return this->elapsed_time();
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwclique.cpp b/src/cliquematch/detail/nwgraph/nwclique.cpp
index 9c7564c..41d2653 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.cpp
+++ b/src/cliquematch/detail/nwgraph/nwclique.cpp
@@ -11,11 +11,22 @@ namespace detail
         NWStackDFS dfs;
         const double prev_size = this->CUR_MAX_CLIQUE_SIZE;
 
-        if (use_heur) heur.process_graph((*this));
-        if (use_dfs) start_vert = dfs.process_graph((*this));
-        // the bitset at a vertex is overwritten when enumerating cliques
-        if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
-            this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
+        try
+        {
+            if (use_heur) heur.process_graph((*this));
+            if (use_dfs) start_vert = dfs.process_graph((*this));
+            // the bitset at a vertex is overwritten when enumerating cliques
+            if (this->CUR_MAX_CLIQUE_SIZE != prev_size)
+                this->max_clique = this->get_max_clique(this->CUR_MAX_CLIQUE_LOCATION);
+        }
+        catch (...)
+        {
+            // a clique that could not be stored must not limit the next search
+            this->CUR_MAX_CLIQUE_SIZE = this->get_clique_weight(this->max_clique);
+            throw;
+        }
+        // a lower bound that could not be met must not limit the next search
+        this->CUR_MAX_CLIQUE_SIZE = this->get_clique_weight(this->max_clique);
     }
 
     std::vector<u64> nwgraph::get_max_clique() const
-- 
2.43.0


From 726fafe46823d36334770650c3349979d8212b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:31 +0000
Subject: [PATCH 43/48] fix: keep the current graph if a new one cannot be
 loaded

The numbers of vertices and edges were changed first, and no longer fitted
the graph if memory ran out.
---
 src/cliquematch/core/pygraph.cpp   | 6 +++---
 src/cliquematch/core/pynwgraph.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 774e377..9a5609e 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -24,10 +24,10 @@ namespace core
                              std::pair<std::vector<u64>, std::vector<u64>>&& edges)
     {
         if (n_vertices + 1 == 0) throw CM_ERROR("Too many vertices\n");
+        // the current graph is kept if the new one cannot be loaded
+        this->G =
+            std::make_shared<detail::graph>(n_vertices, n_edges, std::move(edges));
         this->nvert = n_vertices;
-        this->nedges = n_edges;
-        this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
-                                                  std::move(edges));
         // repeated edges and loops were removed while loading
         this->nedges = 0;
         this->G->send_data([this](u64, u64) { this->nedges++; });
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 6d865ce..6e45004 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -22,10 +22,10 @@ namespace core
                                std::pair<std::vector<u64>, std::vector<u64>>&& edges,
                                std::vector<double>&& weights)
     {
-        this->nvert = n_vertices;
-        this->nedges = n_edges;
+        // the current graph is kept if the new one cannot be loaded
         this->G = std::make_shared<detail::nwgraph>(
-            this->nvert, this->nedges, std::move(edges), std::move(weights));
+            n_vertices, n_edges, std::move(edges), std::move(weights));
+        this->nvert = n_vertices;
         // repeated edges and loops were removed while loading
         this->nedges = 0;
         this->G->send_data([this](u64, u64) { this->nedges++; });
-- 
2.43.0


From b86629a434e1dc639426fb0100500d63cda7d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:31 +0000
Subject: [PATCH 44/48] fix: do not print part of the text if memory runs out

---
 src/cliquematch/core/pygraph.cpp   | 1 +
 src/cliquematch/core/pynwgraph.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 9a5609e..4db58fa 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -114,6 +114,7 @@ namespace core
     std::string pygraph::showdata() const
     {
         std::stringstream ss;
+        ss.exceptions(std::ios::badbit);  // do not return part of the text
         ss << "cliquematch.core.Graph object at " << this << "(";
         ss << "n_vertices=" << this->nvert << ",";
         ss << "n_edges=" << this->nedges << ",";
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 6e45004..946529e 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -105,6 +105,7 @@ namespace core
     std::string pynwgraph::showdata() const
     {
         std::stringstream ss;
+        ss.exceptions(std::ios::badbit);  // do not return part of the text
         ss << "cliquematch.core.NWGraph object at " << this << "(";
         ss << "n_vertices=" << this->nvert << ",";
         ss << "n_edges=" << this->nedges << ",";
-- 
2.43.0


From 3d2f802cf25ceacafc06c38c9cb3648511fbf26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:29 +0000
Subject: [PATCH 45/48] fix: let several threads use one MaskFilter

---
 src/cliquematch/wrappers/aligngraph.py | 39 +++++++++++++-------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/cliquematch/wrappers/aligngraph.py b/src/cliquematch/wrappers/aligngraph.py
index 48d2d9d..a3426a9 100644
--- a/src/cliquematch/wrappers/aligngraph.py
+++ b/src/cliquematch/wrappers/aligngraph.py
@@ -26,14 +26,13 @@ class MaskFilter(object):
         self.pts = np.copy(control_pts)
         self.mask = img_mask
         self.percentage = percentage
-        self._tformed_pts = np.zeros(control_pts.shape, dtype=np.uint)
-        self._valids = np.zeros(len(self.pts), dtype=np.bool_)
-        self._ctx = 0
-        self._query = np.zeros((4, 4), np.float32)
-        self._rhs = np.zeros((4, 1), np.float32)
-        self._answer = np.zeros((4, 1), np.float32)
 
     def __call__(self, mat1, i1, j1, mat2, i2, j2):
+        # nothing is kept in the object, it may be in use by several threads
+        tformed_pts = np.zeros(self.pts.shape, dtype=np.uint)
+        query = np.zeros((4, 4), np.float32)
+        rhs = np.zeros((4, 1), np.float32)
+
         # get the points
         s1 = mat2[[i2, j2], :]
         s2 = mat1[[i1, j1], :]
@@ -45,27 +44,27 @@ class MaskFilter(object):
         if den == 0:
             return False
 
-        self._query[0, :] = [s1[0, 0], -s1[0, 1], 1, 0]
-        self._query[1, :] = [s1[0, 1], s1[0, 0], 0, 1]
-        self._query[2, :] = [s1[1, 0], -s1[1, 1], 1, 0]
-        self._query[3, :] = [s1[1, 1], s1[1, 0], 0, 1]
-        self._rhs[:, 0] = [s2[0, 0], s2[0, 1], s2[1, 0], s2[1, 1]]
-        self._answer = np.linalg.solve(self._query, self._rhs)
-        a = self._answer[0]
-        b = self._answer[1]
-        c = self._answer[2:]
+        query[0, :] = [s1[0, 0], -s1[0, 1], 1, 0]
+        query[1, :] = [s1[0, 1], s1[0, 0], 0, 1]
+        query[2, :] = [s1[1, 0], -s1[1, 1], 1, 0]
+        query[3, :] = [s1[1, 1], s1[1, 0], 0, 1]
+        rhs[:, 0] = [s2[0, 0], s2[0, 1], s2[1, 0], s2[1, 1]]
+        answer = np.linalg.solve(query, rhs)
+        a = answer[0]
+        b = answer[1]
+        c = answer[2:]
 
         # transform control points as per rotation and translation
         # this is slow because I have to convert floats to ints for indexing
-        self._tformed_pts[:, 0] = self.pts[:, 0] * a - self.pts[:, 1] * b + c[0]
-        self._tformed_pts[:, 1] = self.pts[:, 0] * b + self.pts[:, 1] * a + c[1]
+        tformed_pts[:, 0] = self.pts[:, 0] * a - self.pts[:, 1] * b + c[0]
+        tformed_pts[:, 1] = self.pts[:, 0] * b + self.pts[:, 1] * a + c[1]
 
         # check bounds
-        self._valids = (self._tformed_pts[:, 1] < self.mask.shape[0]) & (
-            self._tformed_pts[:, 0] < self.mask.shape[1]
+        valids = (tformed_pts[:, 1] < self.mask.shape[0]) & (
+            tformed_pts[:, 0] < self.mask.shape[1]
         )
 
-        bpts = self._tformed_pts[self._valids, :]
+        bpts = tformed_pts[valids, :]
 
         # return true if percentage of control pts is enough
         msk_score = 1.0 * np.sum(self.mask[bpts[:, 1], bpts[:, 0]])
-- 
2.43.0


From e8fee3ff5cb857911c8d6d60a64fc06df56619ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:33 +0000
Subject: [PATCH 46/48] fix: do not divide by zero if S2 was emptied after the
 edges were built

---
 src/cliquematch/core/pygraph.cpp   | 1 +
 src/cliquematch/core/pynwgraph.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 4db58fa..7df178e 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -84,6 +84,7 @@ namespace core
     {
         std::pair<std::vector<u64>, std::vector<u64>> ans;
         u64 i, t1, t2;
+        if (len2 == 0) throw CM_ERROR("One of the sets is empty\n");
         for (i = 0; i < clique.size(); i++)
         {
             if (clique[i] == 0)
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 946529e..14f7849 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -76,6 +76,7 @@ namespace core
     {
         std::pair<std::vector<u64>, std::vector<u64>> ans;
         u64 i, t1, t2;
+        if (len2 == 0) throw CM_ERROR("One of the sets is empty\n");
         for (i = 0; i < clique.size(); i++)
         {
             if (clique[i] == 0)
-- 
2.43.0


From 326cb83b3514ca4b94b2cbe498e0884227e20c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:18 +0000
Subject: [PATCH 47/48] fix: do not look for a vertex before the start of an
 empty list of neighbors

---
 src/cliquematch/detail/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cliquematch/detail/utils.h b/src/cliquematch/detail/utils.h
index 4c1cf56..caff9b8 100644
--- a/src/cliquematch/detail/utils.h
+++ b/src/cliquematch/detail/utils.h
@@ -30,6 +30,11 @@ namespace detail
         /* modified binary search, returns location by reference
          * return FOUND if found, NOT_FOUND if not found
          */
+        if (N == 0)
+        {
+            loc = 0;
+            return NOT_FOUND;
+        }
         u64 beg = 0, end = N - 1;
         if (a[end] < val)
         {
-- 
2.43.0


From bd2d61cfa7f82bb032fe6812bd4c073b8d5c602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:10 +0000
Subject: [PATCH 48/48] fix: do not lose small weights when enumerating cliques
 next to large ones

---
 .../detail/nwgraph/nw_enumerate.cpp           | 20 +++++++++----------
 src/cliquematch/detail/nwgraph/nwclique.h     | 14 +++++++------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index 85d18e4..6816035 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -116,16 +116,14 @@ namespace detail
                 cur_state.start_at = j + 1;
                 candidates_left = cur_state.cand.count();
 
-                cand_potential = cur_state.potential;
-                clique_potential = cand_potential + clique_weight + this->weights[j];
-
+                // add up the weights of what remains, because subtracting what is removed
+                // from a sum loses the small weights if there are large ones
+                cand_potential = 0;
                 vert = G.edge_list[G.vertices[cur].elo + j];
 
                 // ensure only the vertices found in the below loop are removed later
                 to_remove.clear();
-                for (k = j + 1;
-                     k < G.vertices[cur].N && clique_potential >= this->REQUIRED_WEIGHT;
-                     k++)
+                for (k = j + 1; k < G.vertices[cur].N; k++)
                 {
                     if (!cur_state.cand[k]) continue;
                     if (binary_find(&(G.edge_list[G.vertices[vert].elo +
@@ -134,12 +132,12 @@ namespace detail
                                     G.edge_list[G.vertices[cur].elo + k], ans) != FOUND)
                     {
                         to_remove.push_back(k);
-                        cand_potential -= this->weights[k];
                         candidates_left -= 1;
                     }
-                    clique_potential =
-                        cand_potential + clique_weight + this->weights[j];
+                    else
+                        cand_potential += this->weights[k];
                 }
+                clique_potential = cand_potential + clique_weight + this->weights[j];
 
                 // is it possible to produce a clique of REQUIRED_WEIGHT?
                 if (clique_potential >= this->REQUIRED_WEIGHT)
@@ -163,7 +161,7 @@ namespace detail
 
                     else  // clique may still grow to REQUIRED_WEIGHT
                     {
-                        NWSearchState future_state(j, cand_potential);
+                        NWSearchState future_state(j, cand_potential, clique_weight);
 
                         // allocate memory for another NWSearchState on the stack.
                         // no need to allocate memory for res, refer_from passes the
@@ -200,7 +198,7 @@ namespace detail
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
-                clique_weight -= weights[cur_state.id];
+                clique_weight = cur_state.prev_weight;
 
                 // cur_state is gone after this
                 states.pop_back();
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 3a8cf32..cbe00d0 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -23,20 +23,22 @@ namespace detail
         const u64 id;  // index of the neighbor that's been added to the clique
         u64 start_at;  // index where the search should start
         double potential;
+        double prev_weight;  // weight of the clique before the neighbor was added
         graphBits res, cand;
 
-        NWSearchState() : id(0), start_at(0), potential(0.0){};
-        NWSearchState(u64 id, double potential)
-            : id(id), start_at(id), potential(potential){};
+        NWSearchState() : id(0), start_at(0), potential(0.0), prev_weight(0.0){};
+        NWSearchState(u64 id, double potential, double prev_weight = 0.0)
+            : id(id), start_at(id), potential(potential), prev_weight(prev_weight){};
         NWSearchState(const wvertex& ver, u64* res_ptr, u64* cand_ptr)
-            : id(ver.spos), start_at(0), potential(0.0), res(res_ptr, ver.N),
-              cand(cand_ptr, ver.N)
+            : id(ver.spos), start_at(0), potential(0.0), prev_weight(0.0),
+              res(res_ptr, ver.N), cand(cand_ptr, ver.N)
         {
             this->res.set(this->id);
         }
         NWSearchState(NWSearchState&& tmp)
             : id(tmp.id), start_at(tmp.start_at), potential(tmp.potential),
-              res(std::move(tmp.res)), cand(std::move(tmp.cand)){};
+              prev_weight(tmp.prev_weight), res(std::move(tmp.res)),
+              cand(std::move(tmp.cand)){};
 
         void refer_from(u64* cand_ptr, const graphBits& prev_cand,
                         const graphBits& prev_res)
-- 
2.43.0

