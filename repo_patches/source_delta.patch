From 83fdaec9597fdc83348d8f8d5feeb0a14e7a1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/87] fix: size adjacency constructed from an edge list to
 its number of vertices

The edge-list constructors of index_adjacency/index_biadjacency passed
num_vertices + 1 rows to the compressed base, so the outer range had one
row too many (end() - begin() != size()) whose bounds lie past the index
vector; triangularize() and every algorithm iterating begin()..end() read
out of bounds.
---
 include/nwgraph/adjacency.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
-- 
2.43.0


From 4f49e63476bee5779ed03af3dac8cd0e82715926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/87] fix: grow a compressed container by whole rows in
 push_back

push_back(i, ...) on a container with fewer than i + 1 rows extended the
index vector by one entry too few, so the final exclusive scan lost the
last row and the assertion in close_for_push_back fired.
---
 include/nwgraph/containers/compressed.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..2ec32f5 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -273,12 +273,10 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
-        indices_.emplace_back(0);
-        ++N_;
-      }
+    while (indices_.size() < static_cast<size_t>(i) + 2) {    // row i needs indices_[i] and indices_[i + 1]
+      indices_.emplace_back(0);
     }
+    N_ = indices_.size() - 1;
     ++indices_[i];
     to_be_indexed_.push_back(attrs...);
   }
-- 
2.43.0


From db35965e8316aed991198a3658a3784d5c256eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/87] fix: permute_by_degree moves each neighborhood to its
 new row

struct_of_arrays::permute expects, for every new row, the old row it comes
from; it was given the inverse permutation, which loses and zero-fills
neighborhoods unless the permutation is an involution.
---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 2ec32f5..0201b88 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -489,8 +489,8 @@ public:    // fixme
     // before the computation, new_indices stores the degree of each vertex (with new id)
     std::inclusive_scan(ex_policy, new_indices.begin(), new_indices.end(), new_indices.begin());
     //7. Permute each neighborhood of each vertex in to_be_indexed_ to their new place
-    // based on the new_id_perm
-    to_be_indexed_.permute(indices_, new_indices, new_id_perm);
+    // (perm[new_id] is the old id of the vertex)
+    to_be_indexed_.permute(indices_, new_indices, perm);
 
     //8. Overwrite the old indices_ with new_indices
     indices_ = std::move(new_indices);
-- 
2.43.0


From 2d551b969ecaf30d34080a9da7bc02cf9f9fc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 04/87] fix: permute_by_degree compiles with its default
 execution policy

---
 include/nwgraph/containers/compressed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 0201b88..38e2240 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -448,7 +448,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
-- 
2.43.0


From 6794553c613032ad882d1595a192a56617d9eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 05/87] fix: sorting neighborhoods keeps edge attributes with
 their neighbors

sort_to_be_indexed (and with it the sort_adjacency constructor flag,
relabel_to_be_indexed and sort_by_degree) sorted only the neighbor ids, so
in a graph with edge attributes every attribute stayed at its old position
and ended up on a different edge.
---
 include/nwgraph/containers/compressed.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 38e2240..1456067 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -414,10 +414,19 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    if constexpr (sizeof...(Attributes) == 1) {
+      auto s = std::get<0>(to_be_indexed_).begin();
+
+      for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
+        std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      }
+    } else {    // keep the attributes of each neighbor with it
+      auto s = to_be_indexed_.begin();
 
-    for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
+        std::sort(ex_policy, s + indices_[i], s + indices_[i + 1],
+                  [](const auto& a, const auto& b) { return std::get<0>(a) < std::get<0>(b); });
+      }
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 55d71cb33e12a78d881c57a3cd9d3fb5c1ef5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/87] fix: the outer range of a compressed container ends at
 its last row

end() used the row count given at construction, which goes stale when the
rows are replaced (fill, move, deserialize); the number of rows is
indices_.size() - 1, as size() reports.
---
 include/nwgraph/containers/compressed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 1456067..7899ef3 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -207,9 +207,9 @@ public:    // fixme
   iterator       begin()        { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator begin()  const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
   const_iterator cbegin() const { return {indices_.begin(), to_be_indexed_.begin(), 0}; }
-  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
-  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), N_}; }
+  iterator       end()        { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator end()  const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
+  const_iterator cend() const { return {indices_.begin(), to_be_indexed_.begin(), size()}; }
 
   /// Random access to the outer range.
   sub_view       operator[](index_t i) { return begin()[i]; }
@@ -343,7 +343,7 @@ public:    // fixme
     new_to_be_indexed_.reserve(to_be_indexed_.size());
 
     new_indices_[0] = 0;
-    for (size_t i = 0; i < N_; ++i) {
+    for (size_t i = 0; i < size(); ++i) {
       const auto begin = to_be_indexed_.begin() + indices_[i];
       const auto end   = to_be_indexed_.begin() + indices_[i + 1];
       size_t     k     = 0;
-- 
2.43.0


From 3a30693e6035c499048f209468d8b8f71a9ba183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 07/87] fix: (de)serialize the row count of a compressed
 container with its own width

sizeof(size_t) bytes were written from and read into a member of type
index_t; with the default 32-bit index type reading overwrote part of the
adjacent index vector, corrupting the heap.
---
 include/nwgraph/containers/compressed.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 7899ef3..9a47780 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -303,7 +303,8 @@ public:    // fixme
     size_t st_size = indices_.size();
 
     outfile.write(reinterpret_cast<const char*>(magic_), sizeof(magic_));
-    outfile.write(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    size_t n_rows = size();
+    outfile.write(reinterpret_cast<char*>(&n_rows), sizeof(size_t));
 
     outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
@@ -322,7 +323,9 @@ public:    // fixme
     size_t st_size = -1;
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
-    infile.read(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    size_t n_rows = 0;
+    infile.read(reinterpret_cast<char*>(&n_rows), sizeof(size_t));
+    N_ = n_rows;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-- 
2.43.0


From fbb74f76d9c50c0b2e1be1b858446f90024dc13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/87] fix: index_adjacency::serialize compiles

It is const but called the non-const serialize of the compressed base.
---
 include/nwgraph/containers/compressed.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 9a47780..1f5e51f 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -298,7 +298,7 @@ public:    // fixme
     }
   }
 
-  void serialize(std::ostream& outfile) {
+  void serialize(std::ostream& outfile) const {
     size_t el_size = sizeof(indices_[0]);
     size_t st_size = indices_.size();
 
@@ -308,11 +308,11 @@ public:    // fixme
 
     outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    outfile.write(reinterpret_cast<const char*>(indices_.data()), st_size * el_size);
     to_be_indexed_.serialize(outfile);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
-- 
2.43.0


From 19f614119930690a387e8afb74231e148d944b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 09/87] fix: struct_of_arrays of different lengths are not
 equal

operator== compared a prefix only, and read past the end of a shorter
right-hand side.
---
 include/nwgraph/containers/soa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..b27f8f4 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -334,7 +334,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   bool operator==(struct_of_arrays& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From d375068277ade19b67570e697e71e3cec4178044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 10/87] fix: honor the vertex count and direction given when
 filling an adjacency

adjacency(N, el) with N > num_vertices(el) read past the row index (it was
cut back to the edge list's vertex count), and filling a directed adjacency
from an edge list of undirected type counted both end points of every edge
while storing each edge once.
---
 include/nwgraph/adjacency.hpp | 6 ++++--
 include/nwgraph/build.hpp     | 9 ++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..3937e51 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -113,7 +113,8 @@ public:
                   ExecutionPolicy&& policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
-    fill<idx>(A, *this, sort_adjacency, policy);
+    fill_directed<idx>(A, N, *this, policy);
+    if (sort_adjacency) base::sort_to_be_indexed();
   }
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   index_adjacency(size_t N,
@@ -123,7 +124,8 @@ public:
                   ExecutionPolicy&& policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(N), base(N) {
-    fill<idx>(A, *this, sort_adjacency, policy);
+    fill_undirected<idx>(A, N, *this, policy);
+    if (sort_adjacency) base::sort_to_be_indexed();
   }
   // customized move constructor
   index_adjacency(std::vector<vertex_id>&& indices,
diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b9125f2..0a5eb5d 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -209,7 +209,14 @@ void fill_helper_tmp(edge_list_t& el, adjacency_t& cs, std::index_sequence<Is...
 template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t, class Int, class ExecutionPolicy = default_execution_policy>
 void fill_directed(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&& policy = {}) {
 
-  auto degree = degrees<idx>(el);
+  std::vector<nw::graph::vertex_id_t<adjacency_t>> degree;
+  if constexpr (edge_list_t::edge_directedness == directedness::directed) {
+    degree = degrees<idx>(el);
+  } else {    // degrees() counts both end points of the edges of an undirected edge list
+    degree.resize(N);
+    for (auto&& i : std::get<idx>(dynamic_cast<typename edge_list_t::base&>(el))) ++degree[i];
+  }
+  degree.resize(N);    // there may be isolated vertices past the last one that has an edge
 
   cs.indices_.resize(N + 1);
   cs.indices_[0] = 0;
-- 
2.43.0


From 9e9172c584f034040b50a36720e891e745d1d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 11/87] fix: make_adjacency with a vertex count compiles and
 honors its direction

---
 include/nwgraph/adjacency.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 3937e51..dbd831b 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -187,7 +187,11 @@ auto make_adjacency(edge_list_t& el) {
 template <int idx, edge_list_c edge_list_t, std::unsigned_integral u_integral, class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
 auto make_adjacency(edge_list_t& el, u_integral n, directedness edge_directedness = directedness::directed, ExecutionPolicy&& policy = {}) {
   adjacency<idx> adj(n);
-  fill<idx>(el, adj, edge_directedness, policy);
+  if (edge_directedness == directedness::directed) {
+    fill_directed<idx>(el, n, adj, policy);
+  } else {
+    fill_undirected<idx>(el, n, adj, policy);
+  }
   return adj;
 }
 
-- 
2.43.0


From 0c747dae00c5c888237e1b25b9e5e43b1423cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 12/87] fix: bfs_v1 and bfs_v2 give every worker a queue of its
 own

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..482883e 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -473,7 +473,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   const std::size_t                                   N = num_vertices(out_graph);
   const std::size_t                                   M = out_graph.to_be_indexed_.size();
   Vector queue;
-  std::vector<Vector> lqueue(n);
+  // indexed by worker, and there can be more workers than bins
+  std::vector<Vector> lqueue(std::max<std::size_t>(n, tbb::this_task_arena::max_concurrency()));
 
   std::vector<vertex_id_type> parents(N);
 
@@ -571,7 +572,8 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::fill(std::execution::par_unseq, parents.begin(), parents.end(), null_vertex);
   parents[root] = root;
   Vector frontier;
-  std::vector<Vector> nextfrontier(n);
+  // indexed by worker, and there can be more workers than bins
+  std::vector<Vector> nextfrontier(std::max<std::size_t>(n, tbb::this_task_arena::max_concurrency()));
   frontier.reserve(N);
   frontier.push_back(root);
   nw::graph::AtomicBitVector front(N, false), cur(N);
-- 
2.43.0


From f5901c5599dcd4fe009965dd3f4862225c8eb705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 13/87] fix: bfs_v2 starts from a cleared frontier bitmap

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 482883e..43671f7 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -576,7 +576,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(std::max<std::size_t>(n, tbb::this_task_arena::max_concurrency()));
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From bdf25efef76d339b6a2f1e672b0d773376380c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 14/87] fix: connected components label and verify exactly the
 vertices of the graph

---
 include/nwgraph/algorithms/connected_components.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..c658180 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,7 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
-- 
2.43.0


From 16c9ae59d7138a29e33d70f1aa99fa108d18ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 15/87] fix: label propagation gives every worker a frontier of
 its own

---
 .../experimental/algorithms/connected_components.hpp      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5f658a3..488182a 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -316,7 +316,9 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
-  std::vector<T> frontier[num_bins];
+  // indexed by worker, and there can be more workers than bins
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
+  std::vector<std::vector<T>> frontier(num_bins);
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(tbb::blocked_range<T>(0ul, cur.size()), [&](tbb::blocked_range<T>& r) {
       int worker_index = tbb::this_task_arena::current_thread_index();
@@ -379,7 +381,9 @@ std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
-  std::vector<T> frontier[num_bins];
+  // indexed by worker, and there can be more workers than bins
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());
+  std::vector<std::vector<T>> frontier(num_bins);
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(cyclic_neighbor_range(g, num_bins), [&](auto& i) {
       int worker_index = tbb::this_task_arena::current_thread_index();
-- 
2.43.0


From 05658724ed7d9bbaf7c4f07c93960ed4b84d3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 16/87] fix: compute_connected_components_v1 hooks only roots
 and flattens every label

---
 .../algorithms/connected_components.hpp          | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 488182a..5b00131 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -237,24 +237,22 @@ std::vector<T> compute_connected_components_v1(const Graph& g) {
           auto high   = std::max(p1, p2);
           auto low    = p1 + p2 - high;
           auto p_high = comp[high]._a.load();
-          if (p_high == low || comp[high]._a.compare_exchange_weak(p_high, comp[low]._a)) {
+          if (p_high == low) break;
+          // only a root may be hooked, otherwise the link it already has is lost
+          if (p_high == high && comp[high]._a.compare_exchange_strong(p_high, low)) {
             change = true;
             break;
           }
-          high = comp[high]._a.load();
-          p1   = comp[high]._a.load();
-          p2   = comp[low]._a.load();
+          p1 = comp[comp[high]._a.load()]._a.load();
+          p2 = comp[low]._a.load();
         }    // while
       }
     });
   }
   std::vector<T> res(N);
   std::for_each(std::execution::par_unseq, counting_iterator<T>(0), counting_iterator<T>(N), [&](auto n) {
-    auto m = n;
-    //    while (comp[m]._a.load() != m)  m = comp[m]._a.load();
-    while (comp[m]._a.load() != comp[comp[m]._a.load()]._a.load()) {
-      comp[m]._a.store(comp[comp[m]._a.load()]._a.load());
-      m = comp[m]._a.load();
+    while (comp[n]._a.load() != comp[comp[n]._a.load()]._a.load()) {
+      comp[n]._a.store(comp[comp[n]._a.load()]._a.load());
     }
     res[n] = comp[n]._a.load();
     // std::cout << n <<":" <<  res[n] << std::endl;
-- 
2.43.0


From 0138b81a8ea5b94ebdadec4069bcdb167d05a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 17/87] fix: compute_connected_components labels the vertices
 it reaches, one search at a time

---
 .../algorithms/connected_components.hpp         | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5b00131..7b14c76 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -71,19 +71,16 @@ struct atomwrapper {
 template <adjacency_list_graph Graph, typename T>
 void compute_connected_components(Graph& A, std::vector<T>& component_ids) {
   size_t         N                        = A.size();
-  std::atomic<T> global_component_counter = -1;
-  std::for_each(std::execution::par_unseq, counting_iterator<T>(0), counting_iterator<T>(N), [&](auto vtx) {
+  T              global_component_counter = -1;
+  // searches started concurrently in one component would each give it a label, so start one at a time
+  std::for_each(counting_iterator<T>(0), counting_iterator<T>(N), [&](auto vtx) {
     if (std::numeric_limits<T>::max() == component_ids[vtx]) {
-      global_component_counter++;
-      component_ids[vtx] = global_component_counter.load();
-      //      std::cout << "--------vertex--------------" << vtx << "
-      //      component_ids[vtx]: " << component_ids[vtx] << std::endl;
+      ++global_component_counter;
+      component_ids[vtx] = global_component_counter;
       bfs_edge_range3 ranges(A, vtx);
       for (auto ite = ranges.begin(); ite != ranges.end(); ++ite) {
-        // auto u = std::get<0>(*ite);
-        auto v = target(A, *ite);
-        //auto v           = std::get<1>(*ite);
-        component_ids[v] = global_component_counter.load();
+        auto v           = std::get<1>(*ite);
+        component_ids[v] = global_component_counter;
       }
     }
   });
-- 
2.43.0


From ed416dd69672d606be32e1ea71d2e4da5065b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 18/87] fix: dijkstra initialises distances with the largest
 distance

---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From e9c3642823134167ad412c876fee9cdabc5ad547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 19/87] fix: delta_stepping_m1 visits its whole frontier

---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..0c8a39c 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From 91effd649893cbdcc776cba70c40a32ab0bd5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:07 +0000
Subject: [PATCH 20/87] fix: delta_stepping does not read an unset flag

---
 include/nwgraph/algorithms/delta_stepping.hpp              | 2 +-
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 0c8a39c..12d21cb 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From 7c518f652d254c17d0fbfeaee476aeb6b643512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 21/87] fix: delta_stepping_v8 adds bins under a lock

---
 .../experimental/algorithms/delta_stepping.hpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 194faf3..c770a80 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -90,7 +90,9 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     Weight weight = [](auto& e) -> auto& { return std::get<1>(e); }) {
   Id                                                 N = num_vertices(graph);
   std::vector<std::atomic<distance_t>>               tdist(N);
-  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(1);
+  tbb::queuing_mutex                                 lock;
+  std::atomic<std::size_t>                           size = 1;
+  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(size);
   std::size_t                                        top_bin = 0;
   for (auto&& d : tdist) {
     d = std::numeric_limits<distance_t>::max();
@@ -112,9 +114,14 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
       }
       if (changed_dist) {
         std::size_t dest_bin = new_distance / delta;
-        // if (dest_bin >= bins.size()) {
-        bins.grow_to_at_least(dest_bin + 1);
-        // }
+        // the bins another thread is adding may not be constructed yet
+        if (nw::graph::acquire(size) < dest_bin + 1) {
+          tbb::queuing_mutex::scoped_lock _(lock);
+          if (nw::graph::acquire(size) < dest_bin + 1) {
+            bins.grow_to_at_least(dest_bin + 1);
+            nw::graph::release(size, dest_bin + 1);
+          }
+        }
         bins[dest_bin].push_back(j);
       }
     }
-- 
2.43.0


From e0e208a7252501af018b3724498595fb3ff21a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 22/87] fix: delta stepping tells stale vertices by their bin,
 whatever the rounding

---
 include/nwgraph/algorithms/delta_stepping.hpp          |  4 ++--
 .../nwgraph/experimental/algorithms/delta_stepping.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 12d21cb..4d6180e 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -137,7 +137,7 @@ auto delta_stepping(
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j  = target(graph, elt);
           auto&& wt = weight(elt);
@@ -211,7 +211,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& u) {
-      if (tdist[u] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[u] / delta) >= top_bin) {
         nw::graph::parallel_for(graph[u], [&](auto&& v, auto&& wt) { relax(u, v, wt); });
       }
     });
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index c770a80..1d0eac6 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -71,7 +71,7 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) { std::apply([&](Id j, auto wt) { relax(i, j, wt); }, std::move(elt)); });
       }
     });
@@ -135,7 +135,7 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(std::execution::par_unseq, frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(std::execution::par_unseq, graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -195,7 +195,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         for (auto&& elt : graph[i]) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -256,7 +256,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           for (auto&& elt : graph[i]) {
             auto&& j = target(graph, elt);
             auto&& wt = weight(elt);
@@ -318,7 +318,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           tbb::parallel_for(graph[i], [&](auto&& range) {
             for (auto&& elt : range) {
               auto&& j = target(graph, elt);
-- 
2.43.0


From 73657ca3a387408aa120c223517acbdf0bc2fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 23/87] fix: delta_stepping_v6 relaxes an edge under a lock

---
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 1d0eac6..c1cb19e 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -44,6 +44,7 @@ namespace graph {
 // Inspired by gapbs implementation
 template <class distance_t, adjacency_list_graph Graph, class Id, class T>
 auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
+  tbb::queuing_mutex                                 lock;
   tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(1);
   std::size_t                                        top_bin = 0;
 
@@ -54,6 +55,8 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
   tdist[source] = 0;
 
   auto relax = [&](Id i, Id j, auto wt) {
+    // the distances and the bins are shared by every worker
+    tbb::queuing_mutex::scoped_lock _(lock);
     auto new_distance = tdist[i] + wt;
     if (new_distance < tdist[j]) {
       tdist[j]        = new_distance;
-- 
2.43.0


From f764802eb9736417dde8f70b87d7369e8e7eed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 24/87] fix: brandes_bc over sources compiles for any score
 type

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index d065758..c2168b2 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -319,7 +319,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
   }
 
   if (normalize) {
-    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), 0.0f, nw::graph::max{});
+    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), score_t(0), nw::graph::max{});
     std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
   }
   return bc;
-- 
2.43.0


From e7548dc85d0dcee2310b107bf2e544911811665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:56 +0000
Subject: [PATCH 25/87] fix: brandes_bc over sources divides path counts as
 scores

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index c2168b2..ef0cca7 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -303,7 +303,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                 for (auto&& elt : graph[u]) {
                   auto&& v = target(graph, elt);
                   if (succ.get(&v - &edges)) {
-                    delta += path_counts[u] / path_counts[v] * (1.0f + deltas[v]);
+                    delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1.0f + deltas[v]);
                   }
                 }
                 nw::graph::fetch_add(bc[u], deltas[u] = delta);
-- 
2.43.0


From 236f8bd2d1346aef5bbc487d740dfce553749ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 26/87] fix: bc2_v2 adds path counts atomically

---
 .../experimental/algorithms/betweenness_centrality.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
index b5188f6..8a54845 100644
--- a/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/experimental/algorithms/betweenness_centrality.hpp
@@ -1376,7 +1376,7 @@ auto bc2_v2(const Graph& graph, const std::vector<typename Graph::vertex_id_type
 
     std::fill(policy, depths.begin(), depths.end(), std::numeric_limits<vertex_id_type>::max());
 
-    std::vector<accum_t> path_counts(N, 0);
+    std::vector<std::atomic<accum_t>> path_counts(N);
 
     std::vector<tbb::concurrent_vector<vertex_id_type>> P(N);
     std::vector<tbb::concurrent_vector<vertex_id_type>> S(2);
@@ -1404,7 +1404,7 @@ auto bc2_v2(const Graph& graph, const std::vector<typename Graph::vertex_id_type
               ++count;
             }
             if (depths[w] == depth) {
-              path_counts[w] += path_counts[v];
+              nw::graph::fetch_add(path_counts[w], nw::graph::acquire(path_counts[v]));
               P[w].push_back(v);
             }
           }
-- 
2.43.0


From 6b155b4543ac3ff3d7fc3ab602e2703c8b658e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 27/87] fix: kruskal sizes its forest by the number of
 vertices, not of edges

---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From 8f1ec04db658ab015a16ba14aa2e49d4e9bf6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 28/87] fix: prim compiles, starts at the source and finishes
 each vertex

---
 include/nwgraph/algorithms/prim.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/prim.hpp b/include/nwgraph/algorithms/prim.hpp
index c01800f..d5c0146 100644
--- a/include/nwgraph/algorithms/prim.hpp
+++ b/include/nwgraph/algorithms/prim.hpp
@@ -19,6 +19,12 @@
 #include "nwgraph/graph_traits.hpp"
 #include "nwgraph/edge_list.hpp"
 
+#include <algorithm>
+#include <cassert>
+#include <functional>
+#include <limits>
+#include <queue>
+#include <tuple>
 #include <vector>
 
 namespace nw {
@@ -43,31 +49,33 @@ std::vector<vertex_id_t<Graph>> prim(const Graph& graph, vertex_id_t<Graph> sour
   assert(source < N);
 
   std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
-  std::vector<Distance> predecessor(N, std::numeric_limits<Distance>::max());
+  std::vector<vertex_id_type> predecessor(N, std::numeric_limits<vertex_id_type>::max());
   std::vector<uint8_t> finished(N, false);
   distance[source] = 0;
 
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
+  Q.push({ distance[source], source });
 
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     if (finished[u]) {
       continue;
     }
+    finished[u] = true;
 
-    std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
+    std::for_each(graph[u].begin(), graph[u].end(), [&](auto&& e) {
       auto v = target(graph, e);
       auto w = weight(e);
 
       if (!finished[v] && distance[v] > w) {
 	distance[v] = w;
-	Q.push({ v, distance[v] });
+	Q.push({ distance[v], v });
 	predecessor[v] = u;
       }
     });
-- 
2.43.0


From bd9673def1ada62d0a825226e910f83e83a6fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 29/87] fix: jones_plassmann_coloring colors every vertex, not
 one independent set

---
 .../algorithms/jones_plassmann_coloring.hpp   | 51 ++++---------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
index e192f1a..3318bf0 100644
--- a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
+++ b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
@@ -36,48 +36,19 @@ namespace graph {
 template <adjacency_list_graph Graph>
 void jones_plassmann_coloring(Graph& A, std::vector<size_t>& colors) {
   size_t N = num_vertices(A);
-  //init every nodes' color to 0
-  std::fill(colors.begin(), colors.end(), 0);
-
-  //find the maximal independent set
-  std::vector<size_t> independentSet;
-  maximal_independent_set(A, independentSet);
-
-  // Function for finding the first
-  // missing positive number in an (unsorted) array
-  auto firstMissingPositive = []<typename T>(std::vector<T> arr) -> T {
-    size_t n = arr.size();
-    // Loop to traverse the whole array
-    for (size_t i = 0; i < n; ++i) {
-      // Loop to check boundary
-      // condition and for swapping
-      while (1 <= arr[i] && arr[i] <= n && arr[i] != arr[arr[i] - 1]) {
-        std::swap(arr[i], arr[arr[i] - 1]);
-      }
-    }
-
-    // Checking any element which
-    // is not equal to i+1
-    for (size_t i = 0; i < n; ++i) {
-      if (arr[i] != i + 1) {
-        return i + 1;
+  //every round colors a maximal independent set of the vertices without a color
+  std::vector<bool> colored(N);
+  for (size_t color = 0, left = N; left > 0; ++color) {
+    std::vector<bool> blocked(colored);
+    for (size_t u = 0; u < N; ++u) {
+      if (blocked[u]) continue;
+      colors[u]  = color;
+      colored[u] = true;
+      --left;
+      for (auto it = A[u].begin(); it != A[u].end(); ++it) {
+        blocked[target(A, *it)] = true;
       }
     }
-
-    // Nothing is present return last index
-    return n + 1;
-  };
-
-  //calculate colors based on the maximal independent set
-  std::vector<std::vector<size_t>> neighbor_colors(N);
-  for (auto& u : independentSet) {
-    //memorize colors of every independent vertex's neighbors
-    for (auto it = A[u].begin(); it != A[u].end(); ++it) {
-      auto v = std::get<0>(*it);
-      neighbor_colors[u].push_back(colors[v]);
-    }
-    //find the first unused color within every independent vertex's neighbors
-    colors[u] = firstMissingPositive(neighbor_colors[u]);
   }
 }
 
-- 
2.43.0


From ef4a4250dc3a104ee39dca72f84b0db1a72c1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:35 +0000
Subject: [PATCH 30/87] fix: dag_based_mis does not depend on the initial
 contents of its result

---
 include/nwgraph/algorithms/dag_based_mis.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/algorithms/dag_based_mis.hpp b/include/nwgraph/algorithms/dag_based_mis.hpp
index 2869a13..13893f1 100644
--- a/include/nwgraph/algorithms/dag_based_mis.hpp
+++ b/include/nwgraph/algorithms/dag_based_mis.hpp
@@ -75,6 +75,9 @@ void dag_based_mis(Graph& A, std::vector<bool>& mis) {
     }
   }
 
+  /*A vertex is in the set unless a predecessor is*/
+  mis.assign(N, true);
+
   for (uint64_t vtx = 0; vtx < N; vtx++) {
     /*Set the color of the roots to be zero.*/
     if (predecessor_list[vtx].size() == 0) {
-- 
2.43.0


From e0927f7615ed752b51f171bb4456d073cf48ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 31/87] fix: struct_of_arrays and zipped iterators can be
 post-incremented

---
 include/nwgraph/containers/soa.hpp | 4 ++--
 include/nwgraph/containers/zip.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index b27f8f4..b4d4a03 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -98,10 +98,10 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0ff909e..0237962 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -102,10 +102,10 @@ struct zipped : std::tuple<Ranges&...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From bd2653f7a92b3a7f55d164debff9d54a743d4d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 32/87] fix: outer iterators of a compressed container can be
 post-incremented

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 1f5e51f..38c3ada 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -135,7 +135,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator++(int) const {
+    my_outer_iterator operator++(int) {
       my_outer_iterator tmp(*this);
       ++i_;
       return tmp;
@@ -147,7 +147,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator--(int) const {
+    my_outer_iterator operator--(int) {
       my_outer_iterator tmp(*this);
       --i_;
       return tmp;
-- 
2.43.0


From b8e8b286f7c533ee17af8b6a969327014764e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 33/87] fix: edge_range iterators can be post-incremented

---
 include/nwgraph/adaptors/edge_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 14492df..a452cff 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -141,7 +141,7 @@ public:
       return *this;
     }
 
-    my_iterator operator++(int) const {
+    my_iterator operator++(int) {
       my_iterator it = *this;
       ++(*this);
       return it;
-- 
2.43.0


From f7b44ebf9e0df38f1a0c8892bb0ec90cdabf449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 34/87] fix: edge_range iterators at different edges of a row
 are not equal

---
 include/nwgraph/adaptors/edge_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index a452cff..75d5aae 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -126,7 +126,7 @@ public:
     }
 
     friend bool operator==(const my_iterator& a, const my_iterator& b) {
-      return a.first_ == b.first_;
+      return a.first_ == b.first_ && (a.first_ == a.last_ || a.u_begin_ == b.u_begin_);
     }
 
     friend auto operator<=>(const my_iterator& a, const my_iterator& b) {
-- 
2.43.0


From 8fc67f6e0c579963d954afb4562cecfec6742d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 35/87] fix: struct_of_arrays::move takes a tuple of vectors

---
 include/nwgraph/containers/soa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index b4d4a03..5b12a3f 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -229,7 +229,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   void move(std::tuple<std::vector<Attributes>...>&& attrs) {
-    std::apply([&](Attributes&&... attr) { move(attr...); }, attrs);
+    std::apply([&](std::vector<Attributes>&... attr) { move(std::move(attr)...); }, attrs);
   }
 
   void copy(const std::vector<Attributes>&... attrs) {
-- 
2.43.0


From 5f6da2ca3f66a8cee6f9aedde8abf190556d2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 36/87] fix: array_of_structs and zipped of different lengths
 are not equal

---
 include/nwgraph/containers/aos.hpp | 2 +-
 include/nwgraph/containers/zip.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/aos.hpp b/include/nwgraph/containers/aos.hpp
index 2c1dc92..114ace3 100644
--- a/include/nwgraph/containers/aos.hpp
+++ b/include/nwgraph/containers/aos.hpp
@@ -78,7 +78,7 @@ public:
   void push_back(const std::tuple<Attributes&...>& attrs) { base::push_back(attrs); }
   void push_back(const Attributes&... attrs) { base::push_back({attrs...}); }
 
-  bool operator==(array_of_structs& a) { return std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
+  bool operator==(array_of_structs& a) { return base::size() == a.size() && std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
   bool operator!=(const storage_type& a) { return !operator==(a); }
 
   template <size_t... Is>
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0237962..b353b16 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -297,7 +297,7 @@ struct zipped : std::tuple<Ranges&...> {
   }
 
   bool operator==(zipped& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From a3a405eff8c3e3e92a27e1830c545474a7c1557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:49 +0000
Subject: [PATCH 37/87] fix: refuse unsupported Matrix Market files with an
 exception instead of terminating

---
 include/nwgraph/io/mmio.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 430aba4..2a1b2e2 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -23,6 +23,7 @@
 #include <future>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -181,16 +182,14 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -230,16 +229,14 @@ edge_list_t read_mm(const std::string& filename) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -254,14 +251,12 @@ edge_list_t read_mm(const std::string& filename) {
     //mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
 
     //return A;
-    std::cerr << "Can not populate unipartite graph with symmetric matrix" << std::endl;
-    throw;
+    throw std::runtime_error("Can not populate unipartite graph with symmetric matrix");
   }
   else if (n0 != n1 && false == is_unipartite<edge_list_t>::value){
     //bipartite edge list
     if (file_symmetry) {
-      std::cerr << "Can not populate bipartite graph with symmetric matrix" << std::endl;
-      throw;
+      throw std::runtime_error("Can not populate bipartite graph with symmetric matrix");
     }
     bi_edge_list<sym, Attributes...> A(n0, n1);
     mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
@@ -269,8 +264,7 @@ edge_list_t read_mm(const std::string& filename) {
     return A;
   }
   else {
-    std::cerr << "Mismatch edge list type with matrix symmetry" << std::endl;
-    throw;    
+    throw std::runtime_error("Mismatch edge list type with matrix symmetry");
   }
 }
 
@@ -289,16 +283,14 @@ auto read_mm_vector(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -364,8 +356,7 @@ directedness get_mm_symmetry(const std::string& filename) {
   }
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format: " << header[0] << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format: " + header[0]);
   }
   if (header[4] == "symmetric") {
     return directedness::undirected;
-- 
2.43.0


From 790ec7ea4f38268fa1d99e933a88a799fa188348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 38/87] fix: refuse truncated or malformed Matrix Market
 entries instead of reading uninitialised values

---
 include/nwgraph/io/mmio.hpp | 92 ++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 2a1b2e2..c00b8f6 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -39,15 +39,29 @@
 namespace nw {
 namespace graph {
 
+// Read the next line that is not blank.
+inline bool mm_line(std::istream& inputStream, std::string& buffer) {
+  while (std::getline(inputStream, buffer)) {
+    if (buffer.find_first_not_of(" \t\r") != std::string::npos) return true;
+  }
+  return false;
+}
+
+// Read one entry, with its 1-based indices and possibly a value.
+template <typename... T>
+void mm_entry(std::istream& inputStream, size_t& d0, size_t& d1, T&... v) {
+  std::string buffer;
+  if (!mm_line(inputStream, buffer) || !((std::stringstream(buffer) >> d0 >> d1) >> ... >> v) || 0 == d0 || 0 == d1) {
+    throw std::runtime_error("Missing or malformed entry");
+  }
+}
+
 void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed>& A, size_t nNonzeros, bool file_symmetry, bool pattern) {
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-
-    std::getline(inputStream, buffer);
-    std::stringstream(buffer) >> d0 >> d1;
+    size_t d0, d1;
+    mm_entry(inputStream, d0, d1);
 
     A.push_back(d0-1, d1-1);
 
@@ -64,15 +78,13 @@ void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed, T>&
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
+    size_t d0, d1;
+    T      v(1.0);
 
-    std::getline(inputStream, buffer);
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_entry(inputStream, d0, d1, v);
     }
 
     A.push_back(d0-1, d1-1, v);
@@ -88,11 +100,8 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed>& A, si
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-
-    std::getline(inputStream, buffer);
-    std::stringstream(buffer) >> d0 >> d1;
+    size_t d0, d1;
+    mm_entry(inputStream, d0, d1);
 
     A.push_back(d0-1, d1-1);
 
@@ -109,15 +118,13 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed, T>& A,
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
+    size_t d0, d1;
+    T      v(1.0);
 
-    std::getline(inputStream, buffer);
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_entry(inputStream, d0, d1, v);
     }
 
     A.push_back(d0-1, d1-1, v);
@@ -136,13 +143,7 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected>& A,
 
   for (size_t i = 0; i < nNonzeros; ++i) {
     size_t d0, d1;
-    double d2;
-
-    if (pattern) {
-      inputStream >> d0 >> d1;
-    } else {
-      inputStream >> d0 >> d1 >> d2;
-    }
+    mm_entry(inputStream, d0, d1);
 
     A.push_back(d0-1, d1-1);
   }
@@ -155,14 +156,13 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected, T>&
   A.reserve(nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
-    std::string buffer;
-    size_t      d0, d1;
-    T           v(1.0);
-    std::getline(inputStream, buffer);
+    size_t d0, d1;
+    T      v(1.0);
+
     if (pattern) {
-      std::stringstream(buffer) >> d0 >> d1;
+      mm_entry(inputStream, d0, d1);
     } else {
-      std::stringstream(buffer) >> d0 >> d1 >> v;
+      mm_entry(inputStream, d0, d1, v);
     }
     A.push_back(d0-1, d1-1, v);
   }
@@ -192,11 +192,13 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (mm_line(inputStream, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  if (!(std::stringstream(string_input) >> n0 >> n1 >> nNonzeros)) {
+    throw std::runtime_error("Missing or malformed size line");
+  }
 
   // assert(n0 == n1);
 
@@ -239,11 +241,13 @@ edge_list_t read_mm(const std::string& filename) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (mm_line(inputStream, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  if (!(std::stringstream(string_input) >> n0 >> n1 >> nNonzeros)) {
+    throw std::runtime_error("Missing or malformed size line");
+  }
 
   if (n0 == n1 && is_unipartite<edge_list_t>::value) {
     //unipartite edge list
@@ -293,11 +297,13 @@ auto read_mm_vector(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (mm_line(inputStream, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1;
-  std::stringstream(string_input) >> n0 >> n1;
+  if (!(std::stringstream(string_input) >> n0 >> n1)) {
+    throw std::runtime_error("Missing or malformed size line");
+  }
 
   assert(1 == n1);
 
@@ -306,13 +312,13 @@ auto read_mm_vector(std::istream& inputStream) {
   if (header[3] == "real") {
     double d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) throw std::runtime_error("Missing or malformed entry");
       vec[i] = d - 1;
     }
   } else {
     size_t d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) throw std::runtime_error("Missing or malformed entry");
       vec[i] = d - 1;
     }
   }
-- 
2.43.0


From cd7a6a72468f407be4b2b3b0cddfa7d6259f05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 39/87] fix: write floating point Matrix Market values with
 enough digits to read them back

---
 include/nwgraph/io/mmio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index c00b8f6..686ad1c 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -411,6 +411,7 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   aos_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 
@@ -443,6 +444,7 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 
@@ -475,6 +477,7 @@ void write_mm(const std::string& filename, biadjacency<idx, Attributes...>& A, c
     w_type = "real";
 
   std::ofstream outputStream(filename);
+  if constexpr (std::is_floating_point<idxtype>::value) outputStream.precision(std::numeric_limits<idxtype>::max_digits10);
   adjacency_stream<w_idx>(outputStream, A, file_symmetry, w_type);
 }
 #if 0
-- 
2.43.0


From 47daa99f7f8c540bf9fea0f0710bf282900ca00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 40/87] fix: write_mm of an adjacency: 1-based entries for
 index 1, lower triangle for symmetric files

---
 include/nwgraph/io/mmio.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 686ad1c..9002337 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -419,12 +419,23 @@ template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
-  outputStream << num_vertices(A) << " " << num_vertices(A) << " "
-               << std::accumulate(A.begin(), A.end(), 0, [&](int a, auto b) { return a + (int)(b.end() - b.begin()); }) << std::endl;
+  // the rows of an adjacency<1> are the columns of the matrix, and a symmetric file holds only the lower triangle
+  auto entry = [](size_t i, size_t j) { return 0 == idx ? std::pair(i, j) : std::pair(j, i); };
+  auto keep  = [&](auto&& e) { return file_symmetry != "symmetric" || e.second <= e.first; };
+
+  size_t count = 0;
+  for (auto first = A.begin(); first != A.end(); ++first) {
+    for (auto v = (*first).begin(); v != (*first).end(); ++v) {
+      count += keep(entry(first - A.begin(), std::get<0>(*v)));
+    }
+  }
+  outputStream << num_vertices(A) << " " << num_vertices(A) << " " << count << std::endl;
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      auto e = entry(first - A.begin(), std::get<0>(*v));
+      if (!keep(e)) continue;
+      outputStream << e.first + 1 << " " << e.second + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
@@ -457,7 +468,9 @@ void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes..
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      size_t i = first - A.begin(), j = std::get<0>(*v);
+      if (1 == idx) std::swap(i, j);    // the rows of a biadjacency<1> are the columns of the matrix
+      outputStream << i + 1 << " " << j + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
-- 
2.43.0


From 288078107ef13f9105eb244e3f16d4beafd5730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 41/87] fix: MatrixMarketFile reads several values of an entry
 from left to right

---
 include/nwgraph/io/MatrixMarketFile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 73554d6..0e39414 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -155,7 +155,7 @@ public:
       const char* i = i_;
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
-      return std::tuple(u, v, get<Vs>(i)...);
+      return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};    // braces: read from left to right
     }
 
     iterator& operator++() {
-- 
2.43.0


From cd5d38d44b9f555b97011eb534436e62caaccb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 42/87] fix: MatrixMarketFile closes the stream it read the
 header with

---
 include/nwgraph/io/MatrixMarketFile.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 0e39414..f9678fa 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -85,6 +85,9 @@ public:
     fseek(f, 0L, SEEK_END);
     e_ = ftell(f);
 
+    fd_ = dup(fd_);
+    fclose(f);
+
     base_ = static_cast<char*>(mmap(nullptr, e_, PROT_READ, MAP_PRIVATE, fd_, 0));
     if (base_ == MAP_FAILED) {
       fprintf(stderr, "mmap failed, %d: %s\n", errno, strerror(errno));
-- 
2.43.0


From 1e9b3181bc6f877eff183b1b25ca0bc6ed866ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 43/87] fix: MatrixMarketFile does not read past the end of a
 file without a final newline

---
 include/nwgraph/io/MatrixMarketFile.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index f9678fa..8267c02 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -88,8 +88,10 @@ public:
     fd_ = dup(fd_);
     fclose(f);
 
-    base_ = static_cast<char*>(mmap(nullptr, e_, PROT_READ, MAP_PRIVATE, fd_, 0));
-    if (base_ == MAP_FAILED) {
+    // Map the file over zeroed pages that are one byte longer, so that the text ends with a 0 even when the file fills its
+    // last page.
+    base_ = static_cast<char*>(mmap(nullptr, e_ + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
+    if (base_ == MAP_FAILED || mmap(base_, e_, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd_, 0) == MAP_FAILED) {
       fprintf(stderr, "mmap failed, %d: %s\n", errno, strerror(errno));
       goto error;
     }
@@ -105,7 +107,7 @@ public:
 
   /// Release the memory mapping and file descriptor early.
   void release() {
-    if (base_ && munmap(base_, e_)) {
+    if (base_ && munmap(base_, e_ + 1)) {
       fprintf(stderr, "munmap failed, %d: %s\n", errno, strerror(errno));
     }
     base_ = nullptr;
@@ -162,7 +164,8 @@ public:
     }
 
     iterator& operator++() {
-      ++(i_ = std::strchr(i_, '\n'));
+      i_ += std::strcspn(i_, "\n");
+      if (*i_ != 0) ++i_;    // the last line may end without a newline
       return *this;
     }
 
-- 
2.43.0


From b2291ad980d9d0ace83abd98d52ada84822d26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 44/87] fix: write_mm of a biadjacency<1> announces the sizes
 of the matrix it writes

---
 include/nwgraph/io/mmio.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 9002337..bfdc422 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -463,13 +463,14 @@ template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
-  outputStream << num_vertices(A, 0) << " " << num_vertices(A, 1) << " "
+  // the rows of a biadjacency<1> are the columns of the matrix
+  outputStream << num_vertices(A, idx) << " " << num_vertices(A, 1 - idx) << " "
                << std::accumulate(A.begin(), A.end(), 0, [&](int a, auto b) { return a + (int)(b.end() - b.begin()); }) << std::endl;
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
       size_t i = first - A.begin(), j = std::get<0>(*v);
-      if (1 == idx) std::swap(i, j);    // the rows of a biadjacency<1> are the columns of the matrix
+      if (1 == idx) std::swap(i, j);
       outputStream << i + 1 << " " << j + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
-- 
2.43.0


From 0c60b6ad7303de9a511bddaeb1015373d753e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 45/87] fix: splitting a vertex_range divides its vertices
 between the two halves

---
 include/nwgraph/adaptors/vertex_range.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..447c090 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -77,6 +77,8 @@ public:
   using difference_type = vertex_id_type;
 
 private:
+  static constexpr size_t cutoff_ = 16;
+
   counting_iterator<vertex_id_type> begin_;
   counting_iterator<vertex_id_type> end_;
 
@@ -87,8 +89,9 @@ public:
   vertex_range(const vertex_range&) = default;
   vertex_range(vertex_range&&)      = default;
 
+  /// Split a range: the new range takes the upper half and leaves the lower half in rhs.
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_ + rhs.size() / 2), end_(rhs.end_) { rhs.end_ = begin_; }
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +100,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > cutoff_; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From 85f880b9d25baa3edfe3d5fb050b05ea97f9db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 46/87] fix: the back edge of a one-way edge is the extra edge
 that back_edge_range lists

---
 include/nwgraph/adaptors/back_edge_range.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/nwgraph/adaptors/back_edge_range.hpp b/include/nwgraph/adaptors/back_edge_range.hpp
index 7264216..964e620 100644
--- a/include/nwgraph/adaptors/back_edge_range.hpp
+++ b/include/nwgraph/adaptors/back_edge_range.hpp
@@ -36,7 +36,7 @@ class back_edge_range {
 
 public:
   back_edge_range(Graph& graph, bool as_needed = false)
-      : the_graph_(graph), back_address(graph.end() - graph.begin()), back_address_extra(graph.end() - graph.begin()),
+      : the_graph_(graph), back_address(graph.end() - graph.begin()),
         address_extra(graph.end() - graph.begin()) {
     if (!as_needed) {
       for (auto outer_it = graph.begin(); outer_it != graph.end(); ++outer_it) {
@@ -57,7 +57,6 @@ public:
           } else {
             edge extra_edge;
             std::get<0>(extra_edge) = end;
-            back_address_extra[end].emplace(std::get<0>(*inner), extra_edge);
             address_extra[std::get<0>(*inner)].emplace(end, extra_edge);
             back_address[std::get<0>(*inner)].emplace(end, *inner);
           }
@@ -179,8 +178,9 @@ public:
     auto it = back_address[vtx].find(vtx2);
     if (it != back_address[vtx].end()) return it->second;
 
-    auto it2 = back_address_extra[vtx].find(vtx2);
-    if (it2 != back_address_extra[vtx].end()) {
+    // The edge that goes back is the extra edge that vtx2 lists
+    auto it2 = address_extra[vtx2].find(vtx);
+    if (it2 != address_extra[vtx2].end()) {
       return ref_tuple(it2->second);
     }
 
@@ -198,7 +198,6 @@ public:
       } else {
         edge extra_edge;
         std::get<0>(extra_edge) = vtx;
-        back_address_extra[vtx].emplace(vtx2, extra_edge);
         address_extra[vtx2].emplace(vtx, extra_edge);
         back_address[vtx2].emplace(vtx, *it);
       }
@@ -208,7 +207,7 @@ public:
     it = back_address[vtx].find(vtx2);
     if (it != back_address[vtx].end()) return it->second;
 
-    it2 = back_address_extra[vtx].find(vtx2);
+    it2 = address_extra[vtx2].find(vtx);
     return ref_tuple(it2->second);
   }
 
@@ -221,7 +220,6 @@ public:
 private:
   Graph&                                   the_graph_;
   std::vector<std::map<size_t, reference>> back_address;
-  std::vector<std::map<size_t, edge>>      back_address_extra;
   std::vector<std::map<size_t, edge>>      address_extra;
 };
 
-- 
2.43.0


From 7299932f47552d6d6e0359994aef626752a15018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 47/87] fix: reverse_path from a vertex to itself is empty, and
 a path can be walked again

---
 include/nwgraph/adaptors/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/reverse.hpp b/include/nwgraph/adaptors/reverse.hpp
index 8bcd2c6..0f29492 100644
--- a/include/nwgraph/adaptors/reverse.hpp
+++ b/include/nwgraph/adaptors/reverse.hpp
@@ -40,7 +40,7 @@ public:
     vertex_id_type curr_;
 
   public:
-    reverse_iterator(reverse_path& rev) : rev_(rev), curr_(rev.start_) {}
+    reverse_iterator(reverse_path& rev) : rev_(rev), curr_(rev.start_) { rev_.done = rev_.found(curr_); }
 
     reverse_iterator& operator++() {
       curr_ = rev_.path_[curr_].predecessor;
-- 
2.43.0


From e0392447eedd8175f3a6df039aae7e7d80559cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 48/87] fix: random_range ends its walk at a vertex without
 neighbours

---
 include/nwgraph/adaptors/random_range.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/adaptors/random_range.hpp b/include/nwgraph/adaptors/random_range.hpp
index 59e203e..db73251 100644
--- a/include/nwgraph/adaptors/random_range.hpp
+++ b/include/nwgraph/adaptors/random_range.hpp
@@ -48,6 +48,10 @@ public:
       typename Graph::inner_iterator u_begin = G[current_vertex].begin();
       typename Graph::inner_iterator u_end   = G[current_vertex].end();
       size_t                         N       = u_end - u_begin;
+      if (N == 0) {    // nowhere to go: the walk ends here
+        length_ = 0;
+        return *this;
+      }
       vertex_id_type                 pick    = std::floor(N * the_range_.dice());
 
       current_vertex = std::get<0>(u_begin[pick]);
-- 
2.43.0


From 84478f3524f2edd8b1874e32c54fb6218bba1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 49/87] fix: edge_range reads the attributes of a const graph

---
 include/nwgraph/adaptors/edge_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 75d5aae..85161f4 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -66,11 +66,11 @@ public:
     using iterator_category = std::forward_iterator_tag;
     using value_type        = std::tuple<
       vertex_id_type, vertex_id_type,
-      typename std::tuple_element_t<Is, std::conditional_t<is_const, const attributes_t<Graph>, attributes_t<Graph>>> ...>;
+      typename std::tuple_element_t<Is, std::conditional_t<is_const || std::is_const_v<Graph>, const attributes_t<Graph>, attributes_t<Graph>>> ...>;
     using difference_type = std::ptrdiff_t;
     using reference       = std::tuple<
         vertex_id_type, vertex_id_type,
-      typename std::tuple_element_t<Is, std::conditional_t<is_const, const attributes_t<Graph>, attributes_t<Graph>>>&...>;
+      typename std::tuple_element_t<Is, std::conditional_t<is_const || std::is_const_v<Graph>, const attributes_t<Graph>, attributes_t<Graph>>>&...>;
     using pointer = arrow_proxy<reference>;
 
   private:
-- 
2.43.0


From 2b865987bf4db5855ec4c22e500eba865f00dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 50/87] fix: iterators of edge, neighbor and plain ranges
 convert to const_iterator

---
 include/nwgraph/adaptors/edge_range.hpp     | 3 +++
 include/nwgraph/adaptors/neighbor_range.hpp | 3 +++
 include/nwgraph/adaptors/plain_range.hpp    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 85161f4..b51b7da 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -74,6 +74,9 @@ public:
     using pointer = arrow_proxy<reference>;
 
   private:
+    template <bool>
+    friend class my_iterator;
+
     graph_iterator       base_;            //!<
     graph_iterator       first_;           //!<
     graph_iterator       last_;            //!<
diff --git a/include/nwgraph/adaptors/neighbor_range.hpp b/include/nwgraph/adaptors/neighbor_range.hpp
index 38e9bac..2098a44 100644
--- a/include/nwgraph/adaptors/neighbor_range.hpp
+++ b/include/nwgraph/adaptors/neighbor_range.hpp
@@ -59,6 +59,9 @@ public:
     using pointer           = value_type*;
 
   private:
+    template <bool>
+    friend class my_iterator;
+
     graph_iterator base_;     //!<
     graph_iterator first_;    //!<
     graph_iterator last_;     //!<
diff --git a/include/nwgraph/adaptors/plain_range.hpp b/include/nwgraph/adaptors/plain_range.hpp
index f49f808..2c36a9d 100644
--- a/include/nwgraph/adaptors/plain_range.hpp
+++ b/include/nwgraph/adaptors/plain_range.hpp
@@ -70,6 +70,9 @@ public:
     using pointer           = value_type*;
 
   private:
+    template <bool>
+    friend class my_iterator;
+
     graph_iterator base_;     //!<
     graph_iterator first_;    //!<
     graph_iterator last_;     //!<
-- 
2.43.0


From 00b0b85ba396c0c83edaaa07f53f0e80112fbb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 51/87] fix: parallel_reduce over a splittable_range_adaptor
 combines results in order

---
 include/nwgraph/adaptors/splittable_range_adaptor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/splittable_range_adaptor.hpp b/include/nwgraph/adaptors/splittable_range_adaptor.hpp
index 75a287a..018e2f1 100644
--- a/include/nwgraph/adaptors/splittable_range_adaptor.hpp
+++ b/include/nwgraph/adaptors/splittable_range_adaptor.hpp
@@ -50,8 +50,9 @@ public:
 
   splittable_range_adaptor(Iterator begin, Iterator end, std::size_t cutoff) : begin_(begin > end ? end : begin), end_(end), cutoff_(cutoff) {}
 
+  // The new range takes the upper half: tbb::parallel_reduce joins its result to the right of rhs's.
   splittable_range_adaptor(splittable_range_adaptor& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.begin_ += rhs.size() / 2), cutoff_(rhs.cutoff_) {}
+      : begin_(rhs.begin_ + rhs.size() / 2), end_(rhs.end_), cutoff_(rhs.cutoff_) { rhs.end_ = begin_; }
 
   // We need the weird ref version to disambiguate the explicit range
   // initializer, which would otherwise get called incorrectly during a tbb
-- 
2.43.0


From 132387c95b28e12ec791e376b1b9808f348f27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 52/87] fix: bfs_edge_range from a vertex without edges to
 others is empty

---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..b9b8a51 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -146,7 +146,13 @@ public:
 
   public:
     bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      // The seed may have no edges, or edges to itself only
+      while (u_begin != u_end && the_range_.visited_[std::get<0>(*u_begin)] == true) {
+        ++u_begin;
+      }
+      if (u_begin == u_end) the_range_.Q_.pop();
+    }
 
     bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
         : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
-- 
2.43.0


From 09c2d3460bdfe39ef4b1da23276dca8c95264931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 53/87] fix: filtered_bfs_edge_range handles a source without
 edges to follow, and copies of its iterator know the target

---
 include/nwgraph/adaptors/filtered_bfs_range.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/adaptors/filtered_bfs_range.hpp b/include/nwgraph/adaptors/filtered_bfs_range.hpp
index bd7617b..93638c9 100644
--- a/include/nwgraph/adaptors/filtered_bfs_range.hpp
+++ b/include/nwgraph/adaptors/filtered_bfs_range.hpp
@@ -57,17 +57,14 @@ public:
         : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()),
           iterator_target_(the_range_.target_), filter_(the_range_.filter_) {
 
-      while (filter_(v_, u_begin)) {
+      while (u_begin != G[v_].end() && (the_range_.colors_[std::get<0>(*u_begin)] != white || filter_(v_, u_begin))) {
         ++u_begin;
-        if (u_begin == G[v_].end()) {
-          the_range_.unreachable = true;
-          break;
-        }
       }
+      if (u_begin == G[v_].end()) the_range_.unreachable = true;
     }
 
     filtered_bfs_edge_range_iterator(const filtered_bfs_edge_range_iterator& ite)
-        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), filter_(ite.filter_) {}
+        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), iterator_target_(ite.iterator_target_), filter_(ite.filter_) {}
 
     filtered_bfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
-- 
2.43.0


From d0c93b78afba01de6b3ea0e9a376b9d1326b133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:06 +0000
Subject: [PATCH 54/87] fix: max_flow can be compiled and used with the
 back_edge_range it is written for

---
 include/nwgraph/adaptors/back_edge_range.hpp | 1 -
 include/nwgraph/algorithms/max_flow.hpp      | 8 ++++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/adaptors/back_edge_range.hpp b/include/nwgraph/adaptors/back_edge_range.hpp
index 964e620..07d5b5a 100644
--- a/include/nwgraph/adaptors/back_edge_range.hpp
+++ b/include/nwgraph/adaptors/back_edge_range.hpp
@@ -134,7 +134,6 @@ public:
 
     auto& operator=(const outer_back_edge_range_iterator& b) {
       G = b.G;
-      the_range_ = b.the_range_;
       return *this;
     }
 
diff --git a/include/nwgraph/algorithms/max_flow.hpp b/include/nwgraph/algorithms/max_flow.hpp
index 8a71a35..3ba2847 100644
--- a/include/nwgraph/algorithms/max_flow.hpp
+++ b/include/nwgraph/algorithms/max_flow.hpp
@@ -46,15 +46,15 @@ auto backedge_property(Edge edge) {
  * 
  * @tparam Dict the dictionary type for max flow
  * @tparam flowtype the type for flow value
- * @tparam Graph adjacency_list_graph graph type
+ * @tparam Graph the type of the range of edges and back edges (back_edge_range)
  * @param A input graph
  * @param source source vertex
  * @param sink sink vertex
  * @param max_iters the maximum number of iterations 
  * @return flowtype the max flow value
  */
-template <typename Dict = default_dict, typename flowtype = double, adjacency_list_graph Graph>
-flowtype max_flow(const Graph& A, vertex_id_type source, vertex_id_type sink, size_t max_iters = DEFAULT_MAX) {
+template <typename Dict = default_dict, typename flowtype = double, typename Graph>
+flowtype max_flow(Graph& A, vertex_id_t<Graph> source, vertex_id_t<Graph> sink, size_t max_iters = DEFAULT_MAX) {
   struct tree_edge {
     flowtype* capacity;
     flowtype* flow;
@@ -67,7 +67,7 @@ flowtype max_flow(const Graph& A, vertex_id_type source, vertex_id_type sink, si
   flowtype               maxflow = 0;
 
   for (size_t i = 0; i <= max_iters; ++i) {
-    auto mf_filter = [&A](vertex_id_type vtx, typename Graph::inner_iterator edge) {
+    auto mf_filter = [&A](vertex_id_t<Graph> vtx, typename Graph::inner_iterator edge) {
       return property<idx(Dict::flow_idx)>(edge) >=
              property<idx(Dict::capacity_idx)>(edge) + backedge_property<idx(Dict::flow_idx)>(A.get_back_edge(vtx, edge));
     };
-- 
2.43.0


From e5080af84ddb19311b3af0a91aaf7fcbcbdc159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:06 +0000
Subject: [PATCH 55/87] fix: max_flow pushes more than 100000 along one path

---
 include/nwgraph/algorithms/max_flow.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/max_flow.hpp b/include/nwgraph/algorithms/max_flow.hpp
index 3ba2847..d7bbb15 100644
--- a/include/nwgraph/algorithms/max_flow.hpp
+++ b/include/nwgraph/algorithms/max_flow.hpp
@@ -21,6 +21,7 @@
 #include "nwgraph/util/util.hpp"
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <tuple>
 
 namespace nw {
@@ -87,7 +88,7 @@ flowtype max_flow(Graph& A, vertex_id_t<Graph> source, vertex_id_t<Graph> sink,
 
     if (!ite.found()) break;
 
-    flowtype min_cap     = 100000;
+    flowtype min_cap     = std::numeric_limits<flowtype>::max();
     size_t   path_length = 0;
     for (auto y : reverse_path(search_tree, sink, source)) {
       min_cap = std::min(min_cap, *(search_tree[std::get<0>(y)].capacity) - *(search_tree[std::get<0>(y)].flow) +
-- 
2.43.0


From d7b97ff6178202c8d707754b5a9edc2254c94f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 56/87] fix: bk_maxflow can be compiled and used with the
 back_edge_range it is written for

---
 .../nwgraph/algorithms/boykov_kolmogorov.hpp  | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/algorithms/boykov_kolmogorov.hpp b/include/nwgraph/algorithms/boykov_kolmogorov.hpp
index df3a801..8451eae 100644
--- a/include/nwgraph/algorithms/boykov_kolmogorov.hpp
+++ b/include/nwgraph/algorithms/boykov_kolmogorov.hpp
@@ -20,6 +20,7 @@
 #include <stack>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 #include "nwgraph/util/util.hpp"
 
@@ -39,13 +40,15 @@ enum class tree_mem : bool { source = false, term = true };
  * @param cap Vector of edge capacities.
  */
 template <typename Graph>
-std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector<double>& cap) {
+std::tuple<double, std::vector<tree_mem>> bk_maxflow(Graph& A, std::vector<double>& cap) {
   // std::clock_t start;
   // double grow = 0;
   // double augment = 0;
   // double adopt = 0;
   using vertex_id_type = vertex_id_t<Graph>;
 
+  constexpr auto null_vertex = null_vertex_v<vertex_id_type>();
+
   size_t         n_vtx    = A.size();
   vertex_id_type source   = n_vtx;
   vertex_id_type terminal = source + 1;
@@ -57,7 +60,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
   std::queue<vertex_id_type>                orphans;
   std::vector<tree_mem>                     tree_id(n_vtx);
   std::vector<std::tuple<double*, double*>> trees(n_vtx);
-  std::vector<vertex_id_type>               preds(n_vtx, null_vertex_v);
+  std::vector<vertex_id_type>               preds(n_vtx, null_vertex);
   std::vector<size_t>                       timestamp(n_vtx);
   std::vector<size_t>                       dist(n_vtx);
 
@@ -92,7 +95,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
       auto p = active.front();
 
       // This node was disconnected, so make it inactive
-      if (preds[p] == null_vertex_v) {
+      if (preds[p] == null_vertex) {
         active.pop();
         continue;
       }
@@ -129,7 +132,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
         }
 
         // q is fresh (does not have a predecessor, not in the tree)
-        if (preds[q] == null_vertex_v) {
+        if (preds[q] == null_vertex) {
           // Assign our tree to q
           tree_id[q] = t;
           // We are the predecessor now
@@ -196,7 +199,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
       if (next == terminal) {
         cap[vtx] += min_cap;
         if (cap[vtx] >= 0) {
-          preds[vtx] = null_vertex_v;
+          preds[vtx] = null_vertex;
           orphans.push(vtx);
         }
       } else {
@@ -204,7 +207,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
         *std::get<0>(edge) -= min_cap;
         *std::get<1>(edge) += min_cap;
         if (*std::get<0>(edge) <= 0) {
-          preds[vtx] = null_vertex_v;
+          preds[vtx] = null_vertex;
           orphans.push(vtx);
         }
       }
@@ -215,7 +218,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
       if (next == source) {
         cap[vtx] -= min_cap;
         if (cap[vtx] <= 0) {
-          preds[vtx] = null_vertex_v;
+          preds[vtx] = null_vertex;
           orphans.push(vtx);
         }
       } else {
@@ -223,7 +226,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
         *std::get<0>(edge) -= min_cap;
         *std::get<1>(edge) += min_cap;
         if (*std::get<0>(edge) <= 0) {
-          preds[vtx] = null_vertex_v;
+          preds[vtx] = null_vertex;
           orphans.push(vtx);
         }
       }
@@ -237,7 +240,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
       orphans.pop();
 
       tree_mem                     t = tree_id[p];
-      vertex_id_type               min_pred{null_vertex_v};
+      vertex_id_type               min_pred{null_vertex};
       size_t                       d_min = INFINITE_D;
       std::tuple<double*, double*> min_edge;
 
@@ -274,7 +277,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
             timestamp[vtx] = gtime;
             dist[vtx]      = 1;
             break;
-          } else if (preds[vtx] == null_vertex_v) {
+          } else if (preds[vtx] == null_vertex) {
             d = INFINITE_D;
             break;
           }
@@ -297,7 +300,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
       }
 
       // can't find new parent
-      if (min_pred == null_vertex_v) {
+      if (min_pred == null_vertex) {
         timestamp[p] = 0;
 
         for (auto it = G[p].begin(); it != G[p].end(); ++it) {
@@ -313,7 +316,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
 
           if (preds[q] == p) {
             orphans.push(q);
-            preds[q] = null_vertex_v;
+            preds[q] = null_vertex;
           }
         }
       }
@@ -334,7 +337,7 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(const Graph& A, std::vector
   // std::cout << path_length*(1.0)/augment_ct << " avg path length" <<
   // std::endl;
   for (size_t i = 0; i < n_vtx; ++i) {
-    if (preds[i] == null_vertex_v) {
+    if (preds[i] == null_vertex) {
       tree_id[i] = tree_mem::term;
     }
   }
-- 
2.43.0


From 8aa5f1718e73426b95d35d85f9fc292dcf06ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 57/87] fix: bk_maxflow reactivates the neighbours that can
 reach an orphan, so that its trees are a minimum cut

---
 include/nwgraph/algorithms/boykov_kolmogorov.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/boykov_kolmogorov.hpp b/include/nwgraph/algorithms/boykov_kolmogorov.hpp
index 8451eae..4e55e55 100644
--- a/include/nwgraph/algorithms/boykov_kolmogorov.hpp
+++ b/include/nwgraph/algorithms/boykov_kolmogorov.hpp
@@ -308,9 +308,10 @@ std::tuple<double, std::vector<tree_mem>> bk_maxflow(Graph& A, std::vector<doubl
 
           if (tree_id[q] != t) continue;
 
-          if (tree_id[q] == tree_mem::source && std::get<1>(*it) > tol) {
+          // q can grow into p again where it has residual capacity towards p (source tree) or from p (term tree)
+          if (tree_id[q] == tree_mem::source && std::get<1>(A.get_back_edge(p, q)) > tol) {
             active.push(q);
-          } else if (tree_id[q] == tree_mem::term && std::get<1>(A.get_back_edge(p, q)) > tol) {
+          } else if (tree_id[q] == tree_mem::term && std::get<1>(*it) > tol) {
             active.push(q);
           }
 
-- 
2.43.0


From 5d1328ed3407c91862680ad5b1130729d3501eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:25 +0000
Subject: [PATCH 58/87] fix: the functions that build graphs from vertex and
 edge tables can be compiled

---
 include/nwgraph/build.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 0a5eb5d..84e636d 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -98,7 +98,7 @@ void push_back_fill(edge_list_t& el, adjacency_t& cs) {
 /**
  * Fill a plain or non-plain graph from edge list
  */
-template <edge_list_graph EdgeList, adjacency_list_graph Adjacency>
+template <edge_list_c EdgeList, adjacency_list_graph Adjacency>
 void push_back_fill(const EdgeList& edge_list, Adjacency& adj, bool directed, size_t idx) {
   const size_t jdx = (idx + 1) % 2;
 
@@ -674,7 +674,7 @@ template <class M, std::ranges::random_access_range E, class Edge = decltype(std
 auto make_plain_edges(M& map, const E& edges) {
   EdgeList index_edges;
 
-  for (Edge&& e : edges) {
+  for (auto&& e : edges) {
     std::apply([&](auto&& u, auto&& v, auto... props_) { index_edges.push_back(std::make_tuple(map[u], map[v])); }, e);
   }
 
@@ -785,7 +785,7 @@ auto data_to_graph_edge_list(const V& left_vertices, const V& right_vertices, co
 }
 
 template <std::ranges::random_access_range V1, std::ranges::random_access_range V2, std::ranges::random_access_range E,
-          adjacency_list_graph Graph = std::vector<std::vector<decltype(std::tuple_cat(std::make_tuple(size_t{}), props(*(begin(E{})))))>>>
+          adjacency_list_graph Graph = std::vector<std::vector<size_t>>>
 auto make_plain_bipartite_graph(const V1& left_vertices, const V2& right_vertices, const E& edges, size_t idx = 0) {
 
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
@@ -826,7 +826,7 @@ auto make_bipartite_graph(const V& left_vertices, const V& right_vertices, const
 }
 
 template <std::ranges::random_access_range V, std::ranges::random_access_range E,
-          adjacency_list_graph Graph = std::vector<std::vector<decltype(std::tuple_cat(std::make_tuple(size_t{}), props(*(begin(E{})))))>>>
+          adjacency_list_graph Graph = std::vector<std::vector<size_t>>>
 auto make_bipartite_graphs(const V& left_vertices, const V& right_vertices, const E& edges) {
 
   auto index_edges = data_to_graph_edge_list<>(left_vertices, right_vertices, edges);
-- 
2.43.0


From 3ccc2a44a9f20c4dce3e601f1f59e36544758ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:25 +0000
Subject: [PATCH 59/87] fix: make_bipartite_graph and
 make_plain_bipartite_graph size the graph of the right vertices by those

---
 include/nwgraph/build.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 84e636d..923f4e8 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -791,7 +791,7 @@ auto make_plain_bipartite_graph(const V1& left_vertices, const V2& right_vertice
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
@@ -819,7 +819,7 @@ auto make_bipartite_graph(const V& left_vertices, const V& right_vertices, const
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
-- 
2.43.0


From 840604d729cbe1c81d276a991c11e1c6192d33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 60/87] fix: adj_flist can be filled from an edge list

---
 include/nwgraph/vofos.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 8ad8b02..6f93d6b 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_flist(size_t N = 0) : base(N) {}
 
-  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
-  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
-- 
2.43.0


From cae29a72466c7b0709f211b87be960c967224247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 61/87] fix: adj_list and adj_flist count the edges pushed into
 them

---
 include/nwgraph/vofos.hpp | 3 ++-
 include/nwgraph/volos.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 6f93d6b..81b3c4c 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -78,13 +78,14 @@ public:
       }
     }
     base::operator[](i).emplace_front(j, attrs...);
+    ++num_edges_;
   }
 
   num_vertices_type num_vertices() const { return {base::size()}; };
   num_edges_type    num_edges() const { return num_edges_; }
 
 private:
-  num_edges_type num_edges_;
+  num_edges_type num_edges_ = 0;
 };
 
 template <int idx, typename... Attributes>
diff --git a/include/nwgraph/volos.hpp b/include/nwgraph/volos.hpp
index e68edb0..c4a6f5d 100644
--- a/include/nwgraph/volos.hpp
+++ b/include/nwgraph/volos.hpp
@@ -78,13 +78,14 @@ public:
       }
     }
     base::operator[](i).emplace_back(j, attrs...);
+    ++num_edges_;
   }
 
   num_vertices_type num_vertices() const { return {base::size()}; };
   num_edges_type    num_edges() const { return num_edges_; }
 
 private:
-  num_edges_type num_edges_;
+  num_edges_type num_edges_ = 0;
 };
 
 template <int idx, typename... Attributes>
-- 
2.43.0


From 24b4e324c57483e9108ce6b6faa5aa459433c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:32 +0000
Subject: [PATCH 62/87] fix: filling an adj_list from an undirected edge list
 does not swap the ends of the edges in that list

---
 include/nwgraph/build.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 923f4e8..c898d76 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -123,12 +123,11 @@ auto fill_adj_list(edge_list_t& el, adj_list_t& al) {
 
   al.open_for_push_back();
 
-  std::for_each(el.begin(), el.end(), [&](auto elt) {
+  std::for_each(el.begin(), el.end(), [&](auto&& elt) {
     push_back_fill_helper(al, elt);
     ++num_edges;
     if constexpr (edge_list_t::edge_directedness == directedness::undirected) {
-      std::swap(std::get<0>(elt), std::get<1>(elt));
-      push_back_fill_helper(al, elt);
+      std::apply([&](auto&& u, auto&& v, auto&&... attrs) { al.push_back(v, u, attrs...); }, elt);
       ++num_edges;
     }
   });
-- 
2.43.0


From af08dfef5c66b4914036d18c6e57fc764c3abd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:32 +0000
Subject: [PATCH 63/87] fix: adj_list, adj_flist and vov with index 1 list the
 edges by their other end

---
 include/nwgraph/build.hpp | 20 +++++++++++++-------
 include/nwgraph/vofos.hpp |  4 ++--
 include/nwgraph/volos.hpp |  4 ++--
 include/nwgraph/vovos.hpp |  4 ++--
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index c898d76..0d17b40 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -117,19 +117,25 @@ void push_back_fill(const EdgeList& edge_list, Adjacency& adj, bool directed, si
   }
 }
 
-template <edge_list_graph edge_list_t, adjacency_list_graph adj_list_t>
+template <int idx = 0, edge_list_graph edge_list_t, adjacency_list_graph adj_list_t>
 auto fill_adj_list(edge_list_t& el, adj_list_t& al) {
   size_t num_edges = 0;
 
   al.open_for_push_back();
 
   std::for_each(el.begin(), el.end(), [&](auto&& elt) {
-    push_back_fill_helper(al, elt);
-    ++num_edges;
-    if constexpr (edge_list_t::edge_directedness == directedness::undirected) {
-      std::apply([&](auto&& u, auto&& v, auto&&... attrs) { al.push_back(v, u, attrs...); }, elt);
-      ++num_edges;
-    }
+    std::apply(
+        [&](auto&& u, auto&& v, auto&&... attrs) {
+          if constexpr (idx == 0 || edge_list_t::edge_directedness == directedness::undirected) {
+            al.push_back(u, v, attrs...);
+            ++num_edges;
+          }
+          if constexpr (idx == 1 || edge_list_t::edge_directedness == directedness::undirected) {
+            al.push_back(v, u, attrs...);
+            ++num_edges;
+          }
+        },
+        elt);
   });
 
   al.close_for_push_back();
diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 81b3c4c..ead4613 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_flist(size_t N = 0) : base(N) {}
 
-  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
diff --git a/include/nwgraph/volos.hpp b/include/nwgraph/volos.hpp
index c4a6f5d..3eadc8a 100644
--- a/include/nwgraph/volos.hpp
+++ b/include/nwgraph/volos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_list(size_t N = 0) : base(N) {}
 
-  index_adj_list(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_list(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_adj_list(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
+  index_adj_list(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
diff --git a/include/nwgraph/vovos.hpp b/include/nwgraph/vovos.hpp
index 4f912e4..b9ef57e 100644
--- a/include/nwgraph/vovos.hpp
+++ b/include/nwgraph/vovos.hpp
@@ -74,9 +74,9 @@ public:
 
   index_vov(size_t N = 0) : base(N) {}
 
-  index_vov(edge_list<directedness::directed, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list(A, *this); }
+  index_vov(edge_list<directedness::directed, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
-  index_vov(edge_list<directedness::undirected, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list(A, *this); }
+  index_vov(edge_list<directedness::undirected, Attributes...>& A) : base(num_vertices(A)) { num_edges_ = fill_adj_list<idx>(A, *this); }
 
 private:
   num_edges_type num_edges_;
-- 
2.43.0


From 1b8352c155d2bb4a0041fc15dd2ab55cde85846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 64/87] fix: brandes_bc and page_rank accept every
 adjacency_list_graph

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 include/nwgraph/algorithms/page_rank.hpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index ef0cca7..60975cb 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -140,7 +140,7 @@ bool BCVerifier(const Graph& g, std::vector<typename graph_traits<Graph>::vertex
  */
 template <adjacency_list_graph Graph, typename score_t = float, typename accum_t = size_t>
 std::vector<score_t> brandes_bc(const Graph& G, bool normalize = true) {
-  using vertex_id_type = typename Graph::vertex_id_type;
+  using vertex_id_type = vertex_id_t<Graph>;
 
   size_t               n_vtx = num_vertices(G);
   std::vector<score_t> centrality(n_vtx, 0);
diff --git a/include/nwgraph/algorithms/page_rank.hpp b/include/nwgraph/algorithms/page_rank.hpp
index 38408dd..376994c 100644
--- a/include/nwgraph/algorithms/page_rank.hpp
+++ b/include/nwgraph/algorithms/page_rank.hpp
@@ -87,7 +87,7 @@ auto time_op(Op&& op) {
  * @param num_threads number of threads
  */
 template <adjacency_list_graph Graph, typename Real>
-[[gnu::noinline]] void page_rank(const Graph& graph, const std::vector<typename Graph::vertex_id_type>& degrees,
+[[gnu::noinline]] void page_rank(const Graph& graph, const std::vector<vertex_id_t<Graph>>& degrees,
                                      std::vector<Real>& page_rank, Real damping_factor, Real threshold, size_t max_iters, size_t num_threads) {
   std::size_t N          = graph.size();
   Real        init_score = 1.0 / N;
-- 
2.43.0


From 93c4b7e14247280db6f574f444eba8d39abf52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 65/87] fix: assigning to an AtomicBitVector gives back the
 words it held

---
 include/nwgraph/util/AtomicBitVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index 86d1b29..91a6f09 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -69,8 +69,8 @@ public:
 
   /// The move assignment operator needs to be explicit.
   AtomicBitVector& operator=(AtomicBitVector&& rhs) {
-    bits_ = std::exchange(rhs.bits_, 0);
-    data_ = std::exchange(rhs.data_, nullptr);
+    std::swap(bits_, rhs.bits_);
+    std::swap(data_, rhs.data_);
     return *this;
   }
 
-- 
2.43.0


From 6538383895ce70fc15d1c61897894eaefdede52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 66/87] fix: disjoint_set::find looks for the set of the
 element it is given

---
 include/nwgraph/util/disjoint_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 120e06f..851ca0f 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -224,7 +224,7 @@ public:
 
     //non-recursive simple find
     //negative means root
-    volatile T t = 0;
+    T t = index;
     while (0 <= this->sets_[t]) {
       //if (t > this->maxid_ || t < 0) {
       t = this->sets_[t];
-- 
2.43.0


From 1968e33a5ac6b5086ed57dbe352f4341655c48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 67/87] fix: copying a disjoint_set does not delete an
 uninitialised pointer

---
 include/nwgraph/util/disjoint_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 851ca0f..bf2d549 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -130,7 +130,6 @@ public:
       std::cerr << "only support signed number" << std::endl;
       exit(EXIT_FAILURE);
     }
-    delete[] this->sets_;
     this->sets_ = new T[other.maxid_];
     memcpy(this->sets_, other.sets_, sizeof(T) * other.maxid_);
   }
-- 
2.43.0


From e056f3e6b1e1c7a9e27c846f9156654b35ca5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 68/87] fix: disjoint_set rejects the first index beyond its
 end

---
 include/nwgraph/util/disjoint_set.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index bf2d549..5a5acd8 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -147,7 +147,7 @@ public:
 		 */
   void reset(const T index) {
     //element must be between 0 to size()
-    if (index > this->maxid_ || index < 0) {
+    if (index >= this->maxid_ || index < 0) {
       throw std::range_error(std::to_string(index) + "is out of range\n");
     }
     this->sets_[index] = index;
@@ -180,7 +180,7 @@ public:
 		 */
   virtual T find_with_pathcompression(T index) {
     //element must be between 0 to size()
-    if (index > this->maxid_ || index < 0) {
+    if (index >= this->maxid_ || index < 0) {
       throw std::range_error(std::to_string(index) + "is out of range\n");
     }
     //negative means index is a root
@@ -215,7 +215,7 @@ public:
 		 */
   virtual T find(T index) const {
     //element must be between 0 to size()
-    if (index > this->maxid_ || index < 0) {
+    if (index >= this->maxid_ || index < 0) {
       throw std::range_error(std::to_string(index) + "is out of range\n");
     }
     //recursion and simple find
@@ -245,7 +245,7 @@ public:
   virtual T directFind(const T index) const {
     //element must be between 0 to maxid_
     //element must be between 0 to size()
-    if (index > this->maxid_ || index < 0) {
+    if (index >= this->maxid_ || index < 0) {
       throw std::range_error(std::to_string(index) + "is out of range\n");
     }
 
@@ -301,7 +301,7 @@ public:
 		 */
   virtual bool directJoin(T const& u, T const& v) {
     //element must be between 0 to size()
-    if (v > this->maxid_ || v < 0) {
+    if (v >= this->maxid_ || v < 0) {
       throw std::range_error(std::to_string(v) + "is out of range\n");
     }
     this->sets_[v] = u;
-- 
2.43.0


From 2d0e484588e58b1cfaa5b11a2d5d3d3e3c876929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 69/87] fix: disjoint_set::getSetSize returns the size of the
 set, not its negated root

---
 include/nwgraph/util/disjoint_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 5a5acd8..4d13ce4 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -530,7 +530,7 @@ public:
 		 *  @ param[in] u, an element of the set to query
 		 *  @return the size of disjoint set.
 		 */
-  size_t getSetSize(const T u) const { return -find(u); }
+  size_t getSetSize(const T u) const { return -this->sets_[find(u)]; }
   /**
 		 * Overload operator<< for format output.
 		 * @param os, outstream pointer
-- 
2.43.0


From ec6a8025398e64f67a42e895d83cfbd0beef58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 70/87] fix: disjoint_set::reset restores the number of sets

---
 include/nwgraph/util/disjoint_set.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 4d13ce4..5ad0ce6 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -140,7 +140,10 @@ public:
 		 * Assigns every element to -1.
 		 * Set id is equal to element id.
 		 */
-  void reset() { memset(this->sets_, -1, maxid_ * sizeof(T)); }
+  void reset() {
+    memset(this->sets_, -1, maxid_ * sizeof(T));
+    nsets_ = maxid_;
+  }
   /**
 		 * Assigns every element to -1.
 		 * Set id to element id.
-- 
2.43.0


From a63b74a8cf6dbce926278f9af4280c3e3cd3d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 71/87] fix: disjoint_set::allToSingletons compiles

---
 include/nwgraph/util/disjoint_set.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 5ad0ce6..65e9543 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -16,6 +16,7 @@
 #ifndef NW_GRAPH_DISJOINT_SET_HPP
 #define NW_GRAPH_DISJOINT_SET_HPP
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <map>
@@ -160,11 +161,7 @@ public:
 		 */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void allToSingletons(ExecutionPolicy&& policy = {}) {
-    size_t i = 0;
-    std::for_each(policy, this->sets_, this->sets_ + this->maxid_, [&i, this]() {
-      this->sets[i] = i;
-      ++i;
-    });
+    std::for_each(policy, this->sets_, this->sets_ + this->maxid_, [this](T& s) { s = &s - this->sets_; });
   }
   template <typename L>
   static void allToSingletons(L* arr, const size_t size) {
-- 
2.43.0


From f14dc87c350cdc879fc3552cf2e3983f68884657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 72/87] fix: disjoint_set::UnionBySplicing keeps the rest of
 the path it splices

---
 include/nwgraph/util/disjoint_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index 65e9543..a4e6af3 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -437,18 +437,18 @@ public:
           this->sets_[v] = this->sets_[u];
           break;
         }
-        z              = v;
+        z              = this->sets_[v];
         this->sets_[v] = this->sets_[u];
-        v              = this->sets_[z];
+        v              = z;
       } else {
         if (u == this->sets_[u]) {
           //when u the root of current set, set u's parent as u
           this->sets_[u] = this->sets_[v];
           break;
         }
-        z              = u;
+        z              = this->sets_[u];
         this->sets_[u] = this->sets_[v];
-        u              = this->sets_[z];
+        u              = z;
       }
     }    //while
   }      //UnionBySplicing
-- 
2.43.0


From 835dcc1a78ccb0aee63a9e03ca765aa3d08ba09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 73/87] fix: disjoint_set::join counts the set that is merged
 away

---
 include/nwgraph/util/disjoint_set.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nwgraph/util/disjoint_set.hpp b/include/nwgraph/util/disjoint_set.hpp
index a4e6af3..7fbf19d 100644
--- a/include/nwgraph/util/disjoint_set.hpp
+++ b/include/nwgraph/util/disjoint_set.hpp
@@ -279,6 +279,8 @@ public:
           this->sets_[rootu] += this->sets_[rootv];
           //change the the root of v to root of u
           this->sets_[v] = rootu;
+          //the number of sets decrements by 1
+          --this->nsets_;
         }
       } else {
         // v is a singleton set, we just change its membership
-- 
2.43.0


From 78c740cbbb01fe923cdd5efa33b922d41a555685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:22 +0000
Subject: [PATCH 74/87] fix: the benchmark drivers draw random sources among
 the vertices of the graph

---
 bench/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index a5e378a..c724951 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -126,7 +126,7 @@ auto build_random_sources(const Graph& graph, size_t n, long seed) {
   auto sources = std::vector<Id>(n);
   auto degrees = build_degrees(graph);
   auto gen     = std::mt19937(seed);
-  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph));
+  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph) - 1);
 
   for (auto& id : sources) {
     for (id = dis(gen); degrees[id] == 0; id = dis(gen)) {
-- 
2.43.0


From a003fcce04e764f4afcb700942ec8428b7b1e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 75/87] fix: print_n_ranks stops at the last vertex of a graph
 with fewer than ten

---
 bench/bc.cpp | 2 +-
 bench/pr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 512b0e1..72c5449 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -54,7 +54,7 @@ using accum_t = double;
 template <typename Vector>
 void print_n_ranks(const Vector& centrality, size_t n) {
   auto perm = proxysort<size_t>(centrality, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(centrality[perm[i]]) << std::endl;
   }
 }
diff --git a/bench/pr.cpp b/bench/pr.cpp
index 1ba3aa1..035484d 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -46,7 +46,7 @@ using namespace nw::util;
 template <typename Vector>
 void print_n_ranks(const Vector& rankings, size_t n) {
   auto perm = proxysort<size_t>(rankings, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(rankings[perm[i]]) << std::endl;
   }
 }
-- 
2.43.0


From 91346745a8058451964a0ac128fe0e27f7372f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 76/87] fix: the sssp driver picks one source for every
 iteration of every trial

---
 bench/sssp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 238712f..a2459fe 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -182,10 +182,10 @@ int main(int argc, char* argv[]) {
     sources = load_sources_from_file(graph, args["--sources"].asString());
     assert(size_t(trials * iterations) <= sources.size());
   } else if (args["-r"]) {
-    sources.resize(trials);
+    sources.resize(trials * iterations);
     std::fill(sources.begin(), sources.end(), args["-r"].asLong());
   } else {
-    sources = build_random_sources(graph, trials, args["--seed"].asLong());
+    sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
   Times times;
-- 
2.43.0


From c3831faa53ed5581a9f512d2b94536da6e2ed1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 77/87] fix: the bc driver does not index past the last source

---
 bench/bc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 72c5449..73a073e 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -119,7 +119,7 @@ int main(int argc, char* argv[]) {
       }
 
       for (int i = 0; i < trials; ++i) {
-        std::vector<vertex_id_type> trial_sources(&sources[iterations * i], &sources[iterations * (i + 1)]);
+        std::vector<vertex_id_type> trial_sources(sources.begin() + iterations * i, sources.begin() + iterations * (i + 1));
         auto&& [centrality] = times.record(file, id, thread, [&]() -> std::vector<score_t> {
           switch (id) {
             case 0:
-- 
2.43.0


From 60928cb58bb94f7789dc531e7a1f3718566a9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 78/87] fix: SSSPVerifier accepts graphs with vertices that
 cannot be reached

---
 bench/sssp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index a2459fe..3673481 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -59,7 +59,7 @@ static auto dijkstra(const Graph& graph, vertex_id_t<Graph> source,
 
 
   // Distances
-  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max()/4);
+  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max());
 
   // Workqueue
   //  using WN = std::tuple<vertex_id_type, distance_t>;
-- 
2.43.0


From 3f932d33f5e45596bb2f2da0d62c59a18a83af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 79/87] fix: TCVerifier does not write past the end of its
 vector

---
 bench/tc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/tc.cpp b/bench/tc.cpp
index 52022e4..2c25dc5 100644
--- a/bench/tc.cpp
+++ b/bench/tc.cpp
@@ -118,8 +118,8 @@ static std::size_t TCVerifier(Graph& graph) {
   for (auto&& [u, v] : edge_range(graph)) {
     auto u_out = graph[u];
     auto v_out = graph[v];
-    auto end   = std::set_intersection(u_out.begin(), u_out.end(), v_out.begin(), v_out.end(), intersection.begin());
-    intersection.resize(end - intersection.begin());
+    intersection.clear();
+    std::set_intersection(u_out.begin(), u_out.end(), v_out.begin(), v_out.end(), std::back_inserter(intersection));
     total += intersection.size();
   }
   return total;    // note that our processed Graph doesn't produce extra counts
-- 
2.43.0


From 9a9a8ba0b016d8259af35cca041a2718c9845f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 80/87] fix: select copies from an lvalue tuple instead of
 moving its elements out

---
 include/nwgraph/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/util.hpp b/include/nwgraph/util/util.hpp
index c0c3b60..97baeb7 100644
--- a/include/nwgraph/util/util.hpp
+++ b/include/nwgraph/util/util.hpp
@@ -114,7 +114,7 @@ struct counter : public std::iterator<std::output_iterator_tag, std::ptrdiff_t>
 template <std::size_t... Is, class Tuple, class = std::enable_if_t<is_tuple_v<std::decay_t<Tuple>>>>
 constexpr auto select(Tuple&& t) -> std::tuple<std::tuple_element_t<Is, std::decay_t<Tuple>>...> {
   static_assert(((Is < std::tuple_size_v<std::decay_t<Tuple>>)&&...), "tuple index out of range during select");
-  return {std::forward<std::tuple_element_t<Is, std::decay_t<Tuple>>>(std::get<Is>(std::forward<Tuple>(t)))...};
+  return {std::get<Is>(std::forward<Tuple>(t))...};
 }
 
 /// Meta-function to get the type of a tuple after selection (see `select`).
-- 
2.43.0


From 3ba741c15358f48337cd94e340c5b1aa992467d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 81/87] fix: assigning a provenance replaces its contents

---
 include/nwgraph/util/provenance.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/nwgraph/util/provenance.hpp b/include/nwgraph/util/provenance.hpp
index b343a4e..b68a2ac 100644
--- a/include/nwgraph/util/provenance.hpp
+++ b/include/nwgraph/util/provenance.hpp
@@ -58,11 +58,7 @@ public:
       os << prefix + " " << s << std::endl;
     }
   }
-  auto operator=(const provenance& x) {
-    for (auto& j : x.info) {
-      info.push_back(j);
-    }
-  }
+  provenance& operator=(const provenance&) = default;
 
 private:
   std::vector<std::string> info;
-- 
2.43.0


From 80962ac74d4fc9fb7a87a74e68fe098dc17170b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:06 +0000
Subject: [PATCH 82/87] fix: edge lists and adjacencies stream to the given
 stream

---
 include/nwgraph/containers/compressed.hpp | 10 +++++-----
 include/nwgraph/edge_list.hpp             | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 38c3ada..61e74bf 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -550,11 +550,11 @@ public:    // fixme
 
   void stream_stats(std::ostream& os = std::cout) const {
     int status = -4;
-    std::cout << "% ";
-    std::cout << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status);
-    std::cout << std::string("indices_.size() ") + std::to_string(indices_.size()) + " ";
-    std::cout << std::string("to_be_indexed_.size() ") + std::to_string(to_be_indexed_.size());
-    std::cout << std::endl;
+    os << "% ";
+    os << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status);
+    os << std::string("indices_.size() ") + std::to_string(indices_.size()) + " ";
+    os << std::string("to_be_indexed_.size() ") + std::to_string(to_be_indexed_.size());
+    os << std::endl;
   }
 };
 
diff --git a/include/nwgraph/edge_list.hpp b/include/nwgraph/edge_list.hpp
index e284ebb..e52fdb6 100644
--- a/include/nwgraph/edge_list.hpp
+++ b/include/nwgraph/edge_list.hpp
@@ -234,20 +234,20 @@ public:
 
   void stream_stats(std::ostream& os = std::cout) const {
     int status = -4;
-    std::cout << "% ";
-    std::cout << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status) + ": " +
+    os << "% ";
+    os << nw::graph::demangle(typeid(*this).name(), nullptr, nullptr, &status) + ": " +
                      "graph_base::vertex_cardinality = " + std::to_string(graph_base::vertex_cardinality[0]) + " ";
     if constexpr (false == is_unipartite<graph_base>::value) {
-      std::cout << std::to_string(graph_base::vertex_cardinality[1]) + " ";
+      os << std::to_string(graph_base::vertex_cardinality[1]) + " ";
     }
-    std::cout << std::string("base::size() = ") + std::to_string(base::size());
-    std::cout << std::endl;
+    os << std::string("base::size() = ") + std::to_string(base::size());
+    os << std::endl;
   }
 
   void stream_edges(std::ostream& os = std::cout) {
-    std::for_each(base::begin(), base::end(), [](auto&& x) {
-      std::apply([&](auto&... field) { ((std::cout << field << " "), ...); }, x);
-      std::cout << std::endl;
+    std::for_each(base::begin(), base::end(), [&](auto&& x) {
+      std::apply([&](auto&... field) { ((os << field << " "), ...); }, x);
+      os << std::endl;
     });
   }
 
-- 
2.43.0


From 9d37d91a177fe9c8c4e6adab1742f7b386a989b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:48 +0000
Subject: [PATCH 83/87] fix: the logs of bc and pr have the last column their
 headers name

---
 bench/bc.cpp | 4 ++--
 bench/pr.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 73a073e..57dcc45 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -106,7 +106,7 @@ int main(int argc, char* argv[]) {
     sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
-  Times times;
+  Times<long> times;
 
   // for each thread count
   //   for each algorithm id
@@ -144,7 +144,7 @@ int main(int argc, char* argv[]) {
               std::cerr << "Invalid BC version " << id << "\n";
               return {};
           }
-        });
+        }, iterations);
 
         if (verify) {
           BCVerifier<score_t, accum_t>(graph, trial_sources, centrality);
diff --git a/bench/pr.cpp b/bench/pr.cpp
index 035484d..0d3974c 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -67,7 +67,7 @@ int main(int argc, char* argv[]) {
   std::vector ids     = parse_ids(args["--version"].asStringList());
   std::vector threads = parse_n_threads(args["THREADS"].asStringList());
 
-  Times times;
+  Times<float> times;
 
   for (auto&& file : files) {
     auto aos_a = load_graph<nw::graph::directedness::directed>(file);
@@ -154,7 +154,7 @@ int main(int argc, char* argv[]) {
                 std::cerr << "Unknown version id " << id << std::endl;
                 break;
             }
-          });
+          }, tolerance);
         }
 
         if (verify) {
-- 
2.43.0


From 370020dd88009e834a2134fa3c770985fc53186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 84/87] fix: row starts beyond 2^31 entries: the scan in
 close_for_push_back adds in the index type, not in int

---
 include/nwgraph/containers/compressed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 61e74bf..d20e2f9 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -244,7 +244,7 @@ public:    // fixme
     if (to_be_indexed_.size() == 0) return;
 
     indices_.resize(N_ + 1);
-    std::exclusive_scan(indices_.begin(), indices_.end(), indices_.begin(), 0);
+    std::exclusive_scan(indices_.begin(), indices_.end(), indices_.begin(), index_t(0));
     assert(indices_.back() == to_be_indexed_.size());
     is_open_ = false;
   }
-- 
2.43.0


From 235fe37cc1c7d427d7ea8533a0472f8a8c3528e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 85/87] fix: an adjacency made from raw vectors takes its row
 starts in the index type, not in the id type

---
 include/nwgraph/adjacency.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index dbd831b..d6d188d 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -128,23 +128,23 @@ public:
     if (sort_adjacency) base::sort_to_be_indexed();
   }
   // customized move constructor
-  index_adjacency(std::vector<vertex_id>&& indices,
+  index_adjacency(std::vector<index_type>&& indices,
                   std::vector<vertex_id>&& first_to_be,
                   std::vector<Attributes>&&... rest_to_be)
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(indices.size() - 1), base(std::move(indices), std::move(first_to_be), std::move(rest_to_be)...) {}
-  index_adjacency(std::vector<vertex_id>&& indices,
+  index_adjacency(std::vector<index_type>&& indices,
                   std::tuple<std::vector<vertex_id>,
                              std::vector<Attributes>...>&& to_be_indexed)
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(indices.size() - 1), base(std::move(indices), std::move(to_be_indexed)) {}
   // customized copy constructor
-  index_adjacency(const std::vector<vertex_id>& indices,
+  index_adjacency(const std::vector<index_type>& indices,
                   const std::vector<vertex_id>& first_to_be,
                   const std::vector<Attributes>&... rest_to_be)
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
       : unipartite_graph_base(indices.size() - 1), base(indices, first_to_be, rest_to_be...) {}
-  index_adjacency(const std::vector<vertex_id>& indices,
+  index_adjacency(const std::vector<index_type>& indices,
                   const std::tuple<std::vector<vertex_id>,
                                    std::vector<Attributes>...>& to_be_indexed)
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
@@ -256,22 +256,22 @@ public:
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
-  index_biadjacency(size_t N1, std::vector<vertex_id>&& indices,
+  index_biadjacency(size_t N1, std::vector<index_type>&& indices,
                   std::vector<vertex_id>&& first_to_be,
                   std::vector<Attributes>&&... rest_to_be)
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(indices.size() - 1, N1), base(std::move(indices), std::move(first_to_be), std::move(rest_to_be)...) {}
-  index_biadjacency(size_t N1, std::vector<vertex_id>&& indices,
+  index_biadjacency(size_t N1, std::vector<index_type>&& indices,
                   std::tuple<std::vector<vertex_id>,
                              std::vector<Attributes>...>&& to_be_indexed)
       : bipartite_graph_base(indices.size() - 1, N1), base(std::move(indices), std::move(to_be_indexed)) {}
   // customized copy constructor
-  index_biadjacency(size_t N1, const std::vector<vertex_id>& indices,
+  index_biadjacency(size_t N1, const std::vector<index_type>& indices,
                   const std::vector<vertex_id>& first_to_be,
                   const std::vector<Attributes>&... rest_to_be)
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(indices.size() - 1, N1), base(indices, first_to_be, rest_to_be...) {}
-  index_biadjacency(size_t N1, const std::vector<vertex_id>& indices,
+  index_biadjacency(size_t N1, const std::vector<index_type>& indices,
                   const std::tuple<std::vector<vertex_id>,
                                    std::vector<Attributes>...>& to_be_indexed)
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
-- 
2.43.0


From 866b3af9af683b327a68b2ba35af9270e7f49410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 86/87] fix: an adjacency with more entries than its id type
 can count: the row starts are summed in the index type

---
 include/nwgraph/build.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 0d17b40..70d37f0 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -24,6 +24,7 @@
 #include <atomic>
 #include <cassert>
 #include <execution>
+#include <functional>
 #include <iostream>
 #include <map>
 #include <string>
@@ -225,7 +226,8 @@ void fill_directed(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&& po
 
   cs.indices_.resize(N + 1);
   cs.indices_[0] = 0;
-  std::inclusive_scan(policy, degree.begin(), degree.end(), cs.indices_.begin() + 1);
+  using index_type = typename std::decay_t<decltype(cs.indices_)>::value_type;    // an id type may be too narrow for the sum
+  std::inclusive_scan(policy, degree.begin(), degree.end(), cs.indices_.begin() + 1, std::plus<index_type>{}, index_type(0));
   cs.to_be_indexed_.resize(el.size());
 
 #if 0
@@ -297,7 +299,8 @@ void fill_undirected(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&&
     cs.indices_.resize(N + 1);
     cs.indices_[0] = 0;
     std::for_each(/* policy, */ Tmp.begin(), Tmp.end(), [&](auto&& i) { ++degrees[i]; });
-    std::inclusive_scan(policy, degrees.begin(), degrees.end(), cs.indices_.begin() + 1);
+    using index_type = typename std::decay_t<decltype(cs.indices_)>::value_type;    // an id type may be too narrow for the sum
+    std::inclusive_scan(policy, degrees.begin(), degrees.end(), cs.indices_.begin() + 1, std::plus<index_type>{}, index_type(0));
   }
 
   cs.to_be_indexed_.resize(Tmp.size());
-- 
2.43.0


From 04a96257423a6e8a23ce354858cfdfbec5306f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:17 +0000
Subject: [PATCH 87/87] fix: counting_iterator measures distances beyond half
 the range of its type

---
 include/nwgraph/adaptors/vertex_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 447c090..f53b4d3 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -27,7 +27,7 @@ private:
 public:
     using iterator_category = std::random_access_iterator_tag;
     using value_type        = T;
-    using difference_type   = std::make_signed<T>::type;
+    using difference_type   = std::ptrdiff_t;    // the signed counterpart of T cannot hold every distance
     using reference         = value_type&;
     using pointer           = value_type*;
 
@@ -37,7 +37,7 @@ public:
     reference operator*() { return my_counter_; }
     value_type operator[](difference_type index) const { return *(*this + index); }
 
-    difference_type operator-(const counting_iterator& it) const {return my_counter_ - it.my_counter_; }
+    difference_type operator-(const counting_iterator& it) const { return static_cast<difference_type>(my_counter_) - static_cast<difference_type>(it.my_counter_); }
 
     counting_iterator& operator+=(difference_type forward) { my_counter_ += forward; return *this; }
     counting_iterator& operator-=(difference_type backward) { my_counter_ -= backward; return *this; }
-- 
2.43.0

