From cac47da4a87694f20df429158674aea1d4012bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 01/10] fix: tree constructor rejects parent indices larger
 than the root

The parent array was indexed into a counter array without an upper bound check
(out of bounds write for parents {5, 1}).
---
 include/higra/structure/tree_graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 5b7e0d1..2545098 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -271,6 +271,7 @@ namespace hg {
                     vertex_descriptor parent_v = _parents(v);
                     hg_assert(parent_v != v, "several root nodes detected");
                     hg_assert(parent_v > v, "nodes are not in a topological order");
+                    hg_assert(parent_v <= _root, "parent index out of bounds");
                     num_children(parent_v)++;
                 }
 
-- 
2.43.0


From cef5388e9497fa29fe27b13946c1c1d95f6924c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 02/10] fix: irange is empty when stop lies behind start

leaves_to_root_iterator and root_to_leaves_iterator with both leaves and root
excluded visited an invalid node on a tree with a single node.
---
 include/higra/structure/details/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/structure/details/iterators.hpp b/include/higra/structure/details/iterators.hpp
index f537793..6c6d788 100644
--- a/include/higra/structure/details/iterators.hpp
+++ b/include/higra/structure/details/iterators.hpp
@@ -273,7 +273,7 @@ namespace hg {
         irange(value_type start, value_type stop, value_type step = 1) :
                 m_start(start),
                 m_step(step) {
-            auto num_steps = std::abs(m_start - stop) / std::abs(m_step);
+            auto num_steps = (std::max)((value_type) 0, (value_type) ((stop - m_start) / m_step));
             m_stop = m_start + num_steps * m_step;
         }
 
-- 
2.43.0


From 9c4d26140e22fbdc1c385e3e3b5737d95a69d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 03/10] fix: tree fusion checks that all trees have the same
 number of leaves

The assertion only tested that the number of leaves is not zero.
---
 include/higra/algo/tree_fusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index c80177f..ce41f9c 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -31,7 +31,7 @@ namespace hg {
             hg_assert(ntrees > 1, "Fusion requires at least two trees");
             auto nleaves = num_leaves(**first);
             for (tree_iterator t = first; t != last; t++) {
-                hg_assert(num_leaves(**t), "All trees must have the same number of leaves.");
+                hg_assert(num_leaves(**t) == nleaves, "All trees must have the same number of leaves.");
             }
 
             // cheap digraph!
-- 
2.43.0


From 701dcfbeafff70e4e11df6449cfe27adcf15e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 04/10] fix: graph accumulators finalize the accumulation

Accumulators with a finalization step (e.g. accumulator_mean) returned their
unfinished state.
---
 include/higra/accumulator/graph_accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/graph_accumulator.hpp b/include/higra/accumulator/graph_accumulator.hpp
index ce7e431..93a27c2 100644
--- a/include/higra/accumulator/graph_accumulator.hpp
+++ b/include/higra/accumulator/graph_accumulator.hpp
@@ -49,6 +49,7 @@ namespace hg {
                     input_view.set_position(e);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
@@ -84,6 +85,7 @@ namespace hg {
                     input_view.set_position(v);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
-- 
2.43.0


From f7fbdf0d952c9d4189929fabffc4b943dfb10bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 05/10] fix: removing or re-targeting an already removed edge

The adjacency list of the virtual node of index -1 was accessed (out of bounds).
---
 include/higra/structure/undirected_graph.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/structure/undirected_graph.hpp b/include/higra/structure/undirected_graph.hpp
index 512be0a..53c019f 100644
--- a/include/higra/structure/undirected_graph.hpp
+++ b/include/higra/structure/undirected_graph.hpp
@@ -162,6 +162,9 @@ namespace hg {
             void remove_edge(edge_index_t ei) {
                 auto &source = edges[ei].source;
                 auto &target = edges[ei].target;
+                if (source == invalid_index) { // edge already removed
+                    return;
+                }
                 remove_from_container(out_edges[source], ei);
                 if (source != target)
                     remove_from_container(out_edges[target], ei);
-- 
2.43.0


From 875996be22f512bd40973f03ef79bd460b0d5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:52 +0000
Subject: [PATCH 06/10] fix: mean accumulator forgets its count when it is
 initialized again

---
 include/higra/accumulator/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 3e96597..98b3074 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -156,12 +156,14 @@ namespace hg {
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 std::fill(m_storage_begin, m_storage_end, 0);
             }
 
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<!T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 *m_storage_begin = 0;
             }
 
-- 
2.43.0


From 688b538bfb07aeda898dab8b9e8704efb4ee764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 07/10] fix: accumulators on a tree reduced to a single node

---
 include/higra/accumulator/tree_accumulator.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/higra/accumulator/tree_accumulator.hpp b/include/higra/accumulator/tree_accumulator.hpp
index c0fb2d0..d34667a 100644
--- a/include/higra/accumulator/tree_accumulator.hpp
+++ b/include/higra/accumulator/tree_accumulator.hpp
@@ -82,7 +82,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) { // the root may be a leaf
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -149,7 +151,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) { // the root may be a leaf
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -239,10 +243,12 @@ namespace hg {
                     accs[p - numl].accumulate(inout_view.begin());
                 }
 
-                accs.back().finalize();
-                input_view.set_position(root(tree));
-                output_view.set_position(root(tree));
-                output_view.combine(input_view, combine);
+                if (!accs.empty()) { // the root may be a leaf
+                    accs.back().finalize();
+                    input_view.set_position(root(tree));
+                    output_view.set_position(root(tree));
+                    output_view.combine(input_view, combine);
+                }
             }
 
             return output;
-- 
2.43.0


From 595b68043aa4506d04b92a7f946a720e43488815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 08/10] fix: simplify_tree on a tree reduced to a single node

The root was counted twice (as a leaf and as the root): the result was a two node
tree with an uninitialized parent and node map entry.
---
 include/higra/hierarchy/hierarchy_core.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 35f44e8..d9d9d70 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -282,8 +282,10 @@ namespace hg {
                 }
             }
 
-            new_ranks(root(t)) = count;
-            ++count;
+            if (n_leaves < n_nodes) { // otherwise the root is a leaf which already has its rank
+                new_ranks(root(t)) = count;
+                ++count;
+            }
 
             array_1d<index_t> new_parent = xt::empty<index_t>({count});
             array_1d<index_t> node_map = xt::empty<index_t>({count});
-- 
2.43.0


From 455220fe8815feebc3b5ef33a71f546f0e4699a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:12 +0000
Subject: [PATCH 09/10] fix: supervertices_hierarchy does not terminate when
 the root has altitude 0

The search for the top node of a supervertex climbed past the root, which is its own parent.
---
 include/higra/algo/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 5f26db4..5c6f5a6 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -180,7 +180,7 @@ namespace hg {
                 if (new_order(e) != invalid_index) {
                     lbl = new_order(e);
                 }
-            } while (altitudes(e) == 0 && lbl == invalid_index);
+            } while (altitudes(e) == 0 && lbl == invalid_index && e != stack.top()); // the root is its own parent
 
             removed += stack.size();
 
-- 
2.43.0


From 45c4c82d657bcf4eb0cc8d8ff171d81e146e22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 10/10] fix: simplify_tree with leaf processing on a single
 node tree whose node satisfies the criterion

The root was counted as removed: node counts and indices went out of bounds.
---
 include/higra/hierarchy/hierarchy_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index d9d9d70..5973711 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -202,7 +202,7 @@ namespace hg {
             for (index_t i : leaves_iterator(t)) {
                 if (!removed_branch(i)) {
                     new_leaves.push_back(i);
-                } else {
+                } else if (i != root(t)) { // the root is never removed
                     removed++;
                 }
             }
-- 
2.43.0

