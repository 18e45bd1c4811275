From 683bffb4974760717ad50aa03434a1ac50ac71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:47 +0000
Subject: [PATCH 1/7] fix: reset heap positions eagerly in
 IndexdMinHeap::drain, a dropped drain iterator left stale positions

---
 engine/src/datastr/index_heap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/index_heap.rs b/engine/src/datastr/index_heap.rs
index 119de46..d0ad79a 100644
--- a/engine/src/datastr/index_heap.rs
+++ b/engine/src/datastr/index_heap.rs
@@ -162,7 +162,11 @@ impl<T: Ord + Indexing> IndexdMinHeap<T> {
     }
 
     pub fn drain(&mut self) -> impl Iterator<Item = T> + '_ {
-        self.data.drain(..).inspect(|item| self.positions[item.as_index()] = INVALID_POSITION)
+        // not lazily while draining: the iterator may be dropped before it was exhausted
+        for element in &self.data {
+            self.positions[element.as_index()] = INVALID_POSITION;
+        }
+        self.data.drain(..)
     }
 
     fn move_up_in_tree(&mut self, mut position: usize) {
-- 
2.43.0


From c24a9ea51612807eecdc8ad0dd08f9e6c563e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 2/7] fix: unpack CH paths in rank space, using the graph of
 the direction that stores each arc

---
 .../src/algo/contraction_hierarchy/query.rs   | 84 +++++++++----------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..4de97dd 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,58 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
+    // Follows the parent pointers of both searches from the meeting node and replaces every shortcut by the path it represents.
+    // All nodes are ranks until the very end.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
-        }
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
 
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
-
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
+        let mut ch_path = vec![self.meeting_node];
+        while *ch_path.last().unwrap() != from {
+            ch_path.push(self.forward_data.predecessors[*ch_path.last().unwrap() as usize].0);
+        }
+        ch_path.reverse();
+        while *ch_path.last().unwrap() != to {
+            ch_path.push(self.backward_data.predecessors[*ch_path.last().unwrap() as usize].0);
+        }
 
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
+        let mut path = vec![from];
+        for arc in ch_path.windows(2) {
+            let mut unpack_stack = vec![(arc[0], arc[1])];
+            while let Some((tail, head)) = unpack_stack.pop() {
+                match self.shortcut_middle_node(tail, head) {
+                    Some(middle) => {
+                        unpack_stack.push((middle, head));
+                        unpack_stack.push((tail, middle));
+                    }
+                    None => path.push(head),
                 }
             }
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
-
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // The middle node of the shortest arc between two adjacent nodes, or none if it is an original arc.
+    // Arcs to a higher ranked node are stored in the forward graph, the others in the backward graph.
+    fn shortcut_middle_node(&self, tail: NodeId, head: NodeId) -> Option<NodeId> {
+        let (forward_middle_nodes, backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+        let (graph, middle_nodes, low, high) = if tail < head {
+            (&self.forward, forward_middle_nodes, tail, head)
+        } else {
+            (&self.backward, backward_middle_nodes, head, tail)
+        };
+        let EdgeIdT(edge) = graph.edge_indices(low, high).min_by_key(|&EdgeIdT(e)| graph.weight()[e as usize]).unwrap();
+        let middle = middle_nodes[edge as usize];
+        if middle < graph.num_nodes() as NodeId {
+            Some(middle)
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From e07e27f15b1ad19f70363565dcf0beb7f5b417a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 3/7] fix: return external node ids from the predecessor
 accessors of the topocore servers

---
 engine/src/algo/ch_potentials/query.rs    | 7 ++++++-
 engine/src/algo/ch_potentials/td_query.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..24cf2a5 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -228,7 +228,12 @@ where
 
     fn predecessor(&self, node: NodeId) -> NodeId {
         let rank = self.virtual_topocore.order.rank(node);
-        self.core_search.dijkstra_data.predecessors[rank as usize].0
+        let predecessor = self.core_search.dijkstra_data.predecessors[rank as usize].0;
+        if (predecessor as usize) < self.virtual_topocore.order.len() {
+            self.virtual_topocore.order.node(predecessor)
+        } else {
+            predecessor
+        }
     }
 
     pub fn ops(&mut self) -> &mut Ops {
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..7b31fe8 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -258,7 +258,12 @@ where
 
     fn predecessor(&self, node: NodeId) -> NodeId {
         let rank = self.virtual_topocore.order.rank(node);
-        self.core_search.dijkstra_data.predecessors[rank as usize].0
+        let predecessor = self.core_search.dijkstra_data.predecessors[rank as usize].0;
+        if (predecessor as usize) < self.virtual_topocore.order.len() {
+            self.virtual_topocore.order.node(predecessor)
+        } else {
+            predecessor
+        }
     }
 
     pub fn ops(&mut self) -> &mut Ops {
-- 
2.43.0


From 891432adb59edfe7b8067c2a165f86945faf290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 4/7] fix: tpgr_upscaling reports write errors of the final
 buffer flush

---
 conversion/src/bin/tpgr_upscaling.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/src/bin/tpgr_upscaling.rs b/conversion/src/bin/tpgr_upscaling.rs
index 5878168..e4074ea 100644
--- a/conversion/src/bin/tpgr_upscaling.rs
+++ b/conversion/src/bin/tpgr_upscaling.rs
@@ -43,5 +43,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         writeln!(output)?;
     }
 
+    // dropping the writer would swallow the errors of the last write
+    output.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From aa6b915ee32d0da780cf74021ffa227850961994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 5/7] fix: topocore component queries lost paths between nodes
 attached to the core at the same node

The search from the source stopped once the core was reached and dropped its
queue, and the continuation from the core never reinserted these nodes.
---
 engine/src/algo/ch_potentials/query.rs    | 11 +++++++++--
 engine/src/algo/ch_potentials/td_query.rs | 11 +++++++++--
 engine/src/algo/topocore.rs               |  7 +++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 24cf2a5..782285b 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -93,8 +93,15 @@ where
         potential.init(query.to());
         report!("lower_bound", potential.potential(query.from()).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
+        let (into_core, out_of_core) = if virtual_topocore.same_core_attachment(query.from(), query.to()) {
+            // Shortest path does not enter the core, so the search may not stop there.
+            (query.to(), query.to())
+        } else {
+            (
+                virtual_topocore.bridge_node(query.from()).unwrap_or(query.from()),
+                virtual_topocore.bridge_node(query.to()).unwrap_or(query.to()),
+            )
+        };
         let into_core_pot = potential.potential(into_core)?;
 
         let mut comp_search = TopoDijkstraRun::query(
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 7b31fe8..cf311d3 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -106,8 +106,15 @@ where
         potential.init(query.from(), query.to(), departure);
         report!("lower_bound", potential.potential(query.from(), Some(departure)).unwrap_or(INFINITY));
 
-        let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
-        let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
+        let (into_core, out_of_core) = if virtual_topocore.same_core_attachment(query.from(), query.to()) {
+            // Shortest path does not enter the core, so the search may not stop there.
+            (query.to(), query.to())
+        } else {
+            (
+                virtual_topocore.bridge_node(query.from()).unwrap_or(query.from()),
+                virtual_topocore.bridge_node(query.to()).unwrap_or(query.to()),
+            )
+        };
         let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
 
         let mut comp_search = TopoDijkstraRun::query(
diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..e2a17d9 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -476,6 +476,13 @@ impl VirtualTopocore {
 
         self.bridge[self.bcc[node as usize - self.biggest_bcc] as usize].value()
     }
+
+    /// Check if shortest paths between the nodes contain no core edges,
+    /// because both are attached to the core at the same node or are not attached to it at all.
+    pub fn same_core_attachment(&self, first: NodeId, second: NodeId) -> bool {
+        let detached = |node| !self.node_type(node).in_core() && self.bridge_node(node).is_none();
+        detached(first) && detached(second) || self.bridge_node(first).unwrap_or(first) == self.bridge_node(second).unwrap_or(second)
+    }
 }
 
 fn symmetric_degree(fw_iter: impl Iterator<Item = NodeIdT>, bw_iter: impl Iterator<Item = NodeIdT>) -> usize {
-- 
2.43.0


From 471bf4ff4d9f754846a073e0de452fc8fb827faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 6/7] fix: rebuild_customized_perfect panicked on graphs with
 fewer forward arcs than threads

---
 .../customization.rs                                | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..3e77a10 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -457,13 +457,12 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
 
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
-            let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
-                .collect();
+            let target_edges_per_thread = std::cmp::max(1, (m_fw + k - 1) / k);
+            let mut first_node_of_chunk: Vec<_> = cch.forward_tail().chunks(target_edges_per_thread).map(|chunk| chunk[0] as usize).collect();
+            // small graphs may have less than `k` chunks, then the remaining ones are empty
+            first_node_of_chunk.resize(k + 1, n);
+            // the first nodes may not have any forward edges
+            first_node_of_chunk[0] = 0;
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
-- 
2.43.0


From ac81d08a4f6218f15458381c732df8281265e44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 7/7] fix: perfect parallel customization skipped the separator
 validation unless parallelization was disabled

---
 .../customization/parallelization.rs                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
index 1bcd425..ec05eda 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
@@ -316,7 +316,7 @@ where
     /// The separator routine will be invoked only very few times in parallel, the final separator will be customized completely alone and nodes have high degrees.
     pub fn new_with_aux(cch: &'a C, customize_cell: F, customize_separator: G) -> Self {
         let separators = cch.separators();
-        if cfg!(feature = "cch-disable-par") {
+        if !cfg!(feature = "cch-disable-par") {
             separators.validate_for_parallelization();
         }
 
-- 
2.43.0

