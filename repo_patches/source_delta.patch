From 7f4715af21ef9a59ded09e98f91e0281a6ebe39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 1/3] fix: do not select on the envelope of an empty tree while
 draining

Draining an empty tree handed the empty envelope to the selection function.
For integer scalars computing the distance to it overflows, so for example
drain_within_distance panicked on an empty tree.
---
 rstar/src/algorithm/removal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..1d5086c 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,10 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // An empty node (only possible for the root) has no meaningful envelope to select on.
+            if !node.children.is_empty()
+                && (*idx > 0 || self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From f3ed54a137bc1811351fea2e59cd4f66e650ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 2/3] fix: nearest point of a line whose end points coincide

Projecting onto a zero length line divided by zero, which panics for integer
scalars.
---
 rstar/src/primitives/line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rstar/src/primitives/line.rs b/rstar/src/primitives/line.rs
index ea5f078..3a095dd 100644
--- a/rstar/src/primitives/line.rs
+++ b/rstar/src/primitives/line.rs
@@ -75,7 +75,12 @@ where
     fn project_point(&self, query_point: &P) -> P::Scalar {
         let (ref p1, ref p2) = (self.from.clone(), self.to.clone());
         let dir = p2.sub(p1);
-        query_point.sub(p1).dot(&dir) / dir.length_2()
+        let length_2 = dir.length_2();
+        if length_2.is_zero() {
+            // Both end points coincide, there is no direction to project onto.
+            return length_2;
+        }
+        query_point.sub(p1).dot(&dir) / length_2
     }
 
     /// Returns the nearest point on this line relative to a given point.
-- 
2.43.0


From bc7c3b584e833229b41d1204843c47777e7e7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 3/3] fix: build bulk loaded trees with all leaves at the same
 depth

Sibling subtrees of different size could get a different number of levels, on
which later insertions panicked (mixing leaves and parents in one node).
---
 .../bulk_load/bulk_load_sequential.rs         | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..e6e2680 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -12,26 +12,28 @@ use num_traits::Float;
 
 use super::cluster_group_iterator::{calculate_number_of_clusters_on_axis, ClusterGroupIterator};
 
-fn bulk_load_recursive<T, Params>(mut elements: Vec<T>) -> ParentNode<T>
+fn bulk_load_recursive<T, Params>(
+    mut elements: Vec<T>,
+    clusters_per_level: &[usize],
+) -> ParentNode<T>
 where
     T: RTreeObject,
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    let m = Params::MAX_SIZE;
-    if elements.len() <= m {
+    let Some((&number_of_clusters_on_axis, clusters_per_level)) = clusters_per_level.split_first()
+    else {
         // Reached leaf level. Shrink excess capacity so the in-place collect
         // (which reuses the allocation when size_of::<T> == size_of::<RTreeNode<T>>)
         // doesn't preserve a massively over-sized buffer in the final tree node.
         elements.shrink_to_fit();
         let elements: Vec<_> = elements.into_iter().map(RTreeNode::Leaf).collect();
         return ParentNode::new_parent(elements);
-    }
-    let number_of_clusters_on_axis =
-        calculate_number_of_clusters_on_axis::<T, Params>(elements.len()).max(2);
+    };
 
     let iterator = PartitioningTask::<_, Params> {
         number_of_clusters_on_axis,
+        clusters_per_level,
         work_queue: vec![PartitioningState {
             current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
             elements,
@@ -41,6 +43,27 @@ where
     ParentNode::new_parent(iterator.collect())
 }
 
+/// Calculates the number of clusters on any axis for every level above the leaf level.
+///
+/// Sibling subtrees differ in their number of elements. The levels are planned for the largest
+/// subtree and used for all of them, as insertion relies on all leaves having the same depth.
+fn calculate_clusters_per_level<T, Params>(mut number_of_elements: usize) -> Vec<usize>
+where
+    T: RTreeObject,
+    Params: RTreeParams,
+{
+    let mut result = Vec::new();
+    while number_of_elements > Params::MAX_SIZE {
+        let number_of_clusters_on_axis =
+            calculate_number_of_clusters_on_axis::<T, Params>(number_of_elements).max(2);
+        result.push(number_of_clusters_on_axis);
+        for _ in 0..<T::Envelope as Envelope>::Point::DIMENSIONS {
+            number_of_elements = number_of_elements.div_ceil(number_of_clusters_on_axis);
+        }
+    }
+    result
+}
+
 /// Represents a partitioning task that still needs to be done.
 ///
 /// A partitioning iterator will take this item from its work queue and start partitioning "elements"
@@ -51,13 +74,14 @@ struct PartitioningState<T: RTreeObject> {
 }
 
 /// Successively partitions the given elements into  cluster groups and finally into clusters.
-struct PartitioningTask<T: RTreeObject, Params: RTreeParams> {
+struct PartitioningTask<'a, T: RTreeObject, Params: RTreeParams> {
     work_queue: Vec<PartitioningState<T>>,
     number_of_clusters_on_axis: usize,
+    clusters_per_level: &'a [usize],
     _params: core::marker::PhantomData<Params>,
 }
 
-impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Params> {
+impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<'_, T, Params> {
     type Item = RTreeNode<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -68,7 +92,7 @@ impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Param
             } = next;
             if current_axis == 0 {
                 // Partitioning finished successfully on all axis. The remaining cluster forms a new node
-                let data = bulk_load_recursive::<_, Params>(elements);
+                let data = bulk_load_recursive::<_, Params>(elements, self.clusters_per_level);
                 return RTreeNode::Parent(data).into();
             } else {
                 // The cluster group needs to be partitioned further along the next axis
@@ -97,7 +121,8 @@ where
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    bulk_load_recursive::<_, Params>(elements)
+    let clusters_per_level = calculate_clusters_per_level::<T, Params>(elements.len());
+    bulk_load_recursive::<_, Params>(elements, &clusters_per_level)
 }
 
 #[cfg(test)]
-- 
2.43.0

