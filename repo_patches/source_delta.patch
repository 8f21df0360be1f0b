From 125c36b11b621e22f48d93d3d61178ae30bc1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 1/8] sim hook: name OOMError under --cfg congee_sim so the
 simulator can provide an Allocator

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 619312b..157939a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,7 @@
 #![allow(clippy::comparison_chain)]
 #![allow(clippy::len_without_is_empty)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)] // congee_sim
 
 mod base_node;
 mod error;
@@ -26,6 +27,10 @@ use std::{marker::PhantomData, sync::Arc};
 use error::OOMError;
 use tree::RawCongee;
 
+/// Lets the deterministic simulator (built with `--cfg congee_sim`) provide an `Allocator`.
+#[cfg(congee_sim)]
+pub use error::OOMError as SimOOMError;
+
 /// Types needed to safely access shared data concurrently.
 pub mod epoch {
     pub use crossbeam_epoch::{pin, Guard};
-- 
2.43.0


From 8c6006b9dd9fa3bb8772fb379d1167403808ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 2/8] fix: DefaultAllocator reports a failed allocation as
 OOMError instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 157939a..a555fce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,7 +66,7 @@ impl Allocator for DefaultAllocator {
     fn allocate(&self, layout: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, OOMError> {
         let ptr = unsafe { std::alloc::alloc(layout) };
         let ptr_slice = std::ptr::slice_from_raw_parts_mut(ptr, layout.size());
-        Ok(std::ptr::NonNull::new(ptr_slice).unwrap())
+        std::ptr::NonNull::new(ptr_slice).ok_or_else(OOMError::new)
     }
 
     unsafe fn deallocate(&self, ptr: std::ptr::NonNull<u8>, layout: std::alloc::Layout) {
-- 
2.43.0


From d0d5ecff61eb55d05e7526fc6811b01a5df94e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 3/8] fix: give unused new nodes back to the allocator when an
 insert fails or its callback panics

---
 src/base_node.rs |  9 +++++----
 src/node_ptr.rs  | 15 ++++++++++-----
 src/tree.rs      |  8 ++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/base_node.rs b/src/base_node.rs
index 3b3c385..b11647c 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -198,10 +198,10 @@ impl BaseNode {
         }
     }
 
-    pub(crate) fn make_node<N: Node>(
+    pub(crate) fn make_node<'a, N: Node, A: Allocator>(
         prefix: &[u8],
-        allocator: &impl Allocator,
-    ) -> Result<AllocatedNode<N>, ArtError> {
+        allocator: &'a A,
+    ) -> Result<AllocatedNode<'a, N, A>, ArtError> {
         let layout = N::get_type().node_layout();
         let ptr = allocator
             .allocate_zeroed(layout)
@@ -218,6 +218,7 @@ impl BaseNode {
 
             Ok(AllocatedNode::new(
                 NonNull::new(base_ptr as *mut N).unwrap(),
+                allocator,
             ))
         }
     }
@@ -344,7 +345,7 @@ impl BaseNode {
         let mut write_n = n.upgrade().map_err(|v| v.1)?;
 
         let mut n_big =
-            BaseNode::make_node::<BiggerT>(write_n.as_ref().base().prefix(), allocator)?;
+            BaseNode::make_node::<BiggerT, A>(write_n.as_ref().base().prefix(), allocator)?;
         write_n.as_ref().copy_to(n_big.as_mut());
         n_big.as_mut().insert(val.0, val.1);
 
diff --git a/src/node_ptr.rs b/src/node_ptr.rs
index 87e29e0..53668d3 100644
--- a/src/node_ptr.rs
+++ b/src/node_ptr.rs
@@ -3,6 +3,7 @@ use std::{fmt::Debug, ptr::NonNull};
 use crate::{
     base_node::{BaseNode, Node},
     utils::KeyTracker,
+    Allocator,
 };
 
 pub(crate) struct ChildIsPayload<'a> {
@@ -88,13 +89,15 @@ impl NodePtr {
     }
 }
 
-pub(crate) struct AllocatedNode<N: Node> {
+/// A node that is not (yet) part of the tree, it is given back to the allocator if it never becomes one.
+pub(crate) struct AllocatedNode<'a, N: Node, A: Allocator> {
     ptr: NonNull<N>,
+    allocator: &'a A,
 }
 
-impl<N: Node> AllocatedNode<N> {
-    pub(crate) fn new(ptr: NonNull<N>) -> Self {
-        Self { ptr }
+impl<'a, N: Node, A: Allocator> AllocatedNode<'a, N, A> {
+    pub(crate) fn new(ptr: NonNull<N>, allocator: &'a A) -> Self {
+        Self { ptr, allocator }
     }
 
     pub(crate) fn as_mut(&mut self) -> &mut N {
@@ -114,10 +117,12 @@ impl<N: Node> AllocatedNode<N> {
     }
 }
 
-impl<N: Node> Drop for AllocatedNode<N> {
+impl<N: Node, A: Allocator> Drop for AllocatedNode<'_, N, A> {
     fn drop(&mut self) {
         unsafe {
             std::ptr::drop_in_place(self.ptr.as_mut());
+            self.allocator
+                .deallocate(self.ptr.cast::<u8>(), N::get_type().node_layout());
         }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index a25157f..b7ef739 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -87,7 +87,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> Drop for RawCongee<K_LEN,
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub fn new(allocator: A, drain_callback: Arc<dyn Fn([u8; K_LEN], usize)>) -> Self {
-        let root = BaseNode::make_node::<Node256>(&[], &allocator)
+        let root = BaseNode::make_node::<Node256, A>(&[], &allocator)
             .expect("Can't allocate memory for root node!");
         RawCongee {
             root: root.into_non_null(),
@@ -254,7 +254,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                                 Ok(_is_last_level) => NodePtr::from_payload(tid_func(None)),
                                 Err(_is_sub_node) => {
                                     let new_prefix = k;
-                                    let mut n4 = BaseNode::make_node::<Node4>(
+                                    let mut n4 = BaseNode::make_node::<Node4, A>(
                                         &new_prefix[..k.len() - 1],
                                         &self.allocator,
                                     )?;
@@ -320,7 +320,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     let mut write_n = node.upgrade().map_err(|(_n, v)| v)?;
 
                     // 1) Create new node which will be parent of node, Set common prefix, level to this node
-                    let mut new_middle_node = BaseNode::make_node::<Node4>(
+                    let mut new_middle_node = BaseNode::make_node::<Node4, A>(
                         write_n.as_ref().prefix()[0..next_level].as_ref(),
                         &self.allocator,
                     )?;
@@ -334,7 +334,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     } else {
                         // otherwise create a new node
                         let mut single_new_node =
-                            BaseNode::make_node::<Node4>(&k[..k.len() - 1], &self.allocator)?;
+                            BaseNode::make_node::<Node4, A>(&k[..k.len() - 1], &self.allocator)?;
 
                         single_new_node
                             .as_mut()
-- 
2.43.0


From e1d71de264ed8988128cae60bbb7fac7bdc3d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 4/8] fix: Node16 range iteration underflows when the node
 loses its last child meanwhile

---
 src/node_16.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node_16.rs b/src/node_16.rs
index d52ea4f..e96f3ae 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -65,7 +65,9 @@ impl Node for Node16 {
     }
 
     fn get_children(&self, start: u8, end: u8) -> NodeIter {
-        if self.base.meta.count == 0 {
+        // Read once: a concurrent remove may change it, which the caller only detects afterwards.
+        let count = self.base.meta.count as usize;
+        if count == 0 {
             // FIXME: the node may be empty due to deletion, this is not intended, we should fix the delete logic
             return NodeIter::N16(Node16Iter {
                 node: self,
@@ -74,9 +76,7 @@ impl Node for Node16 {
             });
         }
         let start_pos = self.get_child_pos(start).unwrap_or(0);
-        let end_pos = self
-            .get_child_pos(end)
-            .unwrap_or(self.base.meta.count as usize - 1);
+        let end_pos = self.get_child_pos(end).unwrap_or(count - 1);
 
         debug_assert!(end_pos < 16);
 
-- 
2.43.0


From 6534960e2d5ade97a06b22f4b405b9023402ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 5/8] fix: range scans miss present keys when a node changes
 while its children are enumerated

---
 src/range_scan.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/range_scan.rs b/src/range_scan.rs
index 401a3c1..0ee0485 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -106,10 +106,13 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                                 return Ok(self.result_found);
                             }
                         }
+                        // the iteration may have ended early because of a concurrent change
+                        node.check_version()?;
                     } else {
                         let next_node_tmp = if let Some(n) = node.as_ref().get_child(start_level) {
                             n
                         } else {
+                            node.check_version()?;
                             return Ok(0);
                         };
                         node.check_version()?;
@@ -193,6 +196,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => {
@@ -251,6 +255,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => Ok(()),
@@ -299,6 +304,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
 
                     key_tracker.pop();
                 }
+                node.check_version()?;
             }
         };
 
-- 
2.43.0


From 1d45cc64ff067f206e6276ba8d5c1681eaf39ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 6/8] fix: stats() panics and reads reclaimed nodes while other
 threads modify the tree

---
 src/stats.rs | 31 +++++++++++++++++--------------
 src/tree.rs  |  3 ++-
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/stats.rs b/src/stats.rs
index a4a0af9..1489bbb 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -126,14 +126,15 @@ struct StatsVisitor {
 
 impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
     fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
-        let node = BaseNode::read_lock(node).unwrap();
+        // The traversal validates what is read here, and starts over if it changed meanwhile.
+        let node = unsafe { node.as_ref() };
 
         self.node_stats
             .levels
             .entry(tree_level)
             .or_insert_with(|| LevelStats::new_level(tree_level));
 
-        match node.as_ref().get_type() {
+        match node.get_type() {
             crate::base_node::NodeType::N4 => {
                 self.node_stats
                     .levels
@@ -146,7 +147,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n4
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N16 => {
                 self.node_stats
@@ -160,7 +161,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n16
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N48 => {
                 self.node_stats
@@ -174,7 +175,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n48
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
             crate::base_node::NodeType::N256 => {
                 self.node_stats
@@ -188,7 +189,7 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .get_mut(&tree_level)
                     .unwrap()
                     .n256
-                    .value_count += node.as_ref().value_count();
+                    .value_count += node.value_count();
             }
         }
     }
@@ -197,14 +198,16 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     /// Returns the node stats for the tree.
     pub fn stats(&self) -> NodeStats {
-        let mut visitor = StatsVisitor {
-            node_stats: NodeStats::default(),
-        };
-
-        self.dfs_visitor_slow(&mut visitor).unwrap();
         let pin = crossbeam_epoch::pin();
-        visitor.node_stats.kv_pairs = self.value_count(&pin);
-
-        visitor.node_stats
+        loop {
+            let mut visitor = StatsVisitor {
+                node_stats: NodeStats::default(),
+            };
+
+            if self.dfs_visitor_slow(&mut visitor).is_ok() {
+                visitor.node_stats.kv_pairs = self.value_count(&pin);
+                return visitor.node_stats;
+            }
+        }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index b7ef739..99b447a 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -181,10 +181,11 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 visitor.visit_payload(k, v);
             }
             VisitingEntry::SubNode(node_ptr) => {
-                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let node_lock = BaseNode::read_lock(node_ptr)?;
+                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let children = node_lock.as_ref().get_children(0, 255);
                 for (k, child_ptr) in children {
+                    node_lock.check_version()?;
                     let next = match child_ptr.downcast::<K_LEN>(node_lock.as_ref().prefix().len())
                     {
                         PtrType::Payload(tid) => {
-- 
2.43.0


From f673469dc3eb9569b8b09bada86d95365cb6ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 7/8] fix: is_empty reports an empty tree as non-empty when
 inner nodes are left behind

---
 src/tree.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 99b447a..a8f6c3e 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -100,14 +100,46 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub(crate) fn is_empty(&self, _guard: &Guard) -> bool {
+        let backoff = Backoff::new();
         loop {
-            if let Ok(node) = BaseNode::read_lock_root(self.root) {
-                let is_empty = node.as_ref().meta.count == 0;
-                if node.check_version().is_ok() {
-                    return is_empty;
+            if let Ok(is_empty) = self.is_empty_inner() {
+                return is_empty;
+            }
+            backoff.spin();
+        }
+    }
+
+    /// Inner nodes stay in the tree when they lose their last child,
+    /// so the tree is empty when none of its nodes has a value.
+    fn is_empty_inner(&self) -> Result<bool, ArtError> {
+        let mut visited = Vec::new();
+        if Self::has_value(BaseNode::read_lock_root(self.root)?, &mut visited)? {
+            return Ok(false);
+        }
+        for node in visited {
+            node.unlock()?;
+        }
+        Ok(true)
+    }
+
+    fn has_value<'a>(
+        node: ReadGuard<'a>,
+        visited: &mut Vec<ReadGuard<'a>>,
+    ) -> Result<bool, ArtError> {
+        for (_k, child) in node.as_ref().get_children(0, 255) {
+            node.check_version()?;
+            match child.downcast::<K_LEN>(node.as_ref().prefix().len()) {
+                PtrType::Payload(_) => return Ok(true),
+                PtrType::SubNode(sub_node) => {
+                    if Self::has_value(BaseNode::read_lock(sub_node)?, visited)? {
+                        return Ok(true);
+                    }
                 }
             }
         }
+        node.check_version()?;
+        visited.push(node);
+        Ok(false)
     }
 
     #[inline]
-- 
2.43.0


From b5c3660cd6e864318106f4d80aa2741eadb3553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 8/8] fix: read a node before its version is checked, not after

An acquire load of the version does not keep earlier (plain) reads of the
node from happening after it, and nothing made a writer's lock visible
before what it writes under the lock. Under the language's memory model a
reader could therefore accept a node it saw half-changed. Use the fences
of a sequence lock, as crossbeam's SeqLock does; they cost no instruction
on x86.
---
 src/lock.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/lock.rs b/src/lock.rs
index 6bab45c..6144d5c 100644
--- a/src/lock.rs
+++ b/src/lock.rs
@@ -1,4 +1,8 @@
-use std::{marker::PhantomData, ptr::NonNull, sync::atomic::Ordering};
+use std::{
+    marker::PhantomData,
+    ptr::NonNull,
+    sync::atomic::{fence, Ordering},
+};
 
 use crate::{
     base_node::{BaseNode, Node},
@@ -28,9 +32,14 @@ impl<'a, T: Node> TypedReadGuard<'a, T> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(TypedWriteGuard {
-                node: unsafe { &mut *(self.node as *mut T) },
-            }),
+            Ok(_) => {
+                // Pairs with the fence in `check_version`: whoever reads what is written
+                // under the lock finds the version changed.
+                fence(Ordering::Release);
+                Ok(TypedWriteGuard {
+                    node: unsafe { &mut *(self.node as *mut T) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
@@ -86,6 +95,8 @@ impl<'a> ReadGuard<'a> {
     }
 
     pub(crate) fn check_version(&self) -> Result<usize, ArtError> {
+        // An acquire load does not keep earlier reads of the node from happening after it.
+        fence(Ordering::Acquire);
         let v = self
             .as_ref()
             .type_version_lock_obsolete
@@ -130,9 +141,14 @@ impl<'a> ReadGuard<'a> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(WriteGuard {
-                node: unsafe { &mut *(self.node.as_ptr()) },
-            }),
+            Ok(_) => {
+                // Pairs with the fence in `check_version`: whoever reads what is written
+                // under the lock finds the version changed.
+                fence(Ordering::Release);
+                Ok(WriteGuard {
+                    node: unsafe { &mut *(self.node.as_ptr()) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
-- 
2.43.0

