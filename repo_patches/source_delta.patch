From beaed8bde6b36db10f623b4aaa89cfbac9c54232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 01/22] sim: link the simulator's std under --cfg scc_sim

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3ee0f9..b9d8d35 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,11 @@
 #![deny(missing_docs, warnings, clippy::all, clippy::pedantic)]
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
+
+// Deterministic simulation: with `--cfg scc_sim`, a patched `saa` stands in for `std`, so that
+// every atomic operation and raw allocation goes through the simulator. Off by default.
+#[cfg(scc_sim)]
+extern crate saa as std;
 
 // Re-export [`sdd`](https://crates.io/crates/sdd) modules for backward compatibility.
 pub use sdd::{AtomicShared, Bag, Guard, LinkedEntry, LinkedList, Queue, Shared, Stack, Tag};
-- 
2.43.0


From 2e59979ef0b0cc52f79a870e63db82f6eb4358b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:32 +0000
Subject: [PATCH 02/22] fix: TreeIndex::remove must not remove twice

Once an entry was removed, a retry is only needed to clean up the root; removing
again may remove an entry that was inserted in the meantime.
---
 src/tree_index.rs | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/tree_index.rs b/src/tree_index.rs
index b0a40fe..fde5fc8 100644
--- a/src/tree_index.rs
+++ b/src/tree_index.rs
@@ -379,7 +379,12 @@ where
             {
                 let guard = Guard::new();
                 if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
-                    if let Ok(result) = root_ref.remove_if::<_, _, _>(
+                    if removed {
+                        // The entry was already removed: removing again may remove a new entry.
+                        if Node::cleanup_root(&self.root, &mut pinned_async_wait, &guard) {
+                            return true;
+                        }
+                    } else if let Ok(result) = root_ref.remove_if::<_, _, _>(
                         key,
                         &mut condition,
                         &mut pinned_async_wait,
@@ -396,19 +401,7 @@ where
                                 }
                                 removed = true;
                             }
-                            RemoveResult::Fail => {
-                                if removed {
-                                    if Node::cleanup_root(
-                                        &self.root,
-                                        &mut pinned_async_wait,
-                                        &guard,
-                                    ) {
-                                        return true;
-                                    }
-                                } else {
-                                    return false;
-                                }
-                            }
+                            RemoveResult::Fail => return false,
                             RemoveResult::Frozen => (),
                         }
                     }
@@ -447,7 +440,12 @@ where
         loop {
             let guard = Guard::new();
             if let Some(root_ref) = self.root.load(Acquire, &guard).as_ref() {
-                if let Ok(result) =
+                if removed {
+                    // The entry was already removed: removing again may remove a new entry.
+                    if Node::cleanup_root(&self.root, &mut (), &guard) {
+                        return true;
+                    }
+                } else if let Ok(result) =
                     root_ref.remove_if::<_, _, _>(key, &mut condition, &mut (), &guard)
                 {
                     if matches!(result, RemoveResult::Cleanup) {
@@ -461,15 +459,7 @@ where
                             }
                             removed = true;
                         }
-                        RemoveResult::Fail => {
-                            if removed {
-                                if Node::cleanup_root(&self.root, &mut (), &guard) {
-                                    return true;
-                                }
-                            } else {
-                                return false;
-                            }
-                        }
+                        RemoveResult::Fail => return false,
                         RemoveResult::Frozen => (),
                     }
                 }
-- 
2.43.0


From 0ed5c386e9b6fd122a3d90234d2ee7ee6983e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 03/22] fix: TreeIndex range scans must stop at the end bound

Whether a leaf lies entirely within the range was decided by the current maximum
key of the leaf and not by that of the snapshot being scanned, so that a removal
made the scan yield keys beyond the bound.
---
 src/tree_index/leaf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index e5845ff..af46af7 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -164,7 +164,12 @@ impl<K, V> Leaf<K, V> {
     /// Returns a reference to the max entry.
     #[inline]
     pub(super) fn max_entry(&self) -> Option<(&K, &V)> {
-        let mut mutable_metadata = self.metadata.load(Acquire);
+        self.max_entry_in(self.metadata.load(Acquire))
+    }
+
+    /// Returns a reference to the max entry in the given version of the metadata.
+    #[inline]
+    fn max_entry_in(&self, mut mutable_metadata: usize) -> Option<(&K, &V)> {
         let mut max_rank = 0;
         let mut max_index = DIMENSION.num_entries;
         for i in 0..DIMENSION.num_entries {
@@ -897,10 +902,12 @@ impl<'l, K, V> Scanner<'l, K, V> {
         ))
     }
 
-    /// Returns a reference to the max key.
+    /// Returns a reference to the max key among the entries that the [`Scanner`] can reach.
+    ///
+    /// The [`Leaf`] may have been modified since the [`Scanner`] was created.
     #[inline]
     pub(super) fn max_key(&self) -> Option<&'l K> {
-        self.leaf.max_key()
+        self.leaf.max_entry_in(self.metadata).map(|(k, _)| k)
     }
 
     /// Traverses the linked list.
-- 
2.43.0


From a96f0904ba1fb233e660046e6a4e1613d486f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 04/22] fix: TreeIndex scans must not go backwards

Comparing keys only if the current leaf is marked deleted misses leaves that were
removed along with their node; keys inserted into the next leaf can be smaller.
---
 src/tree_index/leaf.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index af46af7..32685aa 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -924,19 +924,18 @@ impl<'l, K, V> Scanner<'l, K, V> {
         while let Some(next_leaf_ref) = next_leaf_ptr.as_ref() {
             let mut leaf_scanner = Scanner::new(next_leaf_ref);
             if let Some(key) = min_allowed_key {
-                if !self.leaf.is_clear(Relaxed) {
-                    // Data race resolution: compare keys if the current leaf has been deleted.
-                    //
-                    // There is a chance that the current leaf has been deleted, and smaller
-                    // keys have been inserted into the next leaf.
-                    while let Some((k, _)) = leaf_scanner.next() {
-                        if key.cmp(k) == Ordering::Less {
-                            return Some(leaf_scanner);
-                        }
+                // Data race resolution: always compare keys.
+                //
+                // The current leaf may have been removed from the tree, and the leaf does not
+                // necessarily know it if the whole node was removed. Smaller keys may then be
+                // inserted into the next leaf.
+                while let Some((k, _)) = leaf_scanner.next() {
+                    if key.cmp(k) == Ordering::Less {
+                        return Some(leaf_scanner);
                     }
-                    next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
-                    continue;
                 }
+                next_leaf_ptr = next_leaf_ref.next_ptr(Acquire, guard);
+                continue;
             }
             if leaf_scanner.next().is_some() {
                 return Some(leaf_scanner);
-- 
2.43.0


From 13f5f3e8fe365a20d1a94be7dafb54be79e04a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 05/22] fix: TreeIndex::remove_range must not leave removed
 leaves reachable by scans

The leaves of removed nodes stayed in the linked list forever if a lock on the
border could not be acquired, or if the node on the lower border was empty; and
the list was truncated if the node on the upper border was empty.
---
 src/tree_index/internal_node.rs | 33 ++++++++++++++++++++++++++++++++
 src/tree_index/leaf_node.rs     | 34 ++++++++++++++++++++++++++-------
 src/tree_index/node.rs          | 12 ++++++++++++
 3 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 86718f6..3643ab7 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -462,12 +462,18 @@ where
                 RemoveRangeState::FullyContained => {
                     // There can be another thread inserting keys into the node, and this may
                     // render those concurrent operations completely ineffective.
+                    if let Some(node) = node.load(Acquire, guard).as_ref() {
+                        node.retire(async_wait, guard)?;
+                    }
                     self.children.remove_if(key, &mut |_| true);
                     node.swap((None, Tag::None), AcqRel);
                 }
                 RemoveRangeState::MaybeAbove => {
                     if valid_upper_min_node.is_some() {
                         // `valid_upper_min_node` is not in this sub-tree.
+                        if let Some(node) = node.load(Acquire, guard).as_ref() {
+                            node.retire(async_wait, guard)?;
+                        }
                         self.children.remove_if(key, &mut |_| true);
                         node.swap((None, Tag::None), AcqRel);
                     } else {
@@ -515,6 +521,9 @@ where
             // recursively invoked on `upper_node`.
             debug_assert!(lower_border.is_some());
             if let Some((Some(key), lower_node)) = lower_border {
+                if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
+                    unbounded.retire(async_wait, guard)?;
+                }
                 self.children.remove_if(key, &mut |_| true);
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
@@ -562,6 +571,30 @@ where
         Ok(num_children)
     }
 
+    /// Retires the node and all its descendants by removing every entry.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if a retry is required.
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W, guard: &Guard) -> Result<(), ()> {
+        let Some(_lock) = Locker::try_lock(self) else {
+            async_wait.try_wait(&self.lock);
+            return Err(());
+        };
+        for (key, node) in Scanner::new(&self.children) {
+            if let Some(node) = node.load(Acquire, guard).as_ref() {
+                node.retire(async_wait, guard)?;
+            }
+            self.children.remove_if(key, &mut |_| true);
+            node.swap((None, Tag::None), AcqRel);
+        }
+        if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
+            unbounded.retire(async_wait, guard)?;
+        }
+        self.unbounded_child.swap((None, RETIRED), AcqRel);
+        Ok(())
+    }
+
     /// Splits a full node.
     ///
     /// # Errors
diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 18cdda2..7420480 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -491,13 +491,11 @@ where
             if first_valid_leaf.is_none() {
                 first_valid_leaf.replace(&self.unbounded_child);
             }
-            valid_lower_max_leaf.link_ref().swap(
-                (
-                    first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard)),
-                    Tag::None,
-                ),
-                AcqRel,
-            );
+            if let Some(leaf) = first_valid_leaf.and_then(|l| l.get_shared(Acquire, guard)) {
+                valid_lower_max_leaf
+                    .link_ref()
+                    .swap((Some(leaf), Tag::None), AcqRel);
+            }
         } else if let Some(valid_upper_min_node) = valid_upper_min_node {
             // Connect the unbounded child with the minimum valid leaf in the node.
             valid_upper_min_node.remove_range(
@@ -513,6 +511,28 @@ where
         Ok(num_leaves)
     }
 
+    /// Retires the node by removing every leaf.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if a retry is required.
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W) -> Result<(), ()> {
+        let Some(_lock) = Locker::try_lock(self) else {
+            async_wait.try_wait(&self.lock);
+            return Err(());
+        };
+        for (key, leaf) in Scanner::new(&self.children) {
+            self.children.remove_if(key, &mut |_| true);
+            if let Some(leaf) = leaf.swap((None, Tag::None), AcqRel).0 {
+                leaf.delete_self(Release);
+            }
+        }
+        if let Some(unbounded) = self.unbounded_child.swap((None, RETIRED), AcqRel).0 {
+            unbounded.delete_self(Release);
+        }
+        Ok(())
+    }
+
     /// Splits itself into the given leaf nodes, and returns the middle key value.
     #[allow(clippy::too_many_lines)]
     pub(super) fn split_leaf_node<'g>(
diff --git a/src/tree_index/node.rs b/src/tree_index/node.rs
index d746302..ed8e0a6 100644
--- a/src/tree_index/node.rs
+++ b/src/tree_index/node.rs
@@ -192,6 +192,18 @@ where
         }
     }
 
+    /// Retires the node and all its descendants by removing every entry.
+    ///
+    /// The leaves are marked deleted, so that they cannot be reached through the linked list once
+    /// the node is unlinked from the tree.
+    #[inline]
+    pub(super) fn retire<W: TryWait>(&self, async_wait: &mut W, guard: &Guard) -> Result<(), ()> {
+        match &self {
+            Self::Internal(internal_node) => internal_node.retire(async_wait, guard),
+            Self::Leaf(leaf_node) => leaf_node.retire(async_wait),
+        }
+    }
+
     /// Splits the current root node.
     #[inline]
     pub(super) fn split_root(
-- 
2.43.0


From 678f25ab660bf90779a200f53201180d8d7ad9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 06/22] fix: capacity_range must not expose the resizing flag

While the table was being resized, the lower end of the range was off by 1 << 63.
---
 src/hash_cache.rs | 2 +-
 src/hash_index.rs | 2 +-
 src/hash_map.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hash_cache.rs b/src/hash_cache.rs
index b2a085f..3e45c9b 100644
--- a/src/hash_cache.rs
+++ b/src/hash_cache.rs
@@ -1154,7 +1154,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 }
 
diff --git a/src/hash_index.rs b/src/hash_index.rs
index 93bcff7..0736e7f 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1112,7 +1112,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
diff --git a/src/hash_map.rs b/src/hash_map.rs
index 494f7ee..4364c0a 100644
--- a/src/hash_map.rs
+++ b/src/hash_map.rs
@@ -1457,7 +1457,7 @@ where
     /// ```
     #[inline]
     pub fn capacity_range(&self) -> RangeInclusive<usize> {
-        self.minimum_capacity.load(Relaxed)..=self.maximum_capacity()
+        self.minimum_capacity()..=self.maximum_capacity()
     }
 
     /// Returns the index of the bucket that may contain the key.
-- 
2.43.0


From 72a9650dddac50d0f380c8897b28d3db5d58994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 07/22] fix: HashIndex lookups must not miss entries being
 relocated

The length of a bucket was read without synchronisation: finding it to be zero after
its last entry had been moved did not make the moved entry visible.
---
 src/hash_table/bucket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 696c865..739c830 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -364,7 +364,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         }
 
         let from_len = from_writer.len.load(Relaxed);
-        from_writer.len.store(from_len - 1, Relaxed);
+        from_writer.len.store(from_len - 1, mo);
     }
 
     /// Drops entries in the [`DataBlock`] when the bucket array is being dropped.
@@ -620,7 +620,8 @@ impl<K: Eq, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
     where
         Q: Equivalent<K> + ?Sized,
     {
-        if self.len() != 0 {
+        // `Acquire`: if the last entry was moved to another bucket, the entry must be visible there.
+        if self.len.load(Acquire) != 0 {
             if let Some((entry, _)) =
                 Self::search_data_block(&self.metadata, data_block_ref(data_block), key, hash)
             {
-- 
2.43.0


From 47f2482bf6687a9db9fc6f54a0dd54625d6b26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 08/22] fix: HashIndex remove_and_async must not hold a Guard
 when suspended

---
 src/hash_index.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 0736e7f..50af38c 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1714,11 +1714,14 @@ where
     pub async fn remove_and_async(self) -> Option<OccupiedEntry<'h, K, V, H>> {
         let hashindex = self.hashindex;
         let mut entry_ptr = self.entry_ptr.clone();
-        let guard = Guard::new();
-        self.locked_bucket
-            .writer
-            .mark_removed(&mut entry_ptr, &guard);
-        self.locked_bucket.set_has_garbage(&guard);
+        {
+            // The `Guard` must not be alive when the task is suspended.
+            let guard = Guard::new();
+            self.locked_bucket
+                .writer
+                .mark_removed(&mut entry_ptr, &guard);
+            self.locked_bucket.set_has_garbage(&guard);
+        }
         if let Some(locked_bucket) = self
             .locked_bucket
             .next_async(hashindex, &mut entry_ptr)
-- 
2.43.0


From fd1920ee85a249fb5e337751623bce34f7537c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/22] fix: cancelled tasks must not access reclaimed locks

---
 src/async_helper.rs      | 85 ++++++++++++++++++++++++++++++++++++++--
 src/hash_table/bucket.rs | 44 +++++++++------------
 2 files changed, 100 insertions(+), 29 deletions(-)

diff --git a/src/async_helper.rs b/src/async_helper.rs
index 4104a19..9959b81 100644
--- a/src/async_helper.rs
+++ b/src/async_helper.rs
@@ -1,7 +1,9 @@
 use std::cell::UnsafeCell;
+use std::mem::ManuallyDrop;
 use std::pin::{Pin, pin};
 use std::ptr;
 use std::sync::atomic::Ordering;
+use std::task::{Context, Poll, Waker};
 
 use saa::lock::Mode;
 use saa::{Lock, Pager};
@@ -20,7 +22,18 @@ pub(crate) struct AsyncGuard {
 #[derive(Debug)]
 pub(crate) struct AsyncWait {
     /// Allows the user to await the lock anywhere in the code.
-    pager: Pager<'static, Lock>,
+    pager: ManuallyDrop<Pager<'static, Lock>>,
+}
+
+/// [`LockWait`] awaits a [`Lock`], and can be cancelled while waiting for it.
+///
+/// The memory of a poisoned [`Lock`] can be reclaimed while tasks that were waiting for it are
+/// still suspended, therefore a cancelled task must not access the [`Lock`] if it was notified.
+pub(crate) struct LockWait<F: Future<Output = bool>, T, C: FnOnce() -> T> {
+    /// [`Future`] that returns `true` when the [`Lock`] is acquired.
+    future: ManuallyDrop<F>,
+    /// Takes the ownership of the acquired [`Lock`]; `None` if the result was consumed.
+    on_acquired: Option<C>,
 }
 
 /// [`TryWait`] allows [`AsyncWait`] to be used in synchronous methods.
@@ -85,7 +98,7 @@ impl AsyncWait {
     #[inline]
     pub async fn wait(self: &mut Pin<&mut Self>) {
         let this = unsafe { ptr::read(self) };
-        let mut pinned_pager = unsafe { Pin::new_unchecked(&mut this.get_unchecked_mut().pager) };
+        let mut pinned_pager = unsafe { Pin::new_unchecked(&mut *this.get_unchecked_mut().pager) };
         let _result = pinned_pager.poll_async().await;
     }
 }
@@ -95,19 +108,83 @@ impl Default for AsyncWait {
     fn default() -> Self {
         Self {
             pager: unsafe {
-                std::mem::transmute::<Pager<'_, Lock>, Pager<'static, Lock>>(Pager::default())
+                ManuallyDrop::new(
+                    std::mem::transmute::<Pager<'_, Lock>, Pager<'static, Lock>>(Pager::default()),
+                )
             },
         }
     }
 }
 
+impl Drop for AsyncWait {
+    #[inline]
+    fn drop(&mut self) {
+        // SAFETY: `AsyncWait` is always pinned, and `pager` is not used after this.
+        unsafe {
+            let mut pinned_pager = Pin::new_unchecked(&mut *self.pager);
+            // The task was cancelled if the result was not consumed: if it has not been notified by
+            // now, the lock is valid as long as the `Guard` is alive, otherwise, the lock must not
+            // be accessed.
+            let _guard = pinned_pager.is_registered().then(Guard::new);
+            let _result = pinned_pager.try_poll();
+            ManuallyDrop::drop(&mut self.pager);
+        }
+    }
+}
+
+impl<F: Future<Output = bool>, T, C: FnOnce() -> T> LockWait<F, T, C> {
+    /// Creates a new [`LockWait`].
+    #[inline]
+    pub(crate) const fn new(future: F, on_acquired: C) -> Self {
+        Self {
+            future: ManuallyDrop::new(future),
+            on_acquired: Some(on_acquired),
+        }
+    }
+}
+
+impl<F: Future<Output = bool>, T, C: FnOnce() -> T> Future for LockWait<F, T, C> {
+    type Output = Option<T>;
+
+    #[inline]
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        // SAFETY: `future` is structurally pinned, and never moved.
+        let this = unsafe { self.get_unchecked_mut() };
+        match unsafe { Pin::new_unchecked(&mut *this.future) }.poll(cx) {
+            Poll::Ready(acquired) => {
+                let on_acquired = this.on_acquired.take();
+                Poll::Ready(on_acquired.filter(|_| acquired).map(|f| f()))
+            }
+            Poll::Pending => Poll::Pending,
+        }
+    }
+}
+
+impl<F: Future<Output = bool>, T, C: FnOnce() -> T> Drop for LockWait<F, T, C> {
+    #[inline]
+    fn drop(&mut self) {
+        // The task was cancelled if the result was not consumed: if it has not been notified by
+        // now, the lock is valid as long as the `Guard` is alive, otherwise, the lock must not be
+        // accessed unless it was acquired.
+        let _guard = self.on_acquired.is_some().then(Guard::new);
+        // SAFETY: `future` is structurally pinned, and not used after being dropped in place.
+        unsafe {
+            if self.on_acquired.is_some() {
+                let mut cx = Context::from_waker(Waker::noop());
+                drop(Pin::new_unchecked(&mut *self).poll(&mut cx));
+            }
+            ManuallyDrop::drop(&mut self.future);
+        }
+    }
+}
+
 impl TryWait for Pin<&mut AsyncWait> {
     #[inline]
     fn try_wait(&mut self, lock: &Lock) {
         let this = unsafe { ptr::read(self) };
         let mut pinned_pager = unsafe {
             let pager_ref = std::mem::transmute::<&mut Pager<'static, Lock>, &mut Pager<Lock>>(
-                &mut this.get_unchecked_mut().pager,
+                &mut *this.get_unchecked_mut().pager,
             );
             Pin::new_unchecked(pager_ref)
         };
diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 739c830..474d2c9 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -10,7 +10,7 @@ use saa::Lock;
 use sdd::{AtomicShared, Epoch, Guard, Shared, Tag};
 
 use crate::Equivalent;
-use crate::async_helper::AsyncGuard;
+use crate::async_helper::{AsyncGuard, LockWait};
 
 /// [`Bucket`] is a lock-protected fixed-size entry array.
 ///
@@ -741,17 +741,16 @@ unsafe impl<K: Send + Sync, V: Send + Sync, const LEN: usize> Sync for DataBlock
 impl<K, V, L: LruList, const TYPE: char> Writer<K, V, L, TYPE> {
     /// Locks the [`Bucket`] asynchronously.
     #[inline]
-    pub(crate) async fn lock_async<'g>(
+    pub(crate) fn lock_async<'g>(
         bucket: &'g Bucket<K, V, L, TYPE>,
         async_guard: &'g AsyncGuard,
-    ) -> Option<Writer<K, V, L, TYPE>> {
-        if bucket.rw_lock.lock_async_with(|| async_guard.reset()).await {
-            // The `bucket` was not killed, and will not be killed until the `Writer` is dropped.
-            // This guarantees that the `BucketArray` will survive as long as the `Writer` is alive.
-            Some(Self::from_bucket(bucket))
-        } else {
-            None
-        }
+    ) -> impl Future<Output = Option<Writer<K, V, L, TYPE>>> + use<'g, K, V, L, TYPE> {
+        // If the `bucket` was not killed, it will not be killed until the `Writer` is dropped. This
+        // guarantees that the `BucketArray` will survive as long as the `Writer` is alive.
+        LockWait::new(
+            bucket.rw_lock.lock_async_with(|| async_guard.reset()),
+            || Self::from_bucket(bucket),
+        )
     }
 
     /// Locks the [`Bucket`] synchronously.
@@ -845,23 +844,18 @@ unsafe impl<K: Send + Sync, V: Send + Sync, L: LruList, const TYPE: char> Sync
 impl<'g, K, V, L: LruList, const TYPE: char> Reader<K, V, L, TYPE> {
     /// Locks the [`Bucket`] asynchronously.
     #[inline]
-    pub(crate) async fn lock_async(
+    pub(crate) fn lock_async(
         bucket: &'g Bucket<K, V, L, TYPE>,
-        async_guard: &AsyncGuard,
-    ) -> Option<Reader<K, V, L, TYPE>> {
-        if bucket
-            .rw_lock
-            .share_async_with(|| async_guard.reset())
-            .await
-        {
-            // The `bucket` was not killed, and will not be killed until the `Reader` is dropped.
-            // This guarantees that the `BucketArray` will survive as long as the `Reader` is alive.
-            Some(Reader {
+        async_guard: &'g AsyncGuard,
+    ) -> impl Future<Output = Option<Reader<K, V, L, TYPE>>> + use<'g, K, V, L, TYPE> {
+        // If the `bucket` was not killed, it will not be killed until the `Reader` is dropped. This
+        // guarantees that the `BucketArray` will survive as long as the `Reader` is alive.
+        LockWait::new(
+            bucket.rw_lock.share_async_with(|| async_guard.reset()),
+            || Reader {
                 bucket_ptr: bucket_ptr(bucket),
-            })
-        } else {
-            None
-        }
+            },
+        )
     }
 
     /// Locks the [`Bucket`] synchronously.
-- 
2.43.0


From 99767fbf67590d002b4628b77eaa0df1b33cf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 10/22] fix: TreeIndex leaves must not be deleted before a
 panicking comparison

---
 src/tree_index/leaf_node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 7420480..8ae789d 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -943,10 +943,12 @@ where
                 let leaf_ptr = entry.1.load(Acquire, guard);
                 let leaf = leaf_ptr.as_ref().unwrap();
                 if leaf.is_retired() {
-                    let deleted = leaf.delete_self(Release);
-                    debug_assert!(deleted);
+                    // Comparing keys may panic, therefore the leaf must stay in the linked list
+                    // until it is removed from `self.children`.
                     let result = self.children.remove_if(entry.0, &mut |_| true);
                     debug_assert_ne!(result, RemoveResult::Fail);
+                    let deleted = leaf.delete_self(Release);
+                    debug_assert!(deleted);
 
                     // The pointer is nullified after the metadata of `self.children` is updated so
                     // that readers are able to retry when they find it being `null`.
-- 
2.43.0


From 3992167282159c238af167731d9515d83c7e6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 11/22] fix: buckets must be pre-allocated for relocation when
 there is no linked bucket

---
 src/hash_table/bucket.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 474d2c9..55508d9 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -304,24 +304,23 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
 
         let mut capacity =
             BUCKET_LEN - self.metadata.occupied_bitmap.load(Relaxed).count_ones() as usize;
-        if capacity < additional {
-            let mut link_ptr = self.metadata.load_link();
-            while let Some(link) = link_ref(link_ptr) {
+        let mut link_ptr = self.metadata.load_link();
+        while capacity < additional {
+            if let Some(link) = link_ref(link_ptr) {
                 capacity += LINKED_BUCKET_LEN
                     - link.metadata.occupied_bitmap.load(Relaxed).count_ones() as usize;
-                if capacity >= additional {
-                    return;
-                }
-                let mut next_link_ptr = link.metadata.load_link();
-                if next_link_ptr.is_null() {
-                    let new_link = unsafe { Shared::new_unchecked(LinkedBucket::new(None)) };
-                    new_link.prev_link.store(link_ptr.cast_mut(), Relaxed);
-                    next_link_ptr = new_link.as_ptr();
-                    link.metadata
-                        .link
-                        .swap((Some(new_link), Tag::None), Release);
+                link_ptr = link.metadata.load_link();
+            } else {
+                // Insert a new `LinkedBucket` at the linked list head.
+                let head = self.metadata.link.get_shared(Relaxed, fake_ref(self));
+                let new_link = unsafe { Shared::new_unchecked(LinkedBucket::new(head)) };
+                if let Some(head) = link_ref(new_link.metadata.load_link()) {
+                    head.prev_link.store(new_link.as_ptr().cast_mut(), Relaxed);
                 }
-                link_ptr = next_link_ptr;
+                self.metadata
+                    .link
+                    .swap((Some(new_link), Tag::None), Release);
+                capacity += LINKED_BUCKET_LEN;
             }
         }
     }
-- 
2.43.0


From 6c78b87d86be1befa020004c274a054fe92c5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 12/22] fix: TreeIndex nodes must not be shared by two parents'
 slots after a panic

---
 src/tree_index/internal_node.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 3643ab7..99272c2 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -1,4 +1,4 @@
-use std::cmp::Ordering::{Equal, Greater, Less};
+use std::cmp::Ordering::{self, Equal, Greater, Less};
 use std::mem::forget;
 use std::ops::RangeBounds;
 use std::ptr;
@@ -12,9 +12,9 @@ use super::leaf::{DIMENSION, InsertResult, Leaf, RemoveResult, Scanner};
 use super::leaf_node::RETIRED;
 use super::leaf_node::RemoveRangeState;
 use super::node::Node;
-use crate::Comparable;
 use crate::async_helper::TryWait;
 use crate::exit_guard::ExitGuard;
+use crate::{Comparable, Equivalent};
 
 /// Internal node.
 ///
@@ -50,6 +50,10 @@ struct StructuralChange<K, V> {
     high_key_node: AtomicShared<Node<K, V>>,
 }
 
+/// [`MaxKey`] points to the maximum key in a [`Leaf`], and comparing it with other keys in the
+/// [`Leaf`] does not run user-specified code.
+struct MaxKey<'k, K>(&'k K);
+
 impl<K, V> InternalNode<K, V> {
     /// Creates a new empty internal node.
     #[inline]
@@ -1006,7 +1010,8 @@ where
                             let _: bool = obsolete_node.release();
                             node_deleted = true;
                         }
-                        let result = self.children.remove_if(key, &mut |_| true);
+                        // It must not panic since the node is reachable via two pointers.
+                        let result = self.children.remove_if(&MaxKey(key), &mut |_| true);
                         debug_assert_ne!(result, RemoveResult::Fail);
                         if let Some(node) = max_key_child.swap((None, Tag::None), Release).0 {
                             let _: bool = node.release();
@@ -1097,6 +1102,20 @@ impl<K, V> Drop for Locker<'_, K, V> {
     }
 }
 
+impl<K> Equivalent<K> for MaxKey<'_, K> {
+    #[inline]
+    fn equivalent(&self, key: &K) -> bool {
+        ptr::eq(self.0, key)
+    }
+}
+
+impl<K> Comparable<K> for MaxKey<'_, K> {
+    #[inline]
+    fn compare(&self, key: &K) -> Ordering {
+        if ptr::eq(self.0, key) { Equal } else { Greater }
+    }
+}
+
 impl<K, V> StructuralChange<K, V> {
     fn reset(&self) -> Option<Shared<Node<K, V>>> {
         self.origin_node_key.store(ptr::null_mut(), Relaxed);
-- 
2.43.0


From c792198383b1323386b522f0c3f18e73b7c3a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 13/22] fix: HashIndex must not reclaim a garbage chain that
 has been replaced

---
 src/hash_index.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/hash_index.rs b/src/hash_index.rs
index 50af38c..a22ab61 100644
--- a/src/hash_index.rs
+++ b/src/hash_index.rs
@@ -1190,10 +1190,17 @@ where
     /// Deallocates garbage bucket arrays if they are unreachable.
     fn dealloc_garbage(&self) {
         let guard = Guard::new();
-        let head_ptr = self.garbage_chain.load(Acquire, &guard);
-        if head_ptr.is_null() {
+        // The tag prevents others from replacing the chain with another one that starts at the same
+        // address until it is detached here.
+        if !self.garbage_chain.update_tag_if(
+            Tag::First,
+            |ptr| !ptr.is_null() && ptr.tag() == Tag::None,
+            Acquire,
+            Relaxed,
+        ) {
             return;
         }
+        let head_ptr = self.garbage_chain.load(Acquire, &guard);
         let garbage_epoch = self.garbage_epoch.load(Acquire);
         if Epoch::try_from(garbage_epoch).is_ok_and(|e| !e.in_same_generation(guard.epoch())) {
             if let Ok((mut garbage_head, _)) = self.garbage_chain.compare_exchange(
@@ -1211,10 +1218,13 @@ where
                     let dropped = unsafe { garbage_bucket_array.drop_in_place() };
                     debug_assert!(dropped);
                 }
+                return;
             }
         } else {
             guard.set_has_garbage();
         }
+        self.garbage_chain
+            .update_tag_if(Tag::None, |_| true, Release, Relaxed);
     }
 }
 
@@ -1376,10 +1386,21 @@ where
         guard.accelerate();
         self.reclaim_memory();
         self.garbage_epoch.swap(u8::from(guard.epoch()), Release);
-        let (Some(prev_head), _) = self
-            .garbage_chain
-            .swap((Some(bucket_array.clone()), Tag::None), AcqRel)
-        else {
+        let mut head_ptr = self.garbage_chain.load(Relaxed, guard);
+        let prev_head = loop {
+            // The tag must be kept since it may be set by a thread reclaiming memory.
+            match self.garbage_chain.compare_exchange(
+                head_ptr,
+                (Some(bucket_array.clone()), head_ptr.tag()),
+                AcqRel,
+                Relaxed,
+                guard,
+            ) {
+                Ok((prev_head, _)) => break prev_head,
+                Err((_, actual)) => head_ptr = actual,
+            }
+        };
+        let Some(prev_head) = prev_head else {
             return;
         };
         // The bucket array will be dropped when the epoch enters the next generation.
-- 
2.43.0


From 579fdca03714b4e7e642e12e46a7adf1acf34121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 14/22] fix: TreeIndex must unlink new leaves if splitting a
 leaf panics

---
 src/tree_index/leaf_node.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_index/leaf_node.rs b/src/tree_index/leaf_node.rs
index 8ae789d..93354ff 100644
--- a/src/tree_index/leaf_node.rs
+++ b/src/tree_index/leaf_node.rs
@@ -825,7 +825,14 @@ where
 
         // Distribute entries to two leaves after make the target retired.
         let exit_guard = ExitGuard::new((), |()| {
+            // The new leaves may have been pushed into the linked list.
+            for new_leaf in [&self.split_op.high_key_leaf, &self.split_op.low_key_leaf] {
+                if let Some(new_leaf) = new_leaf.load(Relaxed, guard).as_ref() {
+                    new_leaf.delete_self(Release);
+                }
+            }
             target.thaw();
+            target.unmark(Release);
             self.split_op.reset();
             self.lock.release_lock();
         });
-- 
2.43.0


From c77091658222d7f9c63631283f9fcb5ce75bb8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 15/22] fix: TreeIndex::insert must not report a duplicate key
 if the leaf is thawed

---
 src/tree_index/leaf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 32685aa..914567b 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -690,7 +690,11 @@ where
                     .compare_exchange(prev_metadata, final_metadata, AcqRel, Acquire)
             {
                 if Dimension::frozen(actual) || Dimension::retired(actual) {
-                    return self.rollback(free_slot_index);
+                    return match self.rollback(free_slot_index) {
+                        // The leaf has just been thawed: the key may not exist.
+                        InsertResult::Duplicate(key, val) => InsertResult::Frozen(key, val),
+                        result => result,
+                    };
                 }
                 prev_metadata = actual;
                 continue;
-- 
2.43.0


From 6393700713f8e62ae9e5d65c564d92ad198a86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 16/22] fix: asynchronous operations must not access a bucket
 array after ending rehashing without a Guard

---
 src/hash_table.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index cd2794a..8fcaebb 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -1189,13 +1189,16 @@ where
                     debug_assert!(current_array.has_linked_array());
                 }
 
+                // Instantiate a guard before ending rehashing, since the bucket arrays may be dropped
+                // afterwards if the last bucket was killed while the task was suspended.
+                let guard = async_guard.guard();
                 if Self::end_incremental_rehash(rehashing_guard.0, rehashing_guard.1, true) {
                     if let Some(bucket_array) = current_array
                         .linked_array_var()
                         .swap((None, Tag::None), Release)
                         .0
                     {
-                        self.defer_reclaim(bucket_array, async_guard.guard());
+                        self.defer_reclaim(bucket_array, guard);
                     }
                 }
                 rehashing_guard.forget();
-- 
2.43.0


From c8bd842ad84060f0b497c567f0c5d800f151f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 17/22] fix: TreeIndex::remove_range must not hide keys below
 the range

---
 src/tree_index/internal_node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 99272c2..7c4211e 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -528,9 +528,12 @@ where
                 if let Some(unbounded) = self.unbounded_child.load(Acquire, guard).as_ref() {
                     unbounded.retire(async_wait, guard)?;
                 }
-                self.children.remove_if(key, &mut |_| true);
+                // The key must be removed after the unbounded child is replaced, otherwise keys
+                // below the range would be searched for in the retired child.
                 self.unbounded_child
                     .swap((lower_node.get_shared(Acquire, guard), Tag::None), AcqRel);
+                let result = self.children.remove_if(&MaxKey(key), &mut |_| true);
+                debug_assert_ne!(result, RemoveResult::Fail);
                 lower_node.swap((None, Tag::None), Release);
             }
             if let Some(lower_node) = self.unbounded_child.load(Acquire, guard).as_ref() {
-- 
2.43.0


From 68c2f20fd5de3b357696041520912470a797ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 18/22] fix: a panicking Hash must not leave a bucket half
 relocated

---
 src/hash_table.rs | 54 +++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index 8fcaebb..ae04b8b 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -1010,6 +1010,7 @@ where
     ) {
         // Need to pre-allocate slots if the container is shrinking or the old bucket overflows,
         // because incomplete relocation of entries may result in duplicate key problems.
+        let is_growing = old_array.len() < current_array.len();
         let pre_allocate_slots =
             old_array.len() > current_array.len() || old_writer.len() > BUCKET_LEN;
         let old_data_block = old_array.data_block(old_index);
@@ -1018,23 +1019,28 @@ where
         let mut dist = [0_u32; 8];
         let mut extended_dist: Vec<u32> = Vec::new();
         let mut hash_data = [0_u64; BUCKET_LEN];
+        let mut extended_hash_data: Vec<u64> = Vec::new();
 
         // Collect data for relocation.
+        //
+        // Every hash value is calculated before the first entry is moved since hashing may panic.
         while entry_ptr.move_to_next(old_writer) {
-            let (offset, hash) = if old_array.len() >= current_array.len() {
-                (0, u64::from(entry_ptr.partial_hash(&**old_writer)))
-            } else {
+            let offset = if is_growing {
                 let hash = self.hash(&entry_ptr.get_mut(old_data_block, old_writer).0);
                 let new_index = current_array.bucket_index(hash);
                 debug_assert!(new_index - target_index < (current_array.len() / old_array.len()));
-                (new_index - target_index, hash)
-            };
-
-            if pre_allocate_slots {
-                if position != BUCKET_LEN {
+                if position == BUCKET_LEN {
+                    extended_hash_data.push(hash);
+                } else {
                     hash_data[position] = hash;
                     position += 1;
                 }
+                new_index - target_index
+            } else {
+                0
+            };
+
+            if pre_allocate_slots {
                 if offset < 8 {
                     dist[offset] += 1;
                 } else {
@@ -1043,21 +1049,9 @@ where
                     }
                     extended_dist[offset - 8] += 1;
                 }
-            } else {
-                current_array.bucket(target_index + offset).extract_from(
-                    current_array.data_block(target_index + offset),
-                    hash,
-                    old_writer,
-                    old_data_block,
-                    &mut entry_ptr,
-                );
             }
         }
 
-        if !pre_allocate_slots {
-            return;
-        }
-
         // Allocate memory.
         for (i, d) in dist.iter().chain(extended_dist.iter()).enumerate() {
             if *d != 0 {
@@ -1067,21 +1061,17 @@ where
         }
 
         // Relocate entries; it is infallible.
+        let mut hash_iter = hash_data.iter().take(position).chain(&extended_hash_data);
         entry_ptr = EntryPtr::null();
-        position = 0;
         while entry_ptr.move_to_next(old_writer) {
-            let hash = if old_array.len() >= current_array.len() {
-                u64::from(entry_ptr.partial_hash(&**old_writer))
-            } else if position == BUCKET_LEN {
-                self.hash(&entry_ptr.get(old_data_block).0)
-            } else {
-                position += 1;
-                hash_data[position - 1]
-            };
-            let index = if old_array.len() >= current_array.len() {
-                target_index
+            let (index, hash) = if is_growing {
+                let hash = hash_iter.next().copied().unwrap_or(0);
+                (current_array.bucket_index(hash), hash)
             } else {
-                current_array.bucket_index(hash)
+                (
+                    target_index,
+                    u64::from(entry_ptr.partial_hash(&**old_writer)),
+                )
             };
             current_array.bucket(index).extract_from(
                 current_array.data_block(index),
-- 
2.43.0


From 4be0b9004b910564e5b1cb035c756397923ce591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 19/22] fix: a reservation must be given back if resizing
 panics

---
 src/hash_table.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hash_table.rs b/src/hash_table.rs
index ae04b8b..d13f24d 100644
--- a/src/hash_table.rs
+++ b/src/hash_table.rs
@@ -105,12 +105,20 @@ where
                 Relaxed,
             ) {
                 Ok(_) => {
+                    // The reservation is given back if resizing the container panics.
+                    let mut reserve_guard = ExitGuard::new(true, |unwinding| {
+                        if unwinding {
+                            self.minimum_capacity_var()
+                                .fetch_sub(additional_capacity, Relaxed);
+                        }
+                    });
                     let guard = Guard::new();
                     if let Some(current_array) = self.bucket_array(&guard) {
                         if !current_array.has_linked_array() {
                             self.try_resize(current_array, 0, &guard);
                         }
                     }
+                    *reserve_guard = false;
                     return additional_capacity;
                 }
                 Err(actual) => current_minimum_capacity = actual,
-- 
2.43.0


From dda733353a9755c59957bf5b2461d2735ffe5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 20/22] fix: HashIndex entries must not be visible before the
 bucket length is updated

---
 src/hash_table/bucket.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash_table/bucket.rs b/src/hash_table/bucket.rs
index 55508d9..da9f060 100644
--- a/src/hash_table/bucket.rs
+++ b/src/hash_table/bucket.rs
@@ -160,6 +160,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
         if free_index == BUCKET_LEN {
             self.insert_overflow(hash, entry)
         } else {
+            // `len` is updated before the entry becomes visible to lock-free readers.
+            self.len.store(self.len.load(Relaxed) + 1, Relaxed);
             self.insert_entry(
                 &self.metadata,
                 data_block_ref(data_block),
@@ -168,7 +170,6 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                 hash,
                 entry,
             );
-            self.len.store(self.len.load(Relaxed) + 1, Relaxed);
             EntryPtr {
                 link_ptr: ptr::null(),
                 index: free_index,
@@ -396,6 +397,7 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             let free_index = occupied_bitmap.trailing_ones() as usize;
             if free_index != LINKED_BUCKET_LEN {
                 debug_assert!(free_index < LINKED_BUCKET_LEN);
+                self.len.store(self.len.load(Relaxed) + 1, Relaxed);
                 self.insert_entry(
                     &link.metadata,
                     &link.data_block,
@@ -404,7 +406,6 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
                     hash,
                     entry,
                 );
-                self.len.store(self.len.load(Relaxed) + 1, Relaxed);
                 return EntryPtr {
                     link_ptr,
                     index: free_index,
@@ -427,8 +428,8 @@ impl<K, V, L: LruList, const TYPE: char> Bucket<K, V, L, TYPE> {
             head.prev_link.store(link.as_ptr().cast_mut(), Relaxed);
         }
         let link_ptr = link.as_ptr();
-        self.metadata.link.swap((Some(link), Tag::None), Release);
         self.len.store(self.len.load(Relaxed) + 1, Relaxed);
+        self.metadata.link.swap((Some(link), Tag::None), Release);
         EntryPtr { link_ptr, index: 0 }
     }
 
-- 
2.43.0


From 7e95e7026dcbf43ff95fc908e189039d5a492ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 21/22] sim: nodes with room for four entries under --cfg
 scc_sim_small

---
 src/tree_index/leaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree_index/leaf.rs b/src/tree_index/leaf.rs
index 914567b..b3eaa06 100644
--- a/src/tree_index/leaf.rs
+++ b/src/tree_index/leaf.rs
@@ -841,7 +841,7 @@ impl Dimension {
 /// * `Eq3 = Ceil(Log2(M + 2)) * M + 2 <= U`: derived from `Eq1` and `Eq2`.
 ///
 /// Therefore, when `U = 64 => M = 14 / B = 4`, and `U = 32 => M = 7 / B = 4`.
-pub const DIMENSION: Dimension = match usize::BITS / 8 {
+pub const DIMENSION: Dimension = match usize::BITS / if cfg!(scc_sim_small) { 32 } else { 8 } {
     1 => Dimension {
         num_entries: 2,
         num_bits_per_entry: 2,
-- 
2.43.0


From 42f51b3d9506f7b4aa02e2b844019031b95cbb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 22/22] fix: TreeIndex::remove_range must not stop at an
 emptied node

---
 src/tree_index/internal_node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree_index/internal_node.rs b/src/tree_index/internal_node.rs
index 7c4211e..ff72375 100644
--- a/src/tree_index/internal_node.rs
+++ b/src/tree_index/internal_node.rs
@@ -545,6 +545,9 @@ where
                     async_wait,
                     guard,
                 )?;
+            } else {
+                // The node was emptied concurrently: there is no leaf to connect.
+                upper_node.remove_range(range, true, None, None, async_wait, guard)?;
             }
         } else {
             let lower_node = lower_border.and_then(|n| n.1.load(Acquire, guard).as_ref());
-- 
2.43.0

