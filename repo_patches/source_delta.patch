From 2ba89e5d2544ea11bdda6b990523f6fdff9a1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 01/17] Hooks for runtime monitors behind cfg(palmtree_verif):
 shape introspection, no prefetch on nightly

---
 src/arch.rs  |  5 ++++-
 src/lib.rs   |  2 ++
 src/verif.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/arch.rs b/src/arch.rs
index 11734be..d18dcc0 100644
--- a/src/arch.rs
+++ b/src/arch.rs
@@ -12,7 +12,10 @@
 )]
 pub(crate) unsafe fn prefetch<A>(data: &A) {
     // TODO think more carefully about the locality values.
-    #[cfg(core_intrinsics)]
+    // With `palmtree_verif`, a nightly build (Miri) does not prefetch at all.
+    #[cfg(all(core_intrinsics, palmtree_verif))]
+    let _ = data;
+    #[cfg(all(core_intrinsics, not(palmtree_verif)))]
     std::intrinsics::prefetch_read_data(data, 2);
     #[cfg(all(not(core_intrinsics), target_arch = "x86"))]
     std::arch::x86::_mm_prefetch(data as *const _ as *const i8, std::arch::x86::_MM_HINT_T1);
diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..03157fc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,6 +32,8 @@ mod iter;
 mod leaf;
 mod pointer;
 mod search;
+#[cfg(palmtree_verif)]
+mod verif;
 
 use branch::Branch;
 use leaf::Leaf;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..42a78c8
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,44 @@
+//! Read-only introspection for the runtime monitors, compiled only with
+//! `--cfg palmtree_verif`.
+
+use crate::{branch::Branch, config::TreeConfig, PalmTree};
+
+impl<K, V, C> PalmTree<K, V, C>
+where
+    K: Ord,
+    C: TreeConfig<K, V>,
+{
+    /// The nodes of the tree in preorder, as `(depth, is_leaf, length, stale)`.
+    ///
+    /// `stale` tells whether the parent's key for this node is higher than
+    /// the highest key the node itself holds.
+    pub fn verif_shape(&self) -> Vec<(usize, bool, usize, bool)> {
+        fn walk<K, V, C>(
+            branch: &Branch<K, V, C>,
+            depth: usize,
+            stale: bool,
+            out: &mut Vec<(usize, bool, usize, bool)>,
+        ) where
+            K: Ord,
+            C: TreeConfig<K, V>,
+        {
+            out.push((depth, false, branch.len(), stale));
+            for (index, key) in branch.keys().iter().enumerate() {
+                if branch.has_branches() {
+                    let child = branch.get_branch(index);
+                    let stale = child.keys().last().map_or(true, |last| last < key);
+                    walk(child, depth + 1, stale, out);
+                } else {
+                    let leaf = branch.get_leaf(index);
+                    let stale = leaf.keys().last().map_or(true, |last| last < key);
+                    out.push((depth + 1, true, leaf.len(), stale));
+                }
+            }
+        }
+        let mut out = Vec::new();
+        if let Some(ref root) = self.root {
+            walk(root, 0, false, &mut out);
+        }
+        out
+    }
+}
-- 
2.43.0


From d9b40d277b71c0573d594763194319a289ee98f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 02/17] fix: SyncShared::deref must read the pointer as an Arc,
 not as a Box

---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From a471f8f8d67efd8536626c174e5cc87e66590128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 03/17] fix: splitting a node of odd length must give the right
 half all the entries it takes

---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From c65eece83f8b46944e485a805a19e1254a40b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 04/17] fix: a tree may only be Send or Sync if its keys and
 values are

---
 src/pointer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..6c5f78a 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -168,8 +168,12 @@ pub(crate) struct Pointer<A, Kind: PointerKind> {
     kind: PhantomData<A>,
 }
 
-unsafe impl<A, Kind> Send for Pointer<A, Kind> where Kind: PointerKind + Send {}
-unsafe impl<A, Kind> Sync for Pointer<A, Kind> where Kind: PointerKind + Sync {}
+// As for `Box`.
+unsafe impl<A: Send> Send for Pointer<A, Unique> {}
+unsafe impl<A: Sync> Sync for Pointer<A, Unique> {}
+// As for `Arc`.
+unsafe impl<A: Send + Sync> Send for Pointer<A, SyncShared> {}
+unsafe impl<A: Send + Sync> Sync for Pointer<A, SyncShared> {}
 
 impl<A, Kind: PointerKind> Pointer<A, Kind> {
     fn from_data(data: Kind) -> Self {
-- 
2.43.0


From 690ee54ba8a35daaad804c907a86de065010347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 05/17] fix: an inclusive range end must not include the next
 higher key

---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..32558ad 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -247,8 +247,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If we've found a value higher than key, we're one leaf ahead of the target key and step back.
+            unsafe {
+                if leaf.keys().get_unchecked(ptr.index) > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From e61a8ed6e3a59a760b405c8240340c65c6e491e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 06/17] fix: an exclusive range start must not include a lower
 key when the branch keys are stale

---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 32558ad..355adf9 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -231,7 +231,8 @@ where
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                // As in `key_or_higher`, the leaf we found may hold only keys lower than `key`.
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From 6538ad509435bbc36d0cac995e0a5cae5e236bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 07/17] fix: removing a branch's last child must lower the keys
 of the branches above it

---
 src/search.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index 355adf9..df23428 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -439,6 +439,20 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    // If the last child is gone, the highest key this branch can hold is now lower,
+                    // and the branches above it must not promise anything higher.
+                    if index == branch.len() {
+                        let mut child = branch;
+                        while let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = child.highest().clone();
+                            if index + 1 < parent.len() {
+                                break;
+                            }
+                            child = parent;
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From c317575a78395bb314c77546cadcc0248194c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 08/17] fix: OwnedIter must step its own end back, and stop
 when both ends have met

---
 src/iter/owned.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..61da543 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -49,7 +49,7 @@ where
     type Item = (K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -78,7 +78,7 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +87,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From ae9f52e3f14f9f8ca1d937ded3bded2d438072e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 09/17] fix: inserting recursively into an emptied tree must
 not put a leaf into a branch of branches

---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 03157fc..5b88941 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -408,11 +408,8 @@ where
             // Tree walking algos assume the tree has no empty nodes, so we have to
             // handle this as a special case.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
-                debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
-
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                // The empty root may be a branch of branches, so it can't be reused as it is.
+                *root_ref = Branch::unit(Pointer::new(Leaf::unit(key, value)));
                 self.size = 1;
                 None
             } else {
-- 
2.43.0


From 0467e5d104638a3450dfac1a88fc25fef3ed33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 10/17] fix: retry a recursive insertion recursively, as branch
 keys have been raised already

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b88941..ef491f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -425,7 +425,7 @@ where
                         let key2 = root_ref.highest().clone();
                         let child = std::mem::replace(root_ref, Branch::new(true));
                         root_ref.push_branch(key2, Pointer::new(child));
-                        self.insert(key, value)
+                        self.insert_recursive(key, value)
                     }
                 }
             }
-- 
2.43.0


From 2d416d340706310b4c5c58ea325aa90d1a1a5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 11/17] fix: PalmTree::load never validated the order of its
 input in debug mode

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ef491f0..91599c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -133,12 +133,12 @@ where
         for (key, value) in iter {
             #[cfg(debug_assertions)]
             {
-                if let (last_index, Some(last_key)) = last_record {
-                    if last_key >= key {
-                        panic!("PalmTree::load: unordered key at index {}", last_index);
+                if let (index, Some(ref last_key)) = last_record {
+                    if *last_key >= key {
+                        panic!("PalmTree::load: unordered key at index {}", index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (last_record.0 + 1, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 961d9f0fcd909dca524d55552b181a24eff68e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 12/17] fix: casting a shared pointer to a node must work for
 nodes of any alignment

---
 src/pointer.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 6c5f78a..6e5c749 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -187,16 +187,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -204,8 +194,12 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        // Going through a raw pointer to the contents would be wrong here: where
+        // `Rc` and `Arc` keep them depends on their alignment.
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From fe471f70ac6d0c56e205171a2a61aff7dd117dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 13/17] fix: allow paths as long as the tallest possible tree,
 not just 16 branches

---
 src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index df23428..2770de5 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,8 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// A branch has at least two children when the tree grows taller, so no tree that fits into memory is higher.
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 48baca08f1b228b75af677f87da135b4c82af677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 14/17] fix: IterMut must not rely on Ord to notice that its
 ends have met

---
 src/iter/mut_iter.rs | 4 ++--
 src/search.rs        | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..e52b4e5 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -103,7 +103,7 @@ where
             return None;
         }
         let value = self.left_value().unwrap();
-        if cmp == Ordering::Equal {
+        if cmp == Ordering::Equal || self.left.same_place(&self.right) {
             self.left.clear();
             self.right.clear();
         } else {
@@ -130,7 +130,7 @@ where
             return None;
         }
         let value = self.right_value().unwrap();
-        if cmp == Ordering::Equal {
+        if cmp == Ordering::Equal || self.left.same_place(&self.right) {
             self.left.clear();
             self.right.clear();
         } else {
diff --git a/src/search.rs b/src/search.rs
index 2770de5..44e8b4a 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -596,6 +596,10 @@ where
         self.leaf = std::ptr::null();
     }
 
+    pub(crate) fn same_place(&self, other: &Self) -> bool {
+        self.leaf == other.leaf && self.index == other.index
+    }
+
     pub(crate) fn is_null(&self) -> bool {
         self.leaf.is_null()
     }
-- 
2.43.0


From 03d309da8b7b7c9e47d0e4c509bf40eebecc4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 15/17] fix: reject node sizes below four, as the bounds were
 meant to

---
 src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b2de38b..be2ba50 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,11 +1,11 @@
 use crate::{branch::node::Node, PointerKind};
 use generic_array::ArrayLength;
 use std::marker::PhantomData;
-use typenum::{IsGreater, U3, U64};
+use typenum::{IsGreater, True, U3, U64};
 
 pub trait TreeConfig<K, V> {
-    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3>;
-    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3>;
+    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3, Output = True>;
+    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3, Output = True>;
     type PointerKind: PointerKind;
 }
 
-- 
2.43.0


From e772e5d80776d5828512fbfc3e76aa7d4047e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 16/17] fix: removing, entries, mutable and owning iterators
 must not write to nodes shared with a clone

---
 src/entry.rs         |  7 +++++--
 src/iter/mut_iter.rs |  6 +++++-
 src/iter/owned.rs    | 14 ++++++++-----
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..771071a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,12 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index e52b4e5..1951df5 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,12 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 61da543..cedc8e1 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,13 +20,17 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            let root = Pointer::make_mut(root);
             Self {
-                left: PathedPointer::lowest(&root),
-                right: PathedPointer::highest(&root),
+                left: PathedPointer::lowest(root),
+                right: PathedPointer::highest(root),
                 tree,
                 remaining,
             }
diff --git a/src/lib.rs b/src/lib.rs
index 91599c7..ba117c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -231,7 +231,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -244,12 +247,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -266,9 +273,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -276,21 +286,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -320,7 +338,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -331,7 +352,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -680,6 +704,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -692,6 +717,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 7473f91a6f7928bf516f01ce2f77342875e275f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 17/17] fix: stepping back into an emptied leaf must not wrap
 the index around

---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 44e8b4a..0d29c61 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -400,7 +400,8 @@ where
                             } else {
                                 // If it's a leaf, this is our new leaf, we're done.
                                 self.leaf = (*branch).get_leaf_unchecked(index as usize);
-                                self.index = (*self.leaf).keys().len() - 1;
+                                // An owning iterator may have emptied this leaf from the other end.
+                                self.index = (*self.leaf).keys().len().saturating_sub(1);
                                 // Prefetch the next leaf.
                                 if index > 0 {
                                     prefetch((*branch).get_leaf_unchecked(index as usize - 1));
-- 
2.43.0

