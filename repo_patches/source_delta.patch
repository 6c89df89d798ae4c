From 9d54dc9d3b83f86cbfb00022cacd3f32bea4246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 01/17] fix: SyncShared dereferenced its Arc as a Box

Reading through a SyncShared pointer took the start of the Arc's allocation,
the reference counts, for the node.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From 23b8eed1cad8c5aa5304193aa2e36b110d30006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 02/17] fix: casting a shared pointer corrupted it for
 over-aligned nodes

Rc::from_raw::<()> subtracts the wrong header size from a pointer obtained
from Rc::into_raw of a value aligned to more than two words.
---
 src/pointer.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..8707478 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -183,16 +183,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -201,7 +191,10 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
     }
 
     pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+        // A reference counted pointer keeps its value at an offset which depends on the
+        // value's alignment, so going through a raw pointer to the wrong type would lose it.
+        let mut this = ManuallyDrop::new(this);
+        Pointer::from_data(ManuallyDrop::take(&mut this.data))
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From fd137d701d52180a583d8ab03c6a327a4463472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 03/17] fix: splitting a node of odd size miscounted both
 halves

The right half takes everything from the middle on, which is one more than
half of an odd number.
---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 1fdcc1cbcaa9031dafca8b46bba07e9dc4531614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 04/17] fix: load never validated the order of its input in
 debug mode

The last key was only recorded if one was recorded before.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..5ca9bb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -135,8 +135,8 @@ where
                     if last_key >= key {
                         panic!("PalmTree::load: unordered key at index {}", last_index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (size, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From b05edc83069aa13a5c043151e321567f61866c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 05/17] fix: trees with small nodes panicked when they grew
 past 16 levels

Nodes of size 4 reach that height after a few hundred thousand insertions.
---
 src/search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index ad73548..9ee4005 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,8 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U32>; // FIXME hardcoded max height of 32
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 32]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 70be315dc99b83cc8858802441b1bef32ccda13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 06/17] fix: ranges with an inclusive end yielded the first key
 past the end

key_or_lower found the closest higher key when the exact key was absent.
---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 9ee4005..6f3725c 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -247,8 +247,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If we've found a value higher than key, we're one branch ahead of the target key and step back.
+            unsafe {
+                if leaf.keys().get_unchecked(ptr.index) > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From 430d06b90d6ba3b10aa124d9be71439acbabb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 07/17] fix: ranges with an exclusive start could yield a key
 before the start

After the highest key of a leaf is removed, the search can end on a leaf
whose keys are all lower than the bound.
---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 6f3725c..a72996b 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -231,7 +231,8 @@ where
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                // As in `key_or_higher`, every key in this leaf may be lower than `key`.
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From a7d00d989752f6935f36e587760ee7e9f09c1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 08/17] fix: keys went missing after the last child of a branch
 was removed

Removing the last child of a branch leaves the keys above it as they were, so
a search for a key between the two ended nowhere: ranges came out empty, and
insertions went to the right edge of the tree.
---
 src/search.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index a72996b..8b576ca 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -135,15 +135,19 @@ where
     C: TreeConfig<K, V>,
 {
     loop {
-        if let Some(index) = find_key(branch.keys(), key) {
-            path.push((branch, index as isize));
-            if branch.has_branches() {
-                branch = unsafe { branch.get_branch_unchecked(index) };
-            } else {
-                return Some(unsafe { branch.get_leaf_unchecked(index) });
-            }
+        let index = match find_key(branch.keys(), key) {
+            Some(index) => index,
+            // The keys in a branch are allowed to be higher than the highest key below it, so
+            // a branch we were sent to may have lost the children which reached up to `key`.
+            // Only at the root does this mean that there is no higher key in the tree.
+            None if !path.is_empty() => branch.len() - 1,
+            None => return None,
+        };
+        path.push((branch, index as isize));
+        if branch.has_branches() {
+            branch = unsafe { branch.get_branch_unchecked(index) };
         } else {
-            return None;
+            return Some(unsafe { branch.get_leaf_unchecked(index) });
         }
     }
 }
@@ -447,6 +451,17 @@ where
         (key, value)
     }
 
+    /// Ensure that no branch key on the path is lower than `key`.
+    unsafe fn raise_keys(&mut self, key: &K) {
+        for (branch, index) in &self.stack {
+            let branch = &mut *(*branch as *mut Branch<K, V, C>);
+            let branch_key = &mut branch.keys_mut()[*index as usize];
+            if &*branch_key < key {
+                *branch_key = key.clone();
+            }
+        }
+    }
+
     /// Insert a key at the index being pointed at.
     ///
     /// You're responsible for ensuring that something is being pointed at,
@@ -461,6 +476,10 @@ where
         let index = self.index;
         let leaf = self.deref_mut_leaf().unwrap();
         if !leaf.is_full() {
+            if index == leaf.len() {
+                self.raise_keys(&key);
+            }
+            let leaf = self.deref_mut_leaf_unchecked();
             leaf.insert_unchecked(index, key, value);
             Ok(self)
         } else {
@@ -505,6 +524,7 @@ where
                             );
                             choose_index
                         };
+                        self.stack.push((branch, choose_index as isize));
                         // We're going to walk down either the left or the right hand branch of our split.
                         // We're guaranteed to find a leaf, but it might be full if we split a higher branch,
                         // so we might have to go back up and split further.
@@ -531,6 +551,9 @@ where
                                     index,
                                     leaf.len()
                                 );
+                                if index == leaf.len() {
+                                    self.raise_keys(&key);
+                                }
                                 let leaf = self.deref_mut_leaf_unchecked();
                                 leaf.insert_unchecked(index, key, value);
                                 return Ok(self);
-- 
2.43.0


From 8892e8c6ac00e699ab92eff6400d05187b87bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 09/17] fix: insert_recursive panicked in debug mode when the
 root was full

By the time it gives up and splits the root, it has raised the highest key of
the root to the new key already.
---
 src/search.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index 8b576ca..13fa9ad 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -587,8 +587,10 @@ where
         let mut index;
         loop {
             index = branch.len() - 1;
-            debug_assert!(branch.highest() < &key);
-            branch.keys_mut()[index] = key.clone();
+            // An attempt to insert this key which found no room may already have raised the keys.
+            if branch.highest() < &key {
+                branch.keys_mut()[index] = key.clone();
+            }
             self.stack.push((branch, index as isize));
             if branch.has_branches() {
                 branch = branch.get_branch_mut(index);
-- 
2.43.0


From caaa40113942628c0fb33fc98a7763d209aeaa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 10/17] fix: OwnedIter::next_back never left the last leaf

It stepped the front pointer instead of the back one, and looped forever.
---
 src/iter/owned.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..940d61c 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -78,7 +78,8 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        // Stepping back depends on there being an entry left to find.
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +88,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From 04961c63f2b8f67c7c7c50943713b4313bb2aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 11/17] fix: insert_recursive corrupted an emptied tree of
 several levels

The root of such a tree still holds branches, not leaves.
---
 src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5ca9bb0..873332b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -400,20 +400,17 @@ where
     {
         let len = self.size;
         if let Some(ref mut root) = self.root {
-            let root_ref = Pointer::make_mut(root);
             // Special case: if a tree has size 0 but there is a root, it's because
             // we removed the last entry and the root has been left allocated.
             // Tree walking algos assume the tree has no empty nodes, so we have to
             // handle this as a special case.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
-                debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
-
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                // Note that the root may have been a branch of branches.
+                *root = Pointer::new(Branch::unit(Pointer::new(Leaf::unit(key, value))));
                 self.size = 1;
                 None
             } else {
+                let root_ref = Pointer::make_mut(root);
                 match root_ref.insert(key, value) {
                     InsertResult::Added => {
                         self.size += 1;
-- 
2.43.0


From 2ab50038d005b5dc8cc760ef7a3e9f76c06e7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 12/17] fix: a panic in append left behind a tree with a length
 but no root

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 873332b..aad85e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,9 +344,11 @@ where
     where
         V: Clone,
     {
+        // If this panics, `self` has to be a valid tree.
+        let size = std::mem::replace(&mut self.size, 0);
         let root = self.root.take();
         if root.is_some() {
-            let left = OwnedIter::new(root, self.size);
+            let left = OwnedIter::new(root, size);
             let right = other.into_iter();
             *self = Self::load(Self::merge_left_from(left, right));
         } else {
@@ -358,9 +360,11 @@ where
     where
         V: Clone,
     {
+        // If this panics, `self` has to be a valid tree.
+        let size = std::mem::replace(&mut self.size, 0);
         let root = self.root.take();
         if root.is_some() {
-            let left = OwnedIter::new(root, self.size);
+            let left = OwnedIter::new(root, size);
             let right = other.into_iter();
             *self = Self::load(Self::merge_right_from(left, right));
         } else {
@@ -635,12 +639,14 @@ where
     C2: TreeConfig<K, V>,
 {
     fn add_assign(&mut self, other: &'a PalmTree<K, V, C2>) {
+        // If this panics, `self` has to be a valid tree.
+        let size = std::mem::replace(&mut self.size, 0);
         let root = self.root.take();
         if root.is_none() {
             *self = Self::load(other.iter().map(|(k, v)| (*k, *v)));
         } else {
             *self = Self::load(Self::merge_right_from(
-                OwnedIter::new(root, self.size),
+                OwnedIter::new(root, size),
                 other.iter().map(|(k, v)| (*k, *v)),
             ))
         }
-- 
2.43.0


From 95854ad12fba9d79882fbb04ea7d6ff68da4a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 13/17] fix: a panic while splitting a node lost its entries

Splitting detached the child from its parent, and then cloned and compared keys
and allocated, any of which can panic. Now everything which can panic comes
first, and the upper half of the child is moved over in place.
---
 src/array.rs  |  12 -----
 src/branch.rs | 125 ++++++++++++++++----------------------------------
 src/leaf.rs   |  24 +++++-----
 src/lib.rs    |  16 +++----
 src/search.rs |  37 ++-------------
 5 files changed, 62 insertions(+), 152 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 75a639a..eee8860 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -114,18 +114,6 @@ where
         self.mut_ptr().add(index).write(value);
     }
 
-    pub(crate) unsafe fn insert_pair(&mut self, length: usize, index: usize, left: A, right: A) {
-        debug_assert!(length < (N::USIZE - 1));
-        debug_assert!(index <= length);
-        if index < length {
-            self.mut_ptr()
-                .add(index)
-                .copy_to(self.mut_ptr().add(index + 2), length - index);
-        }
-        self.mut_ptr().add(index).write(left);
-        self.mut_ptr().add(index + 1).write(right);
-    }
-
     pub(crate) unsafe fn remove(&mut self, length: usize, index: usize) -> A {
         debug_assert!(length <= N::USIZE);
         debug_assert!(length > 0);
diff --git a/src/branch.rs b/src/branch.rs
index 3a43d51..490c446 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -251,85 +251,49 @@ where
         result
     }
 
-    #[inline(always)]
-    pub(crate) fn push_branch_pair(
-        &mut self,
-        left_key: K,
-        left: Pointer<Self, C::PointerKind>,
-        right_key: K,
-        right: Pointer<Self, C::PointerKind>,
-    ) {
-        debug_assert!(self.has_branches());
-        debug_assert!(self.len() + 2 <= C::BranchSize::USIZE);
-        unsafe {
-            self.keys
-                .insert_pair(self.length, self.length, left_key, right_key);
-            self.children
-                .insert_pair(self.length, self.length, left.into(), right.into());
-        }
-        self.length += 2;
-    }
-
-    #[inline(always)]
-    pub(crate) fn insert_branch_pair(
-        &mut self,
-        index: usize,
-        left_key: K,
-        left: Pointer<Self, C::PointerKind>,
-        right_key: K,
-        right: Pointer<Self, C::PointerKind>,
-    ) {
-        debug_assert!(self.has_branches());
-        debug_assert!(self.len() + 2 <= C::BranchSize::USIZE);
-        unsafe {
-            self.keys
-                .insert_pair(self.length, index, left_key, right_key);
-            self.children
-                .insert_pair(self.length, index, left.into(), right.into());
-        }
-        self.length += 2;
-    }
-
-    #[inline(always)]
-    pub(crate) fn insert_leaf_pair(
-        &mut self,
-        index: usize,
-        left_key: K,
-        left: Pointer<Leaf<K, V, C>, C::PointerKind>,
-        right_key: K,
-        right: Pointer<Leaf<K, V, C>, C::PointerKind>,
-    ) {
-        debug_assert!(self.has_leaves());
-        debug_assert!(self.len() + 2 <= C::BranchSize::USIZE);
-        unsafe {
-            self.keys
-                .insert_pair(self.length, index, left_key, right_key);
-            self.children
-                .insert_pair(self.length, index, left.into(), right.into());
+    /// Move the upper half of this branch into a new one.
+    pub(crate) fn split(this: &mut Self) -> Pointer<Self, C::PointerKind>
+    where
+        K: Clone,
+        V: Clone,
+    {
+        // Allocate before moving anything, so that nothing is lost if that panics.
+        let mut right = Pointer::new(Branch::new(this.has_branches));
+        {
+            let right = Pointer::make_mut(&mut right);
+            let half = this.len() / 2;
+            right.keys = unsafe { Array::steal_from(&mut this.keys, this.length, half) };
+            right.children = unsafe { Array::steal_from(&mut this.children, this.length, half) };
+            right.length = this.length - half;
+            this.length = half;
         }
-        self.length += 2;
+        right
     }
 
-    pub(crate) fn split(
-        mut this: Pointer<Self, C::PointerKind>,
-    ) -> (Pointer<Self, C::PointerKind>, Pointer<Self, C::PointerKind>)
+    /// Split the child at `index` in two, the upper half going to `index + 1`.
+    ///
+    /// If this panics, nothing has changed.
+    pub(crate) fn split_child(&mut self, index: usize)
     where
         K: Clone,
         V: Clone,
     {
-        let right = {
-            let this = Pointer::make_mut(&mut this);
-            let half = this.len() / 2;
-            let right = Pointer::new(Branch {
-                has_branches: this.has_branches,
-                length: this.length - half,
-                keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
-                children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
-            });
-            this.length = half;
-            right
+        debug_assert!(!self.is_full());
+        let (left_key, right) = if self.has_branches() {
+            let left = self.get_branch_mut(index);
+            let left_key = left.keys()[left.len() / 2 - 1].clone();
+            (left_key, Self::split(left).into())
+        } else {
+            let left = self.get_leaf_mut(index);
+            let left_key = left.keys()[left.len() / 2 - 1].clone();
+            (left_key, Leaf::split(left).into())
         };
-        (this, right)
+        // The key of the child being split is now the key of the right half.
+        unsafe {
+            self.keys.insert(self.length, index, left_key);
+            self.children.insert(self.length, index + 1, right);
+        }
+        self.length += 1;
     }
 }
 
@@ -422,18 +386,11 @@ where
             if self.is_full() {
                 // Current branch is full, needs to split further up.
                 InsertResult::Full(key, value)
-            } else if self.has_branches() {
-                // Split the child branch and retry insertion from here.
-                // FIXME should determine which of the split branches to insert into instead of rechecking from the parent branch.
-                // Same for leaf splitting below, and splitting in >max case further below.
-                let (removed_key, removed_branch) = self.remove_branch(index);
-                let (left, right) = Self::split(removed_branch);
-                self.insert_branch_pair(index, left.highest().clone(), left, removed_key, right);
-                self.insert(key, value)
             } else {
-                let (removed_key, removed_leaf) = self.remove_leaf(index);
-                let (left, right) = Leaf::split(removed_leaf);
-                self.insert_leaf_pair(index, left.highest().clone(), left, removed_key, right);
+                // Split the child and retry insertion from here.
+                // FIXME should determine which of the split branches to insert into instead of rechecking from the parent branch.
+                // Same for splitting in >max case further below.
+                self.split_child(index);
                 self.insert(key, value)
             }
         } else {
@@ -459,9 +416,7 @@ where
             if self.is_full() {
                 InsertResult::Full(key, value)
             } else if self.has_branches() {
-                let (removed_key, removed_branch) = self.remove_last_branch();
-                let (left, right) = Self::split(removed_branch);
-                self.push_branch_pair(left.highest().clone(), left, removed_key, right);
+                self.split_child(end_index);
                 self.insert(key, value)
             } else {
                 let leaf = Pointer::new(Leaf::unit(key.clone(), value));
diff --git a/src/leaf.rs b/src/leaf.rs
index ba3a21f..850ae30 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -91,25 +91,23 @@ where
         unsafe { self.values.deref_mut(self.length) }
     }
 
-    pub(crate) fn split(
-        mut this: Pointer<Self, C::PointerKind>,
-    ) -> (Pointer<Self, C::PointerKind>, Pointer<Self, C::PointerKind>)
+    /// Move the upper half of this leaf into a new one.
+    pub(crate) fn split(this: &mut Self) -> Pointer<Self, C::PointerKind>
     where
         K: Clone,
         V: Clone,
     {
-        let right = {
-            let this = Pointer::make_mut(&mut this);
+        // Allocate before moving anything, so that nothing is lost if that panics.
+        let mut right = Pointer::new(Leaf::new());
+        {
+            let right = Pointer::make_mut(&mut right);
             let half = this.length / 2;
-            let right = Pointer::new(Leaf {
-                length: this.length - half,
-                keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
-                values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
-            });
+            right.keys = unsafe { Array::steal_from(&mut this.keys, this.length, half) };
+            right.values = unsafe { Array::steal_from(&mut this.values, this.length, half) };
+            right.length = this.length - half;
             this.length = half;
-            right
-        };
-        (this, right)
+        }
+        right
     }
 
     pub(crate) unsafe fn push_unchecked(&mut self, key: K, value: V) {
diff --git a/src/lib.rs b/src/lib.rs
index aad85e4..07252ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -388,14 +388,11 @@ where
     where
         V: Clone,
     {
+        let highest = root.highest().clone();
         let old_root = std::mem::replace(root, Branch::new(true).into());
-        let (left, right) = Branch::split(old_root);
-        Pointer::make_mut(root).push_branch_pair(
-            left.highest().clone(),
-            left,
-            right.highest().clone(),
-            right,
-        );
+        let root = Pointer::make_mut(root);
+        root.push_branch(highest, old_root);
+        root.split_child(0);
     }
 
     pub fn insert_recursive(&mut self, key: K, value: V) -> Option<V>
@@ -425,8 +422,9 @@ where
                         // If the root is full, we need to increase the height of the tree and retry insertion,
                         // so we can split the old root.
                         let key2 = root_ref.highest().clone();
-                        let child = std::mem::replace(root_ref, Branch::new(true));
-                        root_ref.push_branch(key2, Pointer::new(child));
+                        let mut child = Pointer::new(Branch::new(true));
+                        std::mem::swap(root_ref, Pointer::make_mut(&mut child));
+                        root_ref.push_branch(key2, child);
                         self.insert(key, value)
                     }
                 }
diff --git a/src/search.rs b/src/search.rs
index 13fa9ad..09e498d 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -489,40 +489,11 @@ where
                     let branch = &mut *(branch as *mut Branch<K, V, C>);
                     let index = index as usize;
                     if !branch.is_full() {
-                        let choose_index = if branch.has_branches() {
-                            let (removed_key, removed_branch) = branch.remove_branch(index);
-                            let (left, right) = Branch::split(removed_branch);
-                            let left_highest = left.highest();
-                            let choose_index = if &key <= left_highest {
-                                index
-                            } else {
-                                index + 1
-                            };
-                            branch.insert_branch_pair(
-                                index,
-                                left_highest.clone(),
-                                left,
-                                removed_key,
-                                right,
-                            );
-                            choose_index
+                        branch.split_child(index);
+                        let choose_index = if key <= branch.keys()[index] {
+                            index
                         } else {
-                            let (removed_key, removed_leaf) = branch.remove_leaf(index);
-                            let (left, right) = Leaf::split(removed_leaf);
-                            let left_highest = left.highest();
-                            let choose_index = if &key <= left_highest {
-                                index
-                            } else {
-                                index + 1
-                            };
-                            branch.insert_leaf_pair(
-                                index,
-                                left_highest.clone(),
-                                left,
-                                removed_key,
-                                right,
-                            );
-                            choose_index
+                            index + 1
                         };
                         self.stack.push((branch, choose_index as isize));
                         // We're going to walk down either the left or the right hand branch of our split.
-- 
2.43.0


From b03c7d8bdf19a0b34ec8e602749f110ebcf29f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 14/17] fix: a panicking key destructor in remove left an empty
 branch in the tree

Tree walking assumes that there is no such thing below the root.
---
 src/search.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index 09e498d..7480f32 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -437,14 +437,18 @@ where
             while let Some((branch, index)) = self.stack.pop() {
                 let branch = &mut *(branch as *mut Branch<K, V, C>);
                 let index = index as usize;
+                // If this is the only child, its parent will be removed along with it. This is
+                // done in one go because dropping a key might panic, and would leave an empty
+                // branch behind.
+                if branch.len() == 1 && !self.stack.is_empty() {
+                    continue;
+                }
                 if branch.has_leaves() {
                     branch.remove_leaf(index);
                 } else {
                     branch.remove_branch(index);
                 }
-                if !branch.is_empty() {
-                    break;
-                }
+                break;
             }
         }
 
-- 
2.43.0


From 043ff31f74c42e9b6c7d4620bdb22d60d839d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 15/17] fix: IterMut could hand out an entry twice if Ord is
 inconsistent

It relied on comparing keys to notice that its two ends had met, but safe code
must not get hold of two mutable references to one value whatever Ord does.
---
 src/iter/mut_iter.rs | 33 ++++++++++-----------------------
 src/search.rs        |  5 +++++
 2 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..ba362d0 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,7 +1,6 @@
 use super::paths_from_range;
 use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
 use std::{
-    cmp::Ordering,
     fmt::{Debug, Formatter},
     iter::FusedIterator,
     ops::RangeBounds,
@@ -43,10 +42,12 @@ where
     where
         R: RangeBounds<K>,
     {
-        if let Some((left, right)) = paths_from_range(tree, range) {
-            Self { left, right }
-        } else {
-            Self::null()
+        match paths_from_range(tree, range) {
+            // If left key is greater than right key, there's nothing in between. From here on
+            // we compare positions, because an inconsistent `Ord` instance must not be able to
+            // make the two pass each other and hand out the same entry twice.
+            Some((left, right)) if unsafe { left.key() <= right.key() } => Self { left, right },
+            _ => Self::null(),
         }
     }
 
@@ -94,16 +95,9 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let left_key = self.left_key()?;
-        let right_key = self.right_key()?;
-        // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
-        if cmp == Ordering::Greater {
-            self.left.clear();
-            self.right.clear();
-            return None;
-        }
+        self.right_key()?;
         let value = self.left_value().unwrap();
-        if cmp == Ordering::Equal {
+        if self.left.is_same(&self.right) {
             self.left.clear();
             self.right.clear();
         } else {
@@ -120,17 +114,10 @@ where
     C: 'a + TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let left_key = self.left_key()?;
+        self.left_key()?;
         let right_key = self.right_key()?;
-        // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
-        if cmp == Ordering::Greater {
-            self.left.clear();
-            self.right.clear();
-            return None;
-        }
         let value = self.right_value().unwrap();
-        if cmp == Ordering::Equal {
+        if self.left.is_same(&self.right) {
             self.left.clear();
             self.right.clear();
         } else {
diff --git a/src/search.rs b/src/search.rs
index 7480f32..dad27a0 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -586,6 +586,11 @@ where
         self.leaf.is_null()
     }
 
+    /// Test if two pointers into the same tree point at the same entry.
+    pub(crate) fn is_same(&self, other: &Self) -> bool {
+        self.leaf == other.leaf && self.index == other.index
+    }
+
     pub(crate) unsafe fn deref_leaf_unchecked<'a>(&'a self) -> &'a Leaf<K, V, C> {
         &*self.leaf
     }
-- 
2.43.0


From 5f0e7b38fc588ef9790ee5369348ba16e7e2c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 16/17] fix: clones of shared trees saw each other's changes

Entries, removals, mutable iterators and consuming iterators wrote to nodes
without making sure first that they belonged to this tree alone. The root is
now made unique before a path for writing is taken, as get_mut already did.
---
 src/entry.rs         |  7 +++++--
 src/iter/mut_iter.rs |  6 +++++-
 src/iter/owned.rs    | 10 ++++++---
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..771071a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,12 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ba362d0..a3219fd 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     fmt::{Debug, Formatter},
     iter::FusedIterator,
@@ -40,8 +40,12 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         match paths_from_range(tree, range) {
             // If left key is greater than right key, there's nothing in between. From here on
             // we compare positions, because an inconsistent `Ord` instance must not be able to
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 940d61c..da8f55f 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,10 +20,14 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            Pointer::make_mut(root);
             Self {
                 left: PathedPointer::lowest(&root),
                 right: PathedPointer::highest(&root),
diff --git a/src/lib.rs b/src/lib.rs
index 07252ba..d60f9e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,7 +229,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -242,12 +245,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -264,9 +271,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -274,21 +284,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -318,7 +336,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -329,7 +350,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -682,6 +706,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -694,6 +719,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 5386d59ced802308290539a835a7702b6bd9703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 17/17] fix: a panicking key destructor in insert_recursive
 left a wrong length

---
 src/branch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 490c446..17b281a 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -404,10 +404,10 @@ where
                         result => return result,
                     }
                 } else {
-                    let leaf = self.get_leaf_mut(end_index);
-                    if !leaf.is_full() {
-                        unsafe { leaf.push_unchecked(key.clone(), value) };
-                        self.keys_mut()[end_index] = key;
+                    if !self.get_leaf_mut(end_index).is_full() {
+                        // This drops the old key, so it must come before the entry is added.
+                        self.keys_mut()[end_index] = key.clone();
+                        unsafe { self.get_leaf_mut(end_index).push_unchecked(key, value) };
                         return InsertResult::Added;
                     }
                     (key, value)
-- 
2.43.0

