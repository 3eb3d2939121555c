From e20e17848a71ec0edd8cf1286bdb1856d567d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 01/19] hook: scaled-down pvec node sizes under --cfg
 rustica_verif

---
 src/lib.rs       | 2 ++
 src/pvec/core.rs | 4 ++++
 src/pvec/node.rs | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a61e48f..77f81ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,6 +100,8 @@
 //! - `prelude`: A convenient module that re-exports commonly used items
 //! - `pvec`: Persistent vector implementation (feature-gated)
 
+#![allow(unexpected_cfgs)]
+
 /// Core traits for functional programming abstractions.
 ///
 /// This module contains the fundamental type classes and concepts from
diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..60430bd 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -9,7 +9,11 @@ use super::iter::{PersistentVectorIntoIter, PersistentVectorIter};
 use super::tree::RRBTree;
 
 /// Maximum number of elements stored inline before transitioning to tree structure.
+#[cfg(not(rustica_verif))]
 pub const ADAPTIVE_INLINE_SIZE: usize = 64;
+/// Scaled-down inline size for symbolic checking (`--cfg rustica_verif`).
+#[cfg(rustica_verif)]
+pub const ADAPTIVE_INLINE_SIZE: usize = 4;
 
 /// Generation counter type for tracking vector mutations.
 type Generation = u32;
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..e485f16 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -7,9 +7,17 @@ use smallvec::SmallVec;
 use std::sync::Arc;
 
 /// Maximum number of children per branch node.
+#[cfg(not(rustica_verif))]
 pub const BRANCHING_FACTOR: usize = 32;
+/// Scaled-down branching factor for symbolic checking (`--cfg rustica_verif`).
+#[cfg(rustica_verif)]
+pub const BRANCHING_FACTOR: usize = 2;
 /// Maximum number of elements per leaf node.
+#[cfg(not(rustica_verif))]
 pub const LEAF_CAPACITY: usize = 64;
+/// Scaled-down leaf capacity for symbolic checking (`--cfg rustica_verif`).
+#[cfg(rustica_verif)]
+pub const LEAF_CAPACITY: usize = 3;
 /// Typical branch size for most nodes (optimization).
 pub const SMALL_BRANCH_SIZE: usize = 8;
 /// Corresponding size table for small branches.
-- 
2.43.0


From 7f025f1f2b0eff50d98e721a0c57d470ac4de770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 02/19] fix: concatenating a shorter tree in front of a taller
 one keeps the order

---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 947a9bd4e01909fa3b35838b63f6b7fb3adba239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 03/19] fix: splitting a vector of uneven depth follows the
 path down to its leaf

---
 src/pvec/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..ab48f4e 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -756,7 +756,9 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Concatenation can leave subtrees of different depths, so the path ends at a leaf,
+        // not at the height recorded for the whole tree.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From aa7027cad0b0f5d6beb91bd562617ab45ba70e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 04/19] fix: pop_back takes the last element when the head
 buffer is in use

---
 src/pvec/tree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index ab48f4e..55f57a9 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,9 +461,11 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((Self::from_head(new_head), popped));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From e1cd1e7983b09845b263f9a85230156c23672c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 05/19] fix: pop_front keeps the order of a vector held in its
 tail buffer

---
 src/pvec/tree.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 55f57a9..abf83d8 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -538,11 +538,8 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From da78c5bee8089f999b677d542a8d5a37e075befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 06/19] fix: popping skips the empty subtrees that pushes and
 concatenation leave

---
 src/pvec/node.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index e485f16..947cb19 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -297,11 +297,20 @@ impl<T: Clone> RRBNode<T> {
                     return None;
                 }
 
-                let last_child_index = children.len() - 1;
+                // Children adopted from an empty tree hold nothing; skip and drop them.
+                let last_child_index = children
+                    .iter()
+                    .rposition(|child| child.calculate_size() > 0)?;
                 let last_child = &children[last_child_index];
 
                 if let Some((new_child, popped)) = last_child.pop_back() {
                     let mut new_children = children.clone();
+                    new_children.truncate(last_child_index + 1);
+                    let mut sizes = sizes.clone();
+                    if let Some(sizes) = &mut sizes {
+                        sizes.truncate(last_child_index + 1);
+                    }
+                    let sizes = &sizes;
 
                     if new_child.calculate_size() == 0 {
                         new_children.pop();
@@ -405,10 +414,20 @@ impl<T: Clone> RRBNode<T> {
                     return None;
                 }
 
-                let first_child = &children[0];
+                // Children adopted from an empty tree hold nothing; skip and drop them.
+                let first_child_index = children
+                    .iter()
+                    .position(|child| child.calculate_size() > 0)?;
+                let first_child = &children[first_child_index];
 
                 if let Some((new_child, popped)) = first_child.pop_front() {
                     let mut new_children = children.clone();
+                    new_children.drain(..first_child_index);
+                    let mut sizes = sizes.clone();
+                    if let Some(sizes) = &mut sizes {
+                        sizes.drain(..first_child_index);
+                    }
+                    let sizes = &sizes;
 
                     if new_child.calculate_size() == 0 {
                         new_children.remove(0);
-- 
2.43.0


From b4a4fd4d71b6a4ebc8a10f9958d39707f7a87a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:11 +0000
Subject: [PATCH 07/19] fix: equality, order and hash of a persistent vector
 depend on its elements only

---
 src/pvec/core.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 src/pvec/iter.rs |  4 ++--
 src/pvec/node.rs |  4 ++++
 src/pvec/tree.rs |  4 ++++
 4 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index 60430bd..bf369b1 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -44,7 +46,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -191,7 +193,9 @@ impl<T: Clone> PersistentVector<T> {
     {
         PersistentVector::from_iter(self.iter().map(f))
     }
+}
 
+impl<T> PersistentVector<T> {
     /// Gets a reference to the element at the specified index.
     ///
     /// Returns `None` if the index is out of bounds.
@@ -215,7 +219,9 @@ impl<T: Clone> PersistentVector<T> {
             VectorImpl::Tree { tree } => tree.as_ref().get(index),
         }
     }
+}
 
+impl<T: Clone> PersistentVector<T> {
     /// Creates a new vector containing only elements that match the predicate.
     ///
     /// # Examples
@@ -981,6 +987,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Two vectors are the same when they hold the same elements, however they were built:
+// the representation and the generation stay out of comparison and hashing.
+impl<T: PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Eq> Eq for PersistentVector<T> {}
+
+impl<T: PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for element in self.iter() {
+            element.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
diff --git a/src/pvec/iter.rs b/src/pvec/iter.rs
index 7d67471..a9802e5 100644
--- a/src/pvec/iter.rs
+++ b/src/pvec/iter.rs
@@ -23,7 +23,7 @@ pub struct PersistentVectorIntoIter<T> {
     pub(crate) position: usize,
 }
 
-impl<'a, T: Clone> Iterator for PersistentVectorIter<'a, T> {
+impl<'a, T> Iterator for PersistentVectorIter<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -42,7 +42,7 @@ impl<'a, T: Clone> Iterator for PersistentVectorIter<'a, T> {
     }
 }
 
-impl<'a, T: Clone> ExactSizeIterator for PersistentVectorIter<'a, T> {}
+impl<'a, T> ExactSizeIterator for PersistentVectorIter<'a, T> {}
 
 impl<T: Clone> Iterator for PersistentVectorIntoIter<T> {
     type Item = T;
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 947cb19..28929b5 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -56,7 +56,9 @@ impl<T: Clone> RRBNode<T> {
             sizes: Some(sizes),
         }
     }
+}
 
+impl<T> RRBNode<T> {
     pub fn find_child_relaxed(&self, index: usize) -> Option<(usize, usize)> {
         match self {
             RRBNode::Branch {
@@ -96,7 +98,9 @@ impl<T: Clone> RRBNode<T> {
             },
         }
     }
+}
 
+impl<T: Clone> RRBNode<T> {
     pub fn is_relaxed(&self) -> bool {
         matches!(self, RRBNode::Branch { sizes: Some(_), .. })
     }
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index abf83d8..9cc7ed9 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -110,7 +110,9 @@ impl<T: Clone> RRBTree<T> {
         let (root, sub_height) = Self::build_tree_recursive(next_level);
         (root, sub_height + 1)
     }
+}
 
+impl<T> RRBTree<T> {
     pub fn get(&self, index: usize) -> Option<&T> {
         if index >= self.len {
             return None;
@@ -156,7 +158,9 @@ impl<T: Clone> RRBTree<T> {
             }
         }
     }
+}
 
+impl<T: Clone> RRBTree<T> {
     pub fn update(&self, index: usize, value: T) -> Self {
         if index >= self.len {
             return self.clone();
-- 
2.43.0


From 042d73f6f4ff40d4dd6e0732c3a05ac72960c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 08/19] fix: combine_n_owned combines n copies, not a power of
 two of them

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From bfb0af96599a2578f06bd9eff726e6fc37fb44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 09/19] fix: binding a Choice keeps the results of every value,
 also when the first yields none

---
 src/datatypes/choice.rs | 119 +++++++---------------------------------
 1 file changed, 19 insertions(+), 100 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..fc9beaa 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,13 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
+        // A value without results contributes nothing; the others keep theirs.
+        let mut values = SmallVec::new();
+        for value in &self.values {
+            values.extend(f(value).values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1460,12 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
+        let mut values = SmallVec::new();
+        for value in self.values {
+            values.extend(f(value).values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     #[inline]
@@ -1514,33 +1474,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
+        let mut values = SmallVec::new();
+        for value in &self.values {
+            let inner: Self::Output<U> = value.clone().into();
+            values.extend(inner.values);
         }
 
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 
     #[inline]
@@ -1549,34 +1489,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
+        let mut values = SmallVec::new();
+        for value in self.values {
+            let inner: Self::Output<U> = value.into();
+            values.extend(inner.values);
         }
 
-        Choice::new(first, alternatives)
+        Choice { values }
     }
 }
 
-- 
2.43.0


From aab41e7641b87ce1cd8d20e156239d5d28f8e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/19] fix: collecting Validated values is invalid whenever
 one of them is, also without errors

---
 src/datatypes/validated/core.rs | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..fbc1887 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,21 +1547,21 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
-        let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
-            (Vec::new(), SmallVec::<[E; 8]>::new()),
-            |(mut values, mut errors), item| {
+        // An `Invalid` may carry no errors, so invalidity is tracked separately from them.
+        let (values, errors): (Vec<_>, Option<SmallVec<[E; 8]>>) =
+            iter.fold((Vec::new(), None), |(mut values, mut errors), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        errors.get_or_insert_with(SmallVec::new).extend(es);
+                    },
                 }
                 (values, errors)
-            },
-        );
+            });
 
-        if errors.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
-            Validated::Invalid(errors)
+        match errors {
+            None => Validated::Valid(C::from_iter(values)),
+            Some(errors) => Validated::Invalid(errors),
         }
     }
 
@@ -1593,20 +1593,22 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         I: Iterator<Item = Validated<E, A>>,
         C: FromIterator<A> + Clone,
     {
-        let mut acc = ErrorAccumulator::new();
+        // An `Invalid` may carry no errors, so invalidity is tracked separately from them.
+        let mut acc: Option<ErrorAccumulator<E>> = None;
         let mut values = Vec::new();
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => acc
+                    .get_or_insert_with(ErrorAccumulator::new)
+                    .extend_owned(es),
             }
         }
 
-        if acc.buffer.is_empty() {
-            Validated::Valid(C::from_iter(values))
-        } else {
-            Validated::Invalid(acc.into_inner())
+        match acc {
+            None => Validated::Valid(C::from_iter(values)),
+            Some(acc) => Validated::Invalid(acc.into_inner()),
         }
     }
 
-- 
2.43.0


From ea1574a526c7a0c8c447d36d58501f30fb8c8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 11/19] fix: try_value and try_into_value of containers without
 a value return None instead of panicking

---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 16 ++++++++++++++++
 src/datatypes/maybe.rs            | 16 ++++++++++++++++
 src/datatypes/validated/traits.rs | 16 ++++++++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 78 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index fc9beaa..4f5cdd9 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1314,6 +1314,16 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..af72340 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1082,6 +1082,22 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Either::Right(v) => Some(v),
+            Either::Left(_) => None,
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Either::Right(v) => Some(v),
+            Either::Left(_) => None,
+        }
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..af69a2d 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1420,6 +1420,22 @@ impl<T> Identity for Maybe<T> {
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Maybe::Just(v) => Some(v),
+            Maybe::Nothing => None,
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Maybe::Just(v) => Some(v),
+            Maybe::Nothing => None,
+        }
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..1d6dc31 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -651,6 +651,22 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        match self {
+            Validated::Valid(v) => Some(v),
+            Validated::Invalid(_) => None,
+        }
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        match self {
+            Validated::Valid(v) => Some(v),
+            Validated::Invalid(_) => None,
+        }
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..11628c1 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -381,6 +381,16 @@ impl<T: Clone> Identity for First<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..95aef28 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -400,6 +400,16 @@ impl<T: Clone> Identity for Last<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0


From 530b00fe940ac13f40c70c8247ef07b3d125944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 12/19] fix: binding a ReaderT no longer frees the bound value
 twice

---
 src/transformers/reader_t.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..4fae37a 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,11 +953,7 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
-                f_clone(a_value).run_reader(e_clone.clone())
+                f_clone(source_ref.clone()).run_reader(e_clone.clone())
             })
         })
     }
-- 
2.43.0


From 5c01e53d4f6d00c9bb52ebe1e24f35b2903ba236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 13/19] fix: contexts of a recovered error no longer show on a
 later one

A pipeline kept the contexts added to an error after recovering from it,
and reported them with an unrelated error of a later step.
---
 src/error/context.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/error/context.rs b/src/error/context.rs
index 7964dc6..be42c54 100644
--- a/src/error/context.rs
+++ b/src/error/context.rs
@@ -275,9 +275,13 @@ impl<T, E> ErrorPipeline<T, E> {
     where
         F: FnOnce(E) -> Result<T, E>,
     {
-        ErrorPipeline {
-            result: self.result.or_else(recovery),
-            pending_contexts: self.pending_contexts,
+        match self.result.or_else(recovery) {
+            // The error the buffered contexts describe is gone: a later error must not get them.
+            Ok(value) => ErrorPipeline::new(Ok(value)),
+            Err(error) => ErrorPipeline {
+                result: Err(error),
+                pending_contexts: self.pending_contexts,
+            },
         }
     }
 
-- 
2.43.0


From 666a7176151fe12f1193c9b42e7cef99408b041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 14/19] hook: a second set of scaled-down pvec node sizes under
 --cfg rustica_verif_wide

---
 src/pvec/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 28929b5..4ce2075 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -11,13 +11,13 @@ use std::sync::Arc;
 pub const BRANCHING_FACTOR: usize = 32;
 /// Scaled-down branching factor for symbolic checking (`--cfg rustica_verif`).
 #[cfg(rustica_verif)]
-pub const BRANCHING_FACTOR: usize = 2;
+pub const BRANCHING_FACTOR: usize = if cfg!(rustica_verif_wide) { 4 } else { 2 };
 /// Maximum number of elements per leaf node.
 #[cfg(not(rustica_verif))]
 pub const LEAF_CAPACITY: usize = 64;
 /// Scaled-down leaf capacity for symbolic checking (`--cfg rustica_verif`).
 #[cfg(rustica_verif)]
-pub const LEAF_CAPACITY: usize = 3;
+pub const LEAF_CAPACITY: usize = if cfg!(rustica_verif_wide) { 2 } else { 3 };
 /// Typical branch size for most nodes (optimization).
 pub const SMALL_BRANCH_SIZE: usize = 8;
 /// Corresponding size table for small branches.
-- 
2.43.0


From 03c20486e1b43335fb919810017e34bce2c5460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 15/19] fix: a persistent vector changed more than 2^32 times
 no longer panics

The generation counter of a vector overflowed on the 2^32nd change in builds
with overflow checks. It only counts changes, so it may wrap.
---
 src/pvec/core.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index bf369b1..f1684d9 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -527,7 +527,7 @@ impl<T: Clone> PersistentVector<T> {
                             elements: new_elements,
                         },
                         len: self.len + 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     }
                 } else {
                     self.transition_to_tree().push_back(value)
@@ -560,7 +560,7 @@ impl<T: Clone> PersistentVector<T> {
                             elements: new_elements,
                         },
                         len: self.len + 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     }
                 } else {
                     self.transition_to_tree().push_front(value)
@@ -621,7 +621,7 @@ impl<T: Clone> PersistentVector<T> {
                         elements: new_elements,
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             VectorImpl::Tree { tree } => {
@@ -631,7 +631,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
         }
@@ -647,7 +647,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(tree),
                     },
                     len: self.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             VectorImpl::Tree { .. } => self.clone(),
@@ -664,7 +664,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len + 1,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             _ => unreachable!(),
@@ -681,7 +681,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(new_tree),
                     },
                     len: self.len + 1,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             _ => unreachable!(),
@@ -714,7 +714,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             (VectorImpl::Tree { tree }, VectorImpl::Inline { elements }) => {
@@ -725,7 +725,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
             (VectorImpl::Tree { .. }, VectorImpl::Tree { .. }) => {
@@ -737,7 +737,7 @@ impl<T: Clone> PersistentVector<T> {
                         tree: Arc::new(merged_tree),
                     },
                     len: self.len + other.len,
-                    generation: self.generation + 1,
+                    generation: self.generation.wrapping_add(1),
                 }
             },
         }
@@ -781,7 +781,7 @@ impl<T: Clone> PersistentVector<T> {
                                 elements: new_elements,
                             },
                             len: self.len - 1,
-                            generation: self.generation + 1,
+                            generation: self.generation.wrapping_add(1),
                         },
                         last,
                     ))
@@ -796,7 +796,7 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(new_tree),
                         },
                         len: self.len - 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     value,
                 )
@@ -833,7 +833,7 @@ impl<T: Clone> PersistentVector<T> {
                                 elements: new_elements,
                             },
                             len: self.len - 1,
-                            generation: self.generation + 1,
+                            generation: self.generation.wrapping_add(1),
                         },
                         first,
                     ))
@@ -848,7 +848,7 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(new_tree),
                         },
                         len: self.len - 1,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     value,
                 )
@@ -887,12 +887,12 @@ impl<T: Clone> PersistentVector<T> {
                     Self {
                         inner: VectorImpl::Inline { elements: left },
                         len: index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     Self {
                         inner: VectorImpl::Inline { elements: right },
                         len: self.len - index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                 )
             },
@@ -904,14 +904,14 @@ impl<T: Clone> PersistentVector<T> {
                             tree: Arc::new(left_tree),
                         },
                         len: index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                     Self {
                         inner: VectorImpl::Tree {
                             tree: Arc::new(right_tree),
                         },
                         len: self.len - index,
-                        generation: self.generation + 1,
+                        generation: self.generation.wrapping_add(1),
                     },
                 )
             },
-- 
2.43.0


From 431514913deeaa57d8b13584d420725bdd63a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:42 +0000
Subject: [PATCH 16/19] hook: a persistent vector with any number of earlier
 changes under --cfg rustica_verif

---
 src/pvec/core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f1684d9..6ac07d9 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -67,6 +67,15 @@ enum VectorImpl<T> {
     Tree { tree: Arc<RRBTree<T>> },
 }
 
+#[cfg(rustica_verif)]
+impl<T> PersistentVector<T> {
+    /// The same vector after so many earlier changes, for symbolic checking.
+    pub fn verif_aged(mut self, changes: u64) -> Self {
+        self.generation = changes as Generation;
+        self
+    }
+}
+
 impl<T> PersistentVector<T> {
     /// Creates a new empty persistent vector.
     ///
-- 
2.43.0


From cf42683dc49b35ac0e4b709434912b45292f19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 17/19] fix: splitting and concatenating a vector again and
 again no longer deepens its tree without end

Concatenation wrapped the flatter tree in single-child branches, and splitting
kept branches of one child, so every insert or remove added levels: inserting
into and removing from the middle of a vector of 200 elements a few thousand
times overflowed the stack.
---
 src/pvec/tree.rs | 72 ++++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 51 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 9cc7ed9..b041a40 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -289,16 +289,6 @@ impl<T: Clone> RRBTree<T> {
             return self.clone();
         }
 
-        if self.height == other.height {
-            self.concat_same_height(other)
-        } else if self.height < other.height {
-            self.concat_different_height(other, false)
-        } else {
-            self.concat_different_height(other, true)
-        }
-    }
-
-    fn concat_same_height(&self, other: &Self) -> Self {
         let mut left_for_merge = self.clone();
         let mut right_for_merge = other.clone();
 
@@ -325,38 +315,6 @@ impl<T: Clone> RRBTree<T> {
         }
     }
 
-    fn concat_different_height(&self, other: &Self, left_higher: bool) -> Self {
-        if left_higher {
-            let elevated_other = Self::elevate_tree(other, self.height);
-            self.concat_same_height(&elevated_other)
-        } else {
-            let elevated_self = Self::elevate_tree(self, other.height);
-            elevated_self.concat_same_height(other)
-        }
-    }
-
-    fn elevate_tree(tree: &Self, target_height: usize) -> Self {
-        let mut current_root = tree.root.clone();
-        let mut current_height = tree.height;
-
-        while current_height < target_height {
-            let new_root = RRBNode::Branch {
-                children: SmallVec::from_iter([current_root.clone()]),
-                sizes: Some(SmallVec::from_iter([current_root.calculate_size()])),
-            };
-            current_root = Arc::new(new_root);
-            current_height += 1;
-        }
-
-        Self {
-            root: current_root,
-            tail: tree.tail.clone(),
-            head: tree.head.clone(),
-            height: current_height,
-            len: tree.len,
-        }
-    }
-
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
         match (left.as_ref(), right.as_ref()) {
             (
@@ -653,7 +611,7 @@ impl<T: Clone> RRBTree<T> {
                     let right_branch =
                         self.create_right_branch(children, child_index, right_child, sizes);
 
-                    (Arc::new(left_branch), Arc::new(right_branch))
+                    (left_branch, right_branch)
                 } else {
                     let empty_leaf = Arc::new(RRBNode::Leaf {
                         elements: SmallVec::new(),
@@ -689,7 +647,7 @@ impl<T: Clone> RRBTree<T> {
         &self, original_children: &SmallVec<[Arc<RRBNode<T>>; SMALL_BRANCH_SIZE]>,
         split_index: usize, new_child: Arc<RRBNode<T>>,
         _sizes: &Option<SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]>>,
-    ) -> RRBNode<T> {
+    ) -> Arc<RRBNode<T>> {
         let mut left_children = Vec::new();
 
         for i in 0..split_index {
@@ -701,11 +659,11 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if left_children.is_empty() {
-            RRBNode::Leaf {
+            Arc::new(RRBNode::Leaf {
                 elements: SmallVec::new(),
-            }
+            })
         } else {
-            RRBNode::make_relaxed(left_children)
+            Self::branch_over(left_children)
         }
     }
 
@@ -713,7 +671,7 @@ impl<T: Clone> RRBTree<T> {
         &self, original_children: &SmallVec<[Arc<RRBNode<T>>; SMALL_BRANCH_SIZE]>,
         split_index: usize, new_child: Arc<RRBNode<T>>,
         _sizes: &Option<SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]>>,
-    ) -> RRBNode<T> {
+    ) -> Arc<RRBNode<T>> {
         let mut right_children = Vec::new();
 
         if new_child.calculate_size() > 0 {
@@ -725,11 +683,23 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if right_children.is_empty() {
-            RRBNode::Leaf {
+            Arc::new(RRBNode::Leaf {
                 elements: SmallVec::new(),
-            }
+            })
         } else {
-            RRBNode::make_relaxed(right_children)
+            Self::branch_over(right_children)
+        }
+    }
+
+    // A branch with a single child would only add a level: splitting and concatenating again
+    // and again must not make the tree ever deeper.
+    fn branch_over(mut children: Vec<Arc<RRBNode<T>>>) -> Arc<RRBNode<T>> {
+        match children.pop() {
+            Some(child) if children.is_empty() => child,
+            last => {
+                children.extend(last);
+                Arc::new(RRBNode::make_relaxed(children))
+            },
         }
     }
 
-- 
2.43.0


From 11272a6c051b51eb42d0003cb3fc79b875dea309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 18/19] hook: levels of a persistent vector's tree under --cfg
 rustica_verif

---
 src/pvec/core.rs |  8 ++++++++
 src/pvec/node.rs | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index 6ac07d9..356b0c8 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -74,6 +74,14 @@ impl<T> PersistentVector<T> {
         self.generation = changes as Generation;
         self
     }
+
+    /// Levels of branches above the deepest leaf, for symbolic checking.
+    pub fn verif_levels(&self) -> usize {
+        match &self.inner {
+            VectorImpl::Inline { .. } => 0,
+            VectorImpl::Tree { tree } => tree.root.verif_levels(),
+        }
+    }
 }
 
 impl<T> PersistentVector<T> {
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 4ce2075..4a0b461 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -58,6 +58,20 @@ impl<T: Clone> RRBNode<T> {
     }
 }
 
+#[cfg(rustica_verif)]
+impl<T> RRBNode<T> {
+    /// Levels of branches above the deepest leaf, for symbolic checking.
+    pub fn verif_levels(&self) -> usize {
+        match self {
+            RRBNode::Leaf { .. } => 0,
+            RRBNode::Branch { children, .. } => {
+                let below = children.iter().map(|child| child.verif_levels());
+                1 + below.max().unwrap_or(0)
+            },
+        }
+    }
+}
+
 impl<T> RRBNode<T> {
     pub fn find_child_relaxed(&self, index: usize) -> Option<(usize, usize)> {
         match self {
-- 
2.43.0


From 0c2195f4da008ac886da4d1c7300034525972b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 19/19] hook: levels of the tree without adapter frames under
 --cfg rustica_verif

---
 src/pvec/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 4a0b461..9653455 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -65,8 +65,11 @@ impl<T> RRBNode<T> {
         match self {
             RRBNode::Leaf { .. } => 0,
             RRBNode::Branch { children, .. } => {
-                let below = children.iter().map(|child| child.verif_levels());
-                1 + below.max().unwrap_or(0)
+                let mut below = 0;
+                for child in children.iter() {
+                    below = below.max(child.verif_levels());
+                }
+                below + 1
             },
         }
     }
-- 
2.43.0

