From e265bd2f59ca894dba1ae79f3574ee53ae46323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 01/25] fix: scan_prefix must not repeat the node prefix when
 the prefix ends exactly at a node

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..f360f63 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator will append the prefix of the tree itself
+                let matching = tree.load_prefix(&store)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - matching]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From d5c922060ecddd74360485db047d3a774cdd7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 02/25] fix: an empty tree does not have the empty prefix

---
 src/node/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f360f63..adbce37 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -818,7 +818,8 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // the root of an empty tree is at the empty prefix, but has no keys below it
+                FindResult::Found(tree) => !tree.is_empty(),
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
@@ -1420,6 +1421,13 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
         }
     }
 
+    fn is_empty(&self) -> bool {
+        match &self.0 {
+            Ok(owned) => owned.is_empty(),
+            Err(borrowed) => borrowed.value_hdr.is_none() && borrowed.children_hdr.is_none(),
+        }
+    }
+
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-- 
2.43.0


From 22237242f4c1eff5fd9d6a53e43091438670e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 03/25] fix: filter_prefix of an empty tree must be the empty
 tree

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index adbce37..c6caf89 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1501,6 +1501,7 @@ fn filter_prefix<S: BlobStore>(
 ) -> Result<TreeNode<S>, S::Error> {
     find(store, node, prefix, |x| {
         Ok(match x {
+            FindResult::Found(res) if res.is_empty() => TreeNode::EMPTY,
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
                 res.set_prefix_slice(substitution);
-- 
2.43.0


From ed7797a4a5d402dc36389b1ac10feedd75b7821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 04/25] fix: equality must distinguish an empty value from no
 value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index c6caf89..16982f7 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From e167a8d9a6bfdd4cfc8ac0bb9a8ea1dd6135ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 05/25] fix: retain_prefix_with must still consider longer
 prefixes when the predicate rejects a shorter one

---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 16982f7..528d7f2 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2806,14 +2806,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From de3720d83bbae5cf9c4c3a46527f84766200a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 06/25] fix: support combining trees that are attached to a
 store

---
 src/node/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 528d7f2..e32d007 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
         if !self.is_id() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
@@ -1432,7 +1437,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1874,8 +1879,16 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From 865e2f44abbd3450d4009bb09364f31593c93918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 07/25] fix: merging a node with its only child must load
 prefixes that are stored as ids

---
 src/node/mod.rs | 114 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 99 insertions(+), 15 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e32d007..3a71933 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -897,18 +897,15 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            // combine the prefix again, both prefixes might not be loaded yet
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
+            prefix.extend_from_slice(&children[0].load_prefix(store)?);
             let children = Arc::make_mut(children);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
-            // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -922,6 +919,7 @@ impl<S: BlobStore> TreeNode<S> {
             self.children_hdr = Header::NONE;
             self.children = ChildrenRef::EMPTY;
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2098,7 +2096,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2151,6 +2149,25 @@ fn outer_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    outer_combine_with_node(a, ab.clone(), b, bb, c, f)?;
+    a.canonicalize(&ab)
+}
+
+fn outer_combine_with_node<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2192,7 +2209,6 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
     Ok(())
 }
 
@@ -2304,7 +2320,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2428,6 +2444,25 @@ fn inner_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    inner_combine_with_node(a, ab.clone(), b, bb, c, f)?;
+    a.canonicalize(&ab)
+}
+
+fn inner_combine_with_node<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2465,7 +2500,6 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
     Ok(())
 }
 
@@ -2570,7 +2604,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2705,6 +2739,25 @@ fn left_combine_with<A, B, C, F>(
     c: C,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    C: NodeConverter<B, A> + Clone,
+    A::Error: From<B::Error>,
+    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
+{
+    left_combine_with_node(a, ab.clone(), b, bb, c, f)?;
+    a.canonicalize(&ab)
+}
+
+fn left_combine_with_node<A, B, C, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    c: C,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2740,7 +2793,6 @@ where
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
     Ok(())
 }
 
@@ -2800,6 +2852,23 @@ fn retain_prefix_with<A, B, F>(
     bb: B,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
+    A::Error: From<B::Error>,
+{
+    retain_prefix_with_node(a, ab.clone(), b, bb, f)?;
+    a.canonicalize(&ab)
+}
+
+fn retain_prefix_with_node<A, B, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2836,7 +2905,6 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
     Ok(())
 }
 
@@ -2896,6 +2964,23 @@ fn remove_prefix_with<A, B, F>(
     bb: B,
     f: F,
 ) -> Result<(), A::Error>
+where
+    A: BlobStore + Clone,
+    B: BlobStore + Clone,
+    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
+    A::Error: From<B::Error>,
+{
+    remove_prefix_with_node(a, ab.clone(), b, bb, f)?;
+    a.canonicalize(&ab)
+}
+
+fn remove_prefix_with_node<A, B, F>(
+    a: &mut TreeNode<A>,
+    ab: A,
+    b: &TreeNodeRef<B>,
+    bb: B,
+    f: F,
+) -> Result<(), A::Error>
 where
     A: BlobStore + Clone,
     B: BlobStore + Clone,
@@ -2938,7 +3023,6 @@ where
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
     Ok(())
 }
 
-- 
2.43.0


From 021177779c6f68a494c885d94be8da36a49919c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 08/25] fix: nodes without children must have a unique
 representation

---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 3a71933..55c2420 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -914,10 +914,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // empty children are always represented as none
+            self.set_children_arc_opt(None);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 9d6afdfc33daa32317b5773f571156bccbe27fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 09/25] fix: in place operations must not lose unrelated data
 when they fail

---
 src/node/mod.rs | 79 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 20 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 55c2420..572f93f 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2158,8 +2158,9 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
-    outer_combine_with_node(a, ab.clone(), b, bb, c, f)?;
-    a.canonicalize(&ab)
+    let res = outer_combine_with_node(a, ab.clone(), b, bb, c, f);
+    // leave the node in a consistent state even if there was an error
+    res.and(a.canonicalize(&ab))
 }
 
 fn outer_combine_with_node<A, B, C, F>(
@@ -2188,8 +2189,9 @@ where
         // prefixes are now identical
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             } else {
                 let av = c.convert_value(&bv, &bb)?;
                 a.set_value_owned(av.as_value_ref().0);
@@ -2247,16 +2249,27 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = outer_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the siblings that were not processed yet
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
                     let b = bci.next().unwrap();
-                    let a = c.convert_node(&b, &bb)?;
-                    acb.push(a);
+                    match c.convert_node(&b, &bb) {
+                        Ok(a) => acb.push(a),
+                        Err(cause) => {
+                            // keep the siblings that were not processed yet
+                            acb.consume(usize::MAX, true);
+                            return Err(cause.into());
+                        }
+                    }
                 }
             }
         }
@@ -2453,8 +2466,9 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
-    inner_combine_with_node(a, ab.clone(), b, bb, c, f)?;
-    a.canonicalize(&ab)
+    let res = inner_combine_with_node(a, ab.clone(), b, bb, c, f);
+    // leave the node in a consistent state even if there was an error
+    res.and(a.canonicalize(&ab))
 }
 
 fn inner_combine_with_node<A, B, C, F>(
@@ -2478,8 +2492,9 @@ where
     if n == ap.len() && n == bp.len() {
         // prefixes are now identical
         if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
-            f(&mut av, &bv)?;
+            let res = f(&mut av, &bv);
             a.set_value_owned(av.as_value_ref().0);
+            res?;
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
@@ -2535,10 +2550,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the siblings that were not processed yet
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2748,8 +2768,9 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
-    left_combine_with_node(a, ab.clone(), b, bb, c, f)?;
-    a.canonicalize(&ab)
+    let res = left_combine_with_node(a, ab.clone(), b, bb, c, f);
+    // leave the node in a consistent state even if there was an error
+    res.and(a.canonicalize(&ab))
 }
 
 fn left_combine_with_node<A, B, C, F>(
@@ -2774,8 +2795,9 @@ where
         // prefixes are now identical
         if let Some(bv) = b.value_opt() {
             if let Some(mut av) = a.take_value_opt() {
-                f(&mut av, &bv)?;
+                let res = f(&mut av, &bv);
                 a.set_value_owned(av.as_value_ref().0);
+                res?;
             }
         }
         let ac = a.load_children_mut(&ab)?;
@@ -2828,10 +2850,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f)?;
+                    let res = left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the siblings that were not processed yet
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2860,8 +2887,9 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
-    retain_prefix_with_node(a, ab.clone(), b, bb, f)?;
-    a.canonicalize(&ab)
+    let res = retain_prefix_with_node(a, ab.clone(), b, bb, f);
+    // leave the node in a consistent state even if there was an error
+    res.and(a.canonicalize(&ab))
 }
 
 fn retain_prefix_with_node<A, B, F>(
@@ -2938,10 +2966,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the siblings that were not processed yet
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
@@ -2972,8 +3005,9 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
-    remove_prefix_with_node(a, ab.clone(), b, bb, f)?;
-    a.canonicalize(&ab)
+    let res = remove_prefix_with_node(a, ab.clone(), b, bb, f);
+    // leave the node in a consistent state even if there was an error
+    res.and(a.canonicalize(&ab))
 }
 
 fn remove_prefix_with_node<A, B, F>(
@@ -3056,10 +3090,15 @@ where
                     // the .unwrap() are safe because cmp guarantees that there is a value on both sides
                     let ac = acb.source_slice_mut().get_mut(0).unwrap();
                     let bc = bci.next().unwrap();
-                    remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f)?;
+                    let res = remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                     // only move if the child is non-empty
                     let non_empty = !ac.is_empty();
                     acb.consume(1, non_empty);
+                    if res.is_err() {
+                        // keep the siblings that were not processed yet
+                        acb.consume(usize::MAX, true);
+                        return res;
+                    }
                 }
                 Ordering::Greater => {
                     // the .unwrap() is safe because cmp guarantees that there is a value
-- 
2.43.0


From ed48f1491ce75868ee961424f866df753b62d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 10/25] fix: reading an invalid id from a PagedFileStore must
 be an error

---
 src/store/paged_file_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..0453b4a 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,7 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(offset > 0 && offset <= self.last_id, "invalid id");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,6 +275,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(id.len() == 8, "invalid id");
         let offset = u64::from_be_bytes(id.try_into().unwrap());
         self.0.lock().bytes(offset)
     }
-- 
2.43.0


From 75bf6bd58f8be589de4ac51e3d64f1e718664d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 11/25] fix: reject a page size of 0

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 0453b4a..6a81763 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -120,7 +120,7 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
-        anyhow::ensure!((page_size as usize) % ALIGN == 0);
+        anyhow::ensure!(page_size > 0 && (page_size as usize) % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
             // write header
-- 
2.43.0


From d1b5be3419c8a69414beba4605324478d29b7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 12/25] fix: PagedFileStore::sync must persist all data

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 6a81763..c6f85db 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -286,6 +286,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From 0e8b15126e62c173d928edd2d9f835aa34593652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 13/25] fix: the last id of a reopened PagedFileStore must be
 the id of a blob

---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index c6f85db..ddbbfc5 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,9 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // the padding gets committed together with the next blob. Until then, the committed size,
+        // and therefore the last id of a reopened store, is the id of the last blob.
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From 816c614ad82abae9efa4d8587049a0cb6cc27757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 14/25] fix: loading something that is not a tree must be an
 error

---
 src/node/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 572f93f..300f58b 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1322,6 +1322,11 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
         }
         let (children, rest) = (&rest[0], &rest[len..]);
 
+        // the prefix can not be none, and children are always stored separately
+        if prefix_hdr.is_none() || children_hdr.is_data() {
+            return None;
+        }
+
         Some((
             Self {
                 discriminator: 1,
-- 
2.43.0


From 96dda1cb16465ec072c46ea9b721575bdb6fe6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:46 +0000
Subject: [PATCH 15/25] fix: the prefix of an attached tree must be loadable
 when it is stored as an id

---
 src/node/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 300f58b..92daafb 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3606,6 +3606,12 @@ impl<S: BlobStore> RadixTree<S> {
 
     pub fn prefix(&self) -> ValueRef<S> {
         let r = self.node.prefix_ref();
+        if r.is_id() {
+            // the first byte of the prefix precedes the id. It takes the place of the header byte here
+            let data = r.slice();
+            let r = BorrowedBlobRef::new(Header::id(data.len() - 1), &data[0]);
+            return ValueRef(Err(r), PhantomData);
+        }
         ValueRef(Ok(r), PhantomData)
     }
 }
-- 
2.43.0


From 509a887a4fc4d3e269204774dbb2e5feaf39cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:33 +0000
Subject: [PATCH 16/25] fix: a slice that begins after the largest index is out
 of range, also where overflows wrap

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From 96aa263322aa099d928023ed7dce366f2b757dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 17/25] fix: files written to a browser directory that was
 deleted before were lost

---
 browser/src/web_cache_fs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index a7997a2..64f5bb1 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -113,6 +113,8 @@ impl WebCacheFs {
     async fn delete_dir(&mut self, dir_name: SharedStr) -> anyhow::Result<bool> {
         let caches = worker_scope().caches().map_err(JsError::from)?;
         let res: JsValue = js_async(caches.delete(&dir_name)).await?;
+        // what is opened from now on is a new dir
+        self.dirs.remove(&dir_name);
         Ok(res.as_bool().context("no bool")?)
     }
 
-- 
2.43.0


From 47b02344787b192b5fd91230c7fce39cac0dd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 18/25] fix: browser files with names that urls escape were not
 found again

---
 browser/src/web_cache_fs.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 64f5bb1..ffb2067 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -286,7 +286,7 @@ impl WebCacheDir {
     pub(crate) async fn delete(&self, file_name: &str) -> anyhow::Result<bool> {
         let res: JsValue = js_async(
             self.cache.delete_with_str_and_options(
-                &format!("/{}", file_name),
+                &to_path(file_name),
                 CacheQueryOptions::new()
                     .ignore_method(true)
                     .ignore_search(true),
@@ -622,9 +622,9 @@ impl ChunkMeta {
         // info!("parse_and_filter {}", request);
         let url = Url::parse(request)?;
         if let Some(query) = url.query() {
-            let name = url.path().strip_prefix('/').unwrap();
-            // info!("parse_and_filter name {} file_name {}  query {}", name, file_name, query);
-            if name != file_name {
+            let path = url.join(&to_path(file_name))?;
+            // info!("parse_and_filter path {} file_name {}  query {}", path, file_name, query);
+            if url.path() != path.path() {
                 // not ours
                 Ok(None)
             } else {
@@ -639,12 +639,29 @@ impl ChunkMeta {
 
     fn to_request_str(&self, file_name: &str) -> String {
         format!(
-            "/{}?{:04x}-{:08x}-{:04x}",
-            file_name, self.level, self.offset, self.len
+            "{}?{:04x}-{:08x}-{:04x}",
+            to_path(file_name),
+            self.level,
+            self.offset,
+            self.len
         )
     }
 }
 
+/// the url path for a file name, with everything escaped that means something in urls
+fn to_path(file_name: &str) -> String {
+    let mut res = String::from("/");
+    for (i, c) in file_name.bytes().enumerate() {
+        let special = c <= b' ' || c >= 0x7f || b"\"#%<>?\\^`{}".contains(&c);
+        if special || i == 0 && c == b'/' {
+            res.push_str(&format!("%{:02X}", c));
+        } else {
+            res.push(c.into());
+        }
+    }
+    res
+}
+
 impl ToString for ChunkMeta {
     fn to_string(&self) -> String {
         format!("{:04x}-{:08x}-{:04x}", self.level, self.offset, self.len)
-- 
2.43.0


From df8df563b4fcb1ffc7ee382fa9c56ebb7cbc5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 19/25] fix: truncating a browser file was not atomic

---
 browser/src/web_cache_fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index ffb2067..020cef9 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -746,7 +746,7 @@ fn add(ranges: &BTreeSet<ChunkMeta>, offset: u64, data: Vec<u8>) -> Vec<Op> {
 // produces a sequence of ops to truncate a file
 fn truncate(ranges: &BTreeSet<ChunkMeta>, offset: u64) -> Vec<Op> {
     // all existing chunks that are relevant for the range offset..
-    let relevant = ranges
+    let mut relevant = ranges
         .iter()
         .filter(|x| x.range().end > offset)
         .cloned()
@@ -765,7 +765,8 @@ fn truncate(ranges: &BTreeSet<ChunkMeta>, offset: u64) -> Vec<Op> {
             res.push(Op::Rewrite(ChunkMeta::new(start..offset, level)));
         }
     }
-    // delete all relevant chunks
+    // delete all relevant chunks, the first one first: the gap that leaves is the new end of the file
+    relevant.sort_by_key(|x| x.offset);
     res.extend(relevant.into_iter().map(Op::Delete));
     res
 }
-- 
2.43.0


From a9e3560949a01ff0d852c7a591746bcf949b5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 20/25] fix: browser files had the wrong length after
 truncation and overwriting

---
 browser/src/web_cache_fs.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 020cef9..d719d48 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -324,16 +324,19 @@ impl WebCacheFile {
         self.chunks.iter().last().cloned().unwrap_or_default()
     }
 
+    /// the end of the file: chunks behind a gap are not part of it
+    fn end(&self) -> u64 {
+        get_file_range(self.chunks.iter().map(|x| x.range())).end
+    }
+
     pub(crate) async fn flush(&mut self) -> anyhow::Result<()> {
         // simple fs flushes after each op
         Ok(())
     }
 
     pub(crate) async fn append(&mut self, data: &mut Vec<u8>) -> anyhow::Result<u64> {
-        let prev = self.prev();
-        let offset = prev.range().end;
-        let plan = add(&self.chunks, offset, data.clone());
-        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
+        let offset = self.end();
+        self.write(offset, data.clone()).await?;
         Ok(offset)
     }
 
@@ -381,7 +384,7 @@ impl WebCacheFile {
         let len_u64 = range.end.saturating_sub(range.start);
         let len: usize = len_u64.try_into()?;
         anyhow::ensure!(
-            range.end <= self.prev().range().end,
+            range.end <= self.end(),
             "tried to read beyond the end of the file"
         );
         let mut res = vec![0u8; len];
@@ -393,14 +396,20 @@ impl WebCacheFile {
         Ok(res)
     }
 
-    pub(crate) async fn write(&mut self, offset: u64, mut data: Vec<u8>) -> anyhow::Result<()> {
+    pub(crate) async fn write(&mut self, mut offset: u64, mut data: Vec<u8>) -> anyhow::Result<()> {
+        let end = self.end();
+        if offset > end && !data.is_empty() {
+            // a gap would end the file: fill it
+            data.splice(0..0, std::iter::repeat(0).take((offset - end).try_into()?));
+            offset = end;
+        }
         let plan = add(&self.chunks, offset, data);
         execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
         Ok(())
     }
 
     pub(crate) async fn length(&mut self) -> anyhow::Result<u64> {
-        Ok(self.prev().range().end)
+        Ok(self.end())
     }
 
     pub(crate) async fn truncate(&mut self, offset: u64) -> anyhow::Result<()> {
-- 
2.43.0


From 0ee6cb5b26cac00d9f99906bd9e35abbc0f4a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 21/25] fix: what interrupted operations leave of a browser
 file came back in its contents

---
 browser/src/web_cache_fs.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index d719d48..8ec2e03 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -311,13 +311,19 @@ impl WebCacheFile {
     pub(crate) async fn new(cache: web_sys::Cache, file_name: SharedStr) -> anyhow::Result<Self> {
         let chunks = chunks(&cache, &file_name).await?;
         info!("opened file {:?} {} {:?}", cache, file_name, chunks);
-        // let to_delete = retain_relevant(&mut chunks);
-        // delete(&cache, &file_name, &to_delete).await?;
-        Ok(Self {
+        let mut res = Self {
             cache,
             file_name,
             chunks,
-        })
+        };
+        res.repair().await?;
+        Ok(res)
+    }
+
+    /// completes what an interrupted or failed operation has left behind
+    async fn repair(&mut self) -> anyhow::Result<()> {
+        let plan = open(&self.chunks);
+        execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await
     }
 
     fn prev(&self) -> ChunkMeta {
@@ -397,6 +403,7 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn write(&mut self, mut offset: u64, mut data: Vec<u8>) -> anyhow::Result<()> {
+        self.repair().await?;
         let end = self.end();
         if offset > end && !data.is_empty() {
             // a gap would end the file: fill it
@@ -413,6 +420,7 @@ impl WebCacheFile {
     }
 
     pub(crate) async fn truncate(&mut self, offset: u64) -> anyhow::Result<()> {
+        self.repair().await?;
         let plan = truncate(&self.chunks, offset);
         execute_plan(&self.cache, &self.file_name, plan, &mut self.chunks).await?;
         Ok(())
-- 
2.43.0


From 59a760c45e6d0c78ef06959d50e2f7b014ed2918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 22/25] fix: reading items from a browser file panicked or
 failed

---
 browser/src/web_cache_fs.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 8ec2e03..521059e 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -376,11 +376,16 @@ impl WebCacheFile {
     pub(crate) async fn load_length_prefixed(&self, start: u64) -> anyhow::Result<OwnedBlob> {
         // info!("load_length_prefixed index={}", start);
         // let t0 = js_sys::Date::now();
-        let chunks = intersecting_chunks(&self.chunks, start..start + 4).collect::<Vec<_>>();
-        let end = chunks.iter().map(|x| x.range().end).max().unwrap_or(start);
-        let res = self.load_chunks(start..end, chunks).await?;
+        let end = self.end();
+        anyhow::ensure!(start < end && end - start >= 4, "no item at {}", start);
+        let chunks = intersecting_chunks(&self.chunks, start..start + 4);
+        let loaded = chunks.map(|x| x.range().end).max().unwrap_or(start).min(end);
+        let mut res = self.read(start..loaded).await?;
         let len = usize::try_from(u32::from_be_bytes(res[0..4].try_into().unwrap()))?;
-        anyhow::ensure!(res.len() >= len + 4);
+        if res.len() < len + 4 {
+            // the item is in more than one chunk
+            res = self.read(start..start + 4 + u64::try_from(len)?).await?;
+        }
         let res = Blob::copy_from_slice(&res[4..len + 4]);
         // info!("load_length_prefixed {}", js_sys::Date::now() - t0);
         Ok(res)
-- 
2.43.0


From b6bbf14091b6c751af4a691e3ca186d6f3ca14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 23/25] fix: items that nearly fill a page, and ids beyond the
 end, made a paging file panic

---
 browser/src/paging_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/browser/src/paging_file.rs b/browser/src/paging_file.rs
index 176241e..eb800dd 100644
--- a/browser/src/paging_file.rs
+++ b/browser/src/paging_file.rs
@@ -79,7 +79,8 @@ impl PagingFileInner {
 
     fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
         let len = u64::try_from(data.len())?;
-        anyhow::ensure!(len <= self.page_size, "item too large");
+        // there has to be room for the alignment
+        anyhow::ensure!(len + 8 <= self.page_size, "item too large");
         if len + 8 > self.remaining() {
             self.close_page()?;
         }
@@ -109,6 +110,7 @@ impl PagingFileInner {
 
     pub(crate) fn load_length_prefixed(&mut self, start: u64) -> anyhow::Result<OwnedBlob> {
         trace!("load_length_prefixed {}", start);
+        anyhow::ensure!(start < self.length, "no item at {}", start);
         let last_page = page_num(self.length, self.page_size);
         let page_num = page_num(start, self.page_size);
         // offset of start within its page
-- 
2.43.0


From fac775afbdeaaaab944aa65d7fa91cc05c16b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:50 +0000
Subject: [PATCH 24/25] fix: names with the segments . and .. must not name
 other files of the browser's cache

---
 browser/src/web_cache_fs.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/browser/src/web_cache_fs.rs b/browser/src/web_cache_fs.rs
index 521059e..0893655 100644
--- a/browser/src/web_cache_fs.rs
+++ b/browser/src/web_cache_fs.rs
@@ -672,13 +672,21 @@ impl ChunkMeta {
 
 /// the url path for a file name, with everything escaped that means something in urls
 fn to_path(file_name: &str) -> String {
-    let mut res = String::from("/");
-    for (i, c) in file_name.bytes().enumerate() {
-        let special = c <= b' ' || c >= 0x7f || b"\"#%<>?\\^`{}".contains(&c);
-        if special || i == 0 && c == b'/' {
-            res.push_str(&format!("%{:02X}", c));
-        } else {
-            res.push(c.into());
+    let mut res = String::new();
+    for (i, segment) in file_name.split('/').enumerate() {
+        // only the first slash after the root needs to be escaped
+        res.push_str(if i == 1 && res == "/" { "%2F" } else { "/" });
+        if segment == "." || segment == ".." {
+            // urls drop these segments, escaped or not. The byte 0xff is in no file name
+            res.push_str("%FF");
+        }
+        for c in segment.bytes() {
+            let special = c <= b' ' || c >= 0x7f || b"\"#%<>?\\^`{}".contains(&c);
+            if special {
+                res.push_str(&format!("%{:02X}", c));
+            } else {
+                res.push(c.into());
+            }
         }
     }
     res
-- 
2.43.0


From 6aae787e6f216d06fe81b04c0f0563fba51db517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:08 +0000
Subject: [PATCH 25/25] fix: a blob whose length does not fit into 32 bits must
 be rejected

---
 src/store/paged_file_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index ddbbfc5..5c62a08 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -230,6 +230,11 @@ impl Inner {
             data.len() <= (self.page_size as usize) - 8,
             "block too large for this store"
         );
+        // the length is stored in 32 bits
+        anyhow::ensure!(
+            data.len() <= u32::MAX as usize,
+            "block too large for this store"
+        );
         // len of the data when stored, including length prefix
         let len = data.len() as u64 + 4;
         let position = self.file.seek(SeekFrom::End(0))?;
-- 
2.43.0

