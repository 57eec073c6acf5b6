From 34b8990a63fa7cc3f2a41d3be9b060d57cd9bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 1/5] fix: free ArcSliceData's boxed weak guard on drop

---
 src/arc/arc_slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..cdafba7 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -229,6 +229,9 @@ impl<T> ArcSliceData<T> {
 
 impl<T> Drop for ArcSliceData<T> {
     fn drop(&mut self) {
+        // Free the Box<Weak<DataGuard>> that guard was obtained from. We have
+        // exclusive access, so no one else can be looking at it.
+        unsafe { drop(Box::from_raw(*self.guard.get_mut())); }
         // Move the children out to decrement their strong counts and
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
-- 
2.43.0


From 26665df9e54192da3640bc3e9ba2be68595031b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 2/5] fix: keep the deque's capacity when cloning
 BinaryPartsIter

---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..7721e06 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -147,6 +146,22 @@ impl<S> BinaryPartsIter<S> {
     }
 }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // VecDeque's own Clone only allocates room for the items it currently
+        // holds. Preserve our capacity instead, so that the clone doesn't need
+        // to re-allocate while iterating either.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 impl<S: BinarySplitOff> ExactSizeIterator for BinaryPartsIter<S> {
     #[inline]
     fn len(&self) -> usize {
-- 
2.43.0


From dfa374b5fc58b9b48da20836911b2837fc4f4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 3/5] fix: synchronize ArcSlice's get_mut and into_mut with
 drops of other refs

---
 src/arc/arc_slice.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index cdafba7..773d577 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -5,7 +5,7 @@ use core::{
     ops::Deref,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{self, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -374,7 +374,10 @@ impl<T> ArcSlice<T> {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
+                            // Safe to mutate. But reading the counts above is only a
+                            // Relaxed load, so synchronize w/ whoever dropped the other
+                            // refs before touching the items they had access to.
+                            atomic::fence(Ordering::Acquire);
                             unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
                         } else {
                             None
@@ -397,6 +400,10 @@ impl<T> ArcSlice<T> {
         let slice_mut = match (*data_guard).clone_child_gate.try_close() {
             Some(_clone_child_latch) => {
                 if 1 == Arc::strong_count(&data_guard) {
+                    // Reading the count above is only a Relaxed load. Synchronize
+                    // w/ whoever dropped the refs to our descendants. (try_unwrap
+                    // takes care of refs to our own data.)
+                    atomic::fence(Ordering::Acquire);
                     Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
                 } else {
                     Err(data)
-- 
2.43.0


From 87e28f03cad40613b2032640f07ae014b96da4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 4/5] fix: check ArcSlice's strong refs before weak refs in
 get_mut

---
 src/arc/arc_slice.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 773d577..df3145f 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -368,27 +368,31 @@ impl<T> ArcSlice<T> {
         // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
         // reason they do w/ RcSlice::get_mut. Refactor!
 
-        // Check for no weak refs first.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-                    if 1 == Arc::strong_count(&this.data_guard) {
-                        if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate. But reading the counts above is only a
-                            // Relaxed load, so synchronize w/ whoever dropped the other
-                            // refs before touching the items they had access to.
-                            atomic::fence(Ordering::Acquire);
-                            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                )
-            } else {
-                None
-            }
+            this.clone_child_gate().try_close().and_then(|_clone_child_latch| {
+                // Reading the counts is only a Relaxed load, so each check needs to
+                // synchronize w/ whoever dropped the refs it found to be gone.
+                let only_strong_ref = || {
+                    let only = 1 == Arc::strong_count(&this.data_guard) && 1 == Arc::strong_count(&this.data);
+                    atomic::fence(Ordering::Acquire);
+                    only
+                };
+                let no_weak_refs = || {
+                    let none = 1 == Arc::weak_count(&this.data_guard);
+                    atomic::fence(Ordering::Acquire);
+                    none
+                };
+                // Another ArcSlice might already be past the downgrade gate, so check
+                // for weak refs only once there's no other ArcSlice left to finish a
+                // downgrade. And a weak ref might have been upgraded and then dropped
+                // before we checked for it, so look for other strong refs once more.
+                if only_strong_ref() && no_weak_refs() && only_strong_ref() {
+                    // Safe to mutate
+                    unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
+                } else {
+                    None
+                }
+            })
         )
     }
 
-- 
2.43.0


From 402e69da6f160f8a4ceec6f0d94c5960f10b61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:45 +0000
Subject: [PATCH 5/5] fix: order Gate with the ref counts it guards

Relaxed count reads after closing a gate could miss a ref whose owner had just
found the gate open: both sides store to one location and load from another,
which takes SeqCst fences to order.
---
 src/internal/gate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..dd63e4e 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -1,4 +1,4 @@
-use core::sync::atomic::{AtomicBool, Ordering};
+use core::sync::atomic::{self, AtomicBool, Ordering};
 
 /// A simple syncrhonization primitive.
 pub struct Gate {
@@ -13,6 +13,9 @@ impl Gate {
     }
 
     pub fn wait_till_open(&self) {
+        // Pairs w/ the fence in try_close: Either we see that the gate is closed,
+        // or whoever closes it sees the refs we took before coming here.
+        atomic::fence(Ordering::SeqCst);
         while self.is_closed.load(Ordering::SeqCst) {}
     }
 
@@ -20,6 +23,8 @@ impl Gate {
         if self.is_closed.swap(true, Ordering::SeqCst) {
             None
         } else {
+            // See wait_till_open.
+            atomic::fence(Ordering::SeqCst);
             Some(Latch(self))
         }
     }
-- 
2.43.0

