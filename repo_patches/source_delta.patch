From 429dbe6d22b6e159cf9bb57dc4de463d7e668745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 01/23] fix: iterate COW trees by the actual parent of each
 child

While descending, fwd_step and bkwd_step compared a child's stored parent with the node the
descent started from instead of the child's immediate parent. When a stale parent pointer of a
shared node coincided with a reallocated ancestor, the override was not pushed and iteration
continued in the wrong subtree.
---
 src/tree/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..b2e2525 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -394,7 +394,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx))
                             }
                             _ => (),
@@ -486,7 +486,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx));
                             }
                             _ => (),
-- 
2.43.0


From a6aa87eaf9a20dfaf2075833e5031cf1a365f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 02/23] fix: keep every component in BoundedCursor

A new cursor started at LEN - 1, so the first prepended component was stored where into_path never
looked, an unset 0xFF component was yielded first, and an empty cursor yielded a component.
---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From 39e6b0b4f900c25354ec06af396e4e4beb3d60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 03/23] fix: descend into the child in cursor_to for COW trees

With a child whose stored parent belongs to another tree, the recursion restarted from the parent
with the child-relative target, recursing without end or returning another entry's path. The
stored index in the parent can be stale too, so it has to be compared as well.
---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..da4c07d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From fc3aeb1dd00d4afbd75ae6c4f0f5de3e55eb412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 04/23] fix: return the right cursor when an insertion joins
 the left half of a split slice

The cursor was reset before, instead of after, the component for the node
containing the slice, and the side of a split node that it ended up in was
wrong when a lower node had been split as well.
---
 src/tree/fix.rs    | 33 +++++++++++++++++++++------------
 src/tree/insert.rs | 41 ++++++++---------------------------------
 2 files changed, 29 insertions(+), 45 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..b3f38f8 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -67,12 +67,9 @@ pub(super) trait MapState {
 /// Both functions are provided the [`NodeHandle`] taken from `child_or_key` to allow functions
 /// using extra context.
 pub(super) struct MapOpUpdateState<'f, 't, I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
-    pub(super) cursor: Option<
-        &'f mut (dyn for<'c> FnMut(
-            &NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
-            CursorBuilder<'c>,
-        )),
-    >,
+    /// Called by [`do_upward_step`](OpUpdateState::do_upward_step), after the cursor has been
+    /// updated to include the node
+    pub(super) cursor: Option<MapCursor<'f, 't, I, S, P, M>>,
     pub(super) sizes: Option<
         &'f mut dyn FnMut(
             &mut NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
@@ -82,6 +79,12 @@ pub(super) struct MapOpUpdateState<'f, 't, I, S, P: RleTreeConfig<I, S, M>, cons
     >,
 }
 
+/// Callback in [`MapOpUpdateState`] for changing the cursor
+pub(super) type MapCursor<'f, 't, I, S, P, const M: usize> = &'f mut (dyn for<'c> FnMut(
+    &NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
+    CursorBuilder<'c>,
+) + 'f);
+
 /// Struct representing the subset of fields in an [`OpUpdateState`] that refer to sizes and
 /// positions
 pub(super) struct OpUpdateStateSizes<I> {
@@ -115,10 +118,6 @@ where
             ChildOrKey::Child((ci, n)) => (n.untyped_mut(), ChildOrKey::Child(*ci)),
         };
 
-        if let Some(map_cursor) = f.cursor.as_mut() {
-            map_cursor(node, self.cursor_builder.reborrow());
-        }
-
         if let Some(map_sizes) = f.sizes.as_mut() {
             let new_sizes = map_sizes(node, child_or_key, OpUpdateStateSizes {
                 override_pos: self.override_pos,
@@ -508,7 +507,7 @@ where
                 return;
             }
 
-            match self.do_upward_step() {
+            match self.do_upward_step(&mut map_state.cursor) {
                 Ok(()) => return,
                 Err(new_state) => self = new_state,
             }
@@ -519,7 +518,13 @@ where
     /// root
     ///
     /// Typically this method will not be used directly, and instead
-    pub(super) fn do_upward_step(mut self) -> Result<(), Self> {
+    ///
+    /// If provided, `map_cursor` is called once the cursor includes any component for the current
+    /// node.
+    pub(super) fn do_upward_step<'m>(
+        mut self,
+        map_cursor: &mut Option<MapCursor<'m, 't, I, S, P, M>>,
+    ) -> Result<(), Self> {
         // The first part of the traversal step starts with repositioning all of the keys after
         // `self.child_or_key`.
 
@@ -571,6 +576,10 @@ where
             self.cursor_builder.prepend_to_path(PathComponent { child_idx });
         }
 
+        if let Some(map_cursor) = map_cursor.as_mut() {
+            map_cursor(&node, self.cursor_builder.reborrow());
+        }
+
         // Update `self` to the parent, if there is one. Otherwise, this is the root node so we
         // should return `Err` with the cursor and reference to the insertion.
         match node.into_parent().ok() {
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..dd6c49a 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,36 +1109,8 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
             if node.height() == lhs_height {
                 builder.reset();
@@ -1147,11 +1119,14 @@ where
 
         let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
             if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+                // Everything in this node's half of the insertion was added to the right of
+                // `right_of`, so it's still at index `lhs_k_idx` in the sequence formed by `lhs`,
+                // the midpoint, and the right-hand node.
+                side = match lhs_k_idx.cmp(&lhs.leaf().len()) {
+                    Ordering::Less => Some(Side::Left),
+                    Ordering::Equal => None, // `right_of` is the midpoint key
+                    Ordering::Greater => Some(Side::Right),
+                };
             }
             side
         };
-- 
2.43.0


From 88bf04dd07d6598b54d58e3ea89538ca105efa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/23] fix: keep track of a slice moved by splitting an
 internal node on insertion

The slice that insert_ref returned a reference to could be left at a stale (or
out of bounds) index if it was in an internal node that needed to be split.
---
 src/tree/insert.rs | 51 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index dd6c49a..547f75f 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -5,7 +5,7 @@ use crate::param::{BorrowState, RleTreeConfig, SliceRefStore as _, SupportsInser
 use crate::{Index, PathComponent, RleTree, Slice};
 use std::cell::Cell;
 use std::cmp::Ordering;
-use std::ops::ControlFlow;
+use std::ops::{ControlFlow, Range};
 
 use super::fix::{
     self, MapOpUpdateState, MapState, OpUpdateState, TraverseUpdate, UpdatesCallback,
@@ -2172,7 +2172,7 @@ where
                     .prepend_to_path(PathComponent { child_idx: new_key_idx + s as u8 });
             }
 
-            // Signal the insertion:
+            // Signal the insertion, alongside the changes from the split:
             let make_update = match self.inserted {
                 true => TraverseUpdate::put_back,
                 false => TraverseUpdate::insert,
@@ -2181,7 +2181,42 @@ where
             // SAFETY: `into_slice_handle` requires that `new_key_idx < insert_into.leaf().len()`,
             // which is guaranteed by `insert_key_and_child`.
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
-            updates_callback(make_update(&inserted_handle));
+            let inserted = make_update(&inserted_handle);
+
+            let (ptr, rhs_ptr, height) = (parent.ptr(), rhs.node.ptr(), parent.height());
+            let (mid, len) = (midpoint_idx, 2 * M as u8);
+            let move_slices =
+                |old_ptr, old_range: Range<u8>, new_ptr, new_start| TraverseUpdate::Move {
+                    old_ptr,
+                    new_range: new_start..new_start + (old_range.end - old_range.start),
+                    old_range,
+                    new_ptr,
+                    new_height: height,
+                };
+
+            match side {
+                Side::Right => {
+                    updates_callback(move_slices(ptr, mid + 1..lhs_child_idx, rhs_ptr, 0));
+                    updates_callback(move_slices(
+                        ptr,
+                        lhs_child_idx..len,
+                        rhs_ptr,
+                        new_key_idx + 1,
+                    ));
+                    updates_callback(inserted);
+                    updates_callback(TraverseUpdate::Remove { ptr, height, idx: mid });
+                }
+                Side::Left => {
+                    // The inserted key (or the ones shifted by it) may now be where the midpoint
+                    // was, and it must be put back before the midpoint is removed. So we say that
+                    // the midpoint went through the start of `rhs`, before filling `rhs`.
+                    updates_callback(move_slices(ptr, mid..mid + 1, rhs_ptr, 0));
+                    updates_callback(move_slices(ptr, new_key_idx..mid, ptr, new_key_idx + 1));
+                    updates_callback(inserted);
+                    updates_callback(TraverseUpdate::Remove { ptr: rhs_ptr, height, idx: 0 });
+                    updates_callback(move_slices(ptr, mid + 1..len, rhs_ptr, 0));
+                }
+            }
 
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
@@ -2290,6 +2325,16 @@ where
                 self.cursor_builder.prepend_to_path(PathComponent { child_idx });
             }
 
+            // Signal the changes from the split. The original midpoint was put back where it was.
+            let rhs_len = rhs.as_ref().leaf().len();
+            updates_callback(TraverseUpdate::Move {
+                old_ptr: parent.ptr(),
+                old_range: M as u8..M as u8 + rhs_len,
+                new_ptr: rhs.node.ptr(),
+                new_height: parent.height(),
+                new_range: 0..rhs_len,
+            });
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: self.key,
-- 
2.43.0


From d5407903f0beddf341b61c767e27915078095d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 06/23] fix: use the directional operations that the documented
 laws allow

With an index type whose addition isn't commutative, the positions after an
insertion, and the size of an entry, were wrong.
---
 src/mock.rs        | 2 +-
 src/tree/entry.rs  | 2 +-
 src/tree/fix.rs    | 6 +++---
 src/tree/insert.rs | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 20fa07e..bff6f9c 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -207,7 +207,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             self.refs_map.remap(id, stable_id);
         }
 
-        let diff = base_pos.add_right(new_size).sub_left(base_pos.add_right(old_size));
+        let diff = base_pos.add_right(new_size).sub_right(base_pos.add_right(old_size));
 
         for (i, ..) in self.runs.get_mut(idx + 1..).unwrap_or(&mut []) {
             *i = i.add_left(diff);
diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index b3f38f8..a254a45 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -544,7 +544,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -739,7 +739,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -751,7 +751,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 547f75f..96bff6f 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 00b8890d9603fa66dae1bea9aac664f3dd2296a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 07/23] fix: check both holes in Leaf::is_hole

With one hole, it's holes[1] that's set, so a slice whose value had been taken
was never recognized as such.
---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From dda8dc140264dc08bbbf0c79275042cae613ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 08/23] fix: refuse to insert into a node with holes

After a panic in Slice::try_join (or split_at) had left a hole behind, inserting
before it in the same node shifted the values without shifting the hole, and the
value then at the hole's index was never dropped, with another one dropped twice.
---
 src/tree/node.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..8a1684e 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2147,6 +2147,10 @@ where
     ///
     /// Failing to satisfy either of these conditions will trigger immediate UB.
     ///
+    /// ## Panics
+    ///
+    /// This method will panic if there are any holes in the node.
+    ///
     /// [`set_key_poss_with`]: Self::set_key_poss_with
     /// [`insert_key_and_child`]: Self::insert_key_and_child
     pub unsafe fn insert_key(
@@ -2164,6 +2168,11 @@ where
             weak_assert!(self.leaf().len < self.leaf().max_len());
         }
 
+        // We'd need to shift the holes as well as the values
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let refid = UnsafeCell::new(<resolve![P::SliceRefStore::OptionRefId]>::default());
 
         let this_ptr = self.ptr;
@@ -2448,6 +2457,10 @@ where
     ///
     /// Failing to satisfy any of these conditions will trigger immediate UB.
     ///
+    /// ## Panics
+    ///
+    /// This method will panic if there are any holes in the node.
+    ///
     /// [`set_key_poss_with`]: Self::set_key_poss_with
     /// [`insert_key`]: Self::insert_key
     pub unsafe fn insert_key_and_child(
@@ -2467,6 +2480,11 @@ where
             weak_assert!(self.height.as_u8() - 1 == child.height);
         }
 
+        // We'd need to shift the holes as well as the values
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let this_ptr = self.ptr;
         let height = self.height.as_u8();
         let pos = self.leaf().try_key_pos(key_idx).unwrap_or(self.leaf().total_size);
-- 
2.43.0


From 166e1289fb6fac395b651f01665b879e5fadb67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 09/23] fix: count clones of invalid slice references

Dropping a clone of a SliceRef made after the tree was dropped would decrease a
count that the clone didn't increase, so the shared allocation was freed while
there were still references to it.
---
 src/tree/slice_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..e0d0e56 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -844,11 +844,13 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
+        // The new reference counts towards the total even if there's nothing left to refer to
+        bump_weak_count(&self.inner().weak_count);
+
         let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
-- 
2.43.0


From fff66d21beae657c74a0a656dfb8d662a2d89b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 10/23] fix: treat a tree as dropped while it's only kept alive
 by a Borrow

The storage for slice references is already gone at that point, so using any
SliceRef would panic with an index out of bounds.
---
 src/tree/slice_ref.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index e0d0e56..ad84b9d 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -499,6 +499,10 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
                 drop_if_zero: false,
             }),
             BorrowState::Mutable => Err(BorrowFailure::CannotGetImmutAlreadyMutablyBorrowed),
+            // If the tree has been dropped, it's only still there for the existing `Borrow`s
+            BorrowState::Immutable { drop_if_zero: true, .. } => {
+                Err(BorrowFailure::CannotGetImmutAlreadyDropped)
+            }
             BorrowState::Immutable { mut count, drop_if_zero } => {
                 count = count
                     .checked_add(1)
@@ -521,10 +525,12 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     fn get_refs_without_borrow(&self) -> Option<&RefCell<RecycleVec<StoredSliceRef<I, S, M>>>> {
         let inner = self.inner();
         match inner.borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } | BorrowState::Mutable => {
-                Some(&inner.refs)
-            }
-            BorrowState::Dropping | BorrowState::Dropped => None,
+            BorrowState::NotBorrowed
+            | BorrowState::Immutable { drop_if_zero: false, .. }
+            | BorrowState::Mutable => Some(&inner.refs),
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Dropping
+            | BorrowState::Dropped => None,
         }
     }
 
@@ -655,8 +661,11 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     /// [`is_valid`]: Self::is_valid
     pub fn can_borrow(&self) -> bool {
         match self.inner().borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } => true,
-            BorrowState::Mutable | BorrowState::Dropping | BorrowState::Dropped => false,
+            BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. } => true,
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Mutable
+            | BorrowState::Dropping
+            | BorrowState::Dropped => false,
         }
     }
 
-- 
2.43.0


From c1ce363beaacb50703b79143bc51a30ea9d64e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 11/23] fix: don't create a mutable reference to the child
 pointer through immutable borrows

---
 src/tree/node.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index 8a1684e..1cb78de 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -353,9 +353,16 @@ pub(super) mod borrow {
     {
         type Param: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>;
 
-        fn cast_ref_if_mut(
-            r: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>>;
+        /// Returns a mutable reference to the pointer, if this is a mutable borrow
+        ///
+        /// ## Safety
+        ///
+        /// For mutable borrows, the pointer must be valid, with unique access for the lifetime
+        /// `'r`. There are no requirements for other borrows: another thread may be reading from
+        /// the pointer, so they must not produce any mutable reference to it.
+        unsafe fn cast_ref_if_mut<'r>(
+            r: *mut NodePtr<I, S, P, M>,
+        ) -> Option<&'r mut NodePtr<I, S, Self::Param, M>>;
     }
     impl<'a, I, S, P, const M: usize> SupportsInsertIfMut<I, S, P, M> for Immut<'a>
     where
@@ -365,9 +372,9 @@ pub(super) mod borrow {
         // `None`, meaning that it's never used.
         type Param = crate::param::NoFeatures;
 
-        fn cast_ref_if_mut(
-            _: &mut NodePtr<I, S, P, M>,
-        ) -> Option<&mut NodePtr<I, S, Self::Param, M>> {
+        unsafe fn cast_ref_if_mut<'r>(
+            _: *mut NodePtr<I, S, P, M>,
+        ) -> Option<&'r mut NodePtr<I, S, Self::Param, M>> {
             None
         }
     }
@@ -377,8 +384,11 @@ pub(super) mod borrow {
     {
         type Param = P;
 
-        fn cast_ref_if_mut(r: &mut NodePtr<I, S, P, M>) -> Option<&mut NodePtr<I, S, P, M>> {
-            Some(r)
+        unsafe fn cast_ref_if_mut<'r>(
+            r: *mut NodePtr<I, S, P, M>,
+        ) -> Option<&'r mut NodePtr<I, S, P, M>> {
+            // SAFETY: guaranteed by the caller
+            Some(unsafe { &mut *r })
         }
     }
 }
@@ -2062,9 +2072,9 @@ where
             p as *mut _
         };
 
-        let ptr_ref = unsafe { &mut *child_ptr_ptr };
-
-        if let Some(r) = B::cast_ref_if_mut(ptr_ref) {
+        // SAFETY: if `B` is mutable, we have unique access to the node, as required by the safety
+        // bounds of this method; otherwise, we don't have any guarantees to uphold.
+        if let Some(r) = unsafe { B::cast_ref_if_mut(child_ptr_ptr) } {
             unsafe { ensure_unique(r, self.height.get() - 1) };
 
             // Because we have unique mutable access now, make sure that the child's parent pointer
@@ -2081,7 +2091,8 @@ where
         }
 
         NodeHandle {
-            ptr: *ptr_ref,
+            // SAFETY: see the note for `child_ptr_ptr` above
+            ptr: unsafe { *child_ptr_ptr },
             height: self.height.get() - 1,
             borrow: self.borrow,
         }
-- 
2.43.0


From babdaf33b3701da8988c5c175b5de44981c028c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 12/23] fix: return an error when deserializing a slice with
 non-positive size

---
 src/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..b0296d0 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,11 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom("slice has non-positive size"));
+            }
+
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From fc5f1b83caa3837dc09ad3a322be59b58dfd0295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 13/23] fix: require Send to share a COW-enabled tree between
 threads

---
 src/param.rs    | 14 ++++++++++++++
 src/tree/mod.rs |  8 ++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 574cfe8..db8dae4 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -148,6 +148,16 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// [`SliceRef`]: crate::SliceRef
 pub trait RleTreeIsSend<I, S> {}
 
+/// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
+///
+/// This is analogous to [`RleTreeIsSend`]. Trees with [`NoFeatures`] implement `Sync` if the values
+/// they contain do. With [`AllowCow`], cloning a `&RleTree` from another thread produces another
+/// owner of the same values, so -- like `Arc`s -- they require `Send + Sync`. Trees with
+/// [`AllowSliceRefs`] never implement `Sync`.
+///
+/// [`RleTree`]: crate::RleTree
+pub trait RleTreeIsSync<I, S> {}
+
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
     pub trait TraitYouCantReach {}
@@ -305,3 +315,7 @@ impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
 impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
 impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+
+// Refer to `RleTreeIsSync` for more information about implementing `Sync`
+impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index da4c07d..a5d96ce 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -2,8 +2,8 @@
 
 use crate::cursor::{Cursor, CursorBuilder, NoCursor, PathComponent};
 use crate::param::{
-    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, SliceRefStore as _,
-    SupportsInsert,
+    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, RleTreeIsSync,
+    SliceRefStore as _, SupportsInsert,
 };
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
@@ -152,8 +152,8 @@ unsafe impl<I, S, P, const M: usize> Send for RleTree<I, S, P, M> where
 {
 }
 
-unsafe impl<I: Sync, S: Sync, P: Sync, const M: usize> Sync for RleTree<I, S, P, M> where
-    P: RleTreeConfig<I, S, M>
+unsafe impl<I, S, P, const M: usize> Sync for RleTree<I, S, P, M> where
+    P: RleTreeConfig<I, S, M> + RleTreeIsSync<I, S>
 {
 }
 
-- 
2.43.0


From 94a555326890c38eae40c8695a987b7da48fd90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 14/23] fix: have drop check see the values owned by the tree

---
 src/tree/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index a5d96ce..4358dc3 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -8,6 +8,7 @@ use crate::param::{
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
 use std::fmt::Debug;
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 use std::ops::Range;
 use std::panic::{RefUnwindSafe, UnwindSafe};
@@ -166,6 +167,9 @@ where
     handle: ManuallyDrop<NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>>,
     len: usize,
     refs_store: <P as RleTreeConfig<I, S, M>>::SliceRefStore,
+    // The nodes own the values, which drop check can't see through `handle`. It has to, for the
+    // `#[may_dangle]` in the implementation of `Drop` to be sound.
+    marker: PhantomData<(I, S)>,
 }
 
 #[cfg(not(feature = "nightly"))]
@@ -353,6 +357,7 @@ where
                 handle: ManuallyDrop::new(handle),
                 len: 1,
                 refs_store: P::SliceRefStore::new(store_handle),
+                marker: PhantomData,
             }),
         }
     }
@@ -778,6 +783,7 @@ where
                     handle: ManuallyDrop::new(root.handle.as_immut().deep_clone().erase_unique()),
                     len: root.len,
                     refs_store: Default::default(),
+                    marker: PhantomData,
                 }),
             },
         }
@@ -801,6 +807,7 @@ impl<I, S: Clone, const M: usize> Clone for RleTree<I, S, param::AllowCow, M> {
                         len: root.len,
                         // refs_store will be empty because this is a COW-enabled tree
                         refs_store: Default::default(),
+                        marker: PhantomData,
                     }),
                 }
             }
-- 
2.43.0


From 061cb02ee607980e832e10efb8908c3313324c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 15/23] fix: drop the values already cloned when a deep clone
 panics

---
 src/tree/node.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index 1cb78de..f61e4be 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -1146,23 +1146,27 @@ where
             }
         }
 
-        let new_leaf: Leaf<I, S, param::NoFeatures, M> = Leaf {
-            parent: None,
-            idx_in_parent: MaybeUninit::uninit(),
-            holes: [None; 2],
-            len: this_leaf.len,
-            strong_count: (),
-            keys: this_leaf.keys,
-            vals: vals.into_uninit(),
-            // Note: We can leave `refs` uninitialized because `param::NoFeatures` has
-            // `OptionRefId = ()`, so the total size of `refs` is zero.
-            refs: KeyArray::new(),
-            total_size: this_leaf.subtree_size(),
+        // Note: If cloning the children panics, `vals` still needs to be dropped. So we don't produce
+        // the new leaf until everything that can panic is done.
+        let make_leaf = |vals: GradualInitArray<KeyArray<S, M>>| -> Leaf<I, S, param::NoFeatures, M> {
+            Leaf {
+                parent: None,
+                idx_in_parent: MaybeUninit::uninit(),
+                holes: [None; 2],
+                len: this_leaf.len,
+                strong_count: (),
+                keys: this_leaf.keys,
+                vals: vals.into_uninit(),
+                // Note: We can leave `refs` uninitialized because `param::NoFeatures` has
+                // `OptionRefId = ()`, so the total size of `refs` is zero.
+                refs: KeyArray::new(),
+                total_size: this_leaf.subtree_size(),
+            }
         };
 
         match self.typed_ref() {
             Type::Leaf(_) => NodeHandle {
-                ptr: alloc_aligned(new_leaf).cast::<AbstractNode<I, S, param::NoFeatures, M>>(),
+                ptr: alloc_aligned(make_leaf(vals)).cast::<AbstractNode<I, S, param::NoFeatures, M>>(),
                 height: self.height,
                 borrow: PhantomData,
             },
@@ -1184,7 +1188,7 @@ where
                 }
 
                 let new_internal = Internal {
-                    leaf: new_leaf,
+                    leaf: make_leaf(vals),
                     child_ptrs: child_ptrs.into_uninit().map_array_with_index(|i, p| {
                         if i as u8 <= this_leaf.len {
                             // SAFETY: the bound `i <= this_leaf.len` means `p` is initialized
-- 
2.43.0


From 4601497c2f25cff46c26661ab8d967a6d048beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 16/23] fix: check that a leaf has keys before taking its last
 one in make_stack

---
 src/tree/iter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index b2e2525..60f620f 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -318,9 +318,13 @@ where
                 // Use the key or child immediately to the left.
                 match head_node.into_typed() {
                     Type::Leaf(_) => {
+                        // A leaf can be left without any keys if a user-supplied callback panicked
+                        // while the node was being split.
+                        assert!(len >= 1);
+
                         let i = len - 1;
-                        // SAFETY: `len` is guaranteed to be `>= 1`, so `len - 1` can't overflow,
-                        // and key indexes must be `< len`.
+                        // SAFETY: we just checked that `len >= 1`, so `len - 1` can't overflow, and
+                        // key indexes must be `< len`.
                         let p = unsafe { head_node.leaf().key_pos(i) };
                         ChildOrKey::Key((i, p))
                     }
-- 
2.43.0


From 0654be84eab4f2183de7d255ccc4c51949dd299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 17/23] fix: hold a pointer instead of a reference in Borrow

Dropping the last Borrow of a tree that has been dropped destroys the
referenced slice, which isn't allowed while a reference to it is part of a
function argument (e.g. of mem::drop). std::cell::Ref does the same.
---
 src/tree/slice_ref.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index ad84b9d..927744b 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -228,7 +228,12 @@ pub enum ShouldDrop {
 // conditions *created* during its destructor
 pub struct Borrow<'a, T> {
     /// The original `Slice`, or a reference produced from it
-    val: &'a T,
+    //
+    // This is `NonNull` instead of a reference for the same reason as in `std::cell::Ref`: a
+    // reference inside of a function argument must stay valid until that function returns, but
+    // dropping this value may drop the tree (and so the referenced value with it).
+    val: NonNull<T>,
+    marker: PhantomData<&'a T>,
     /// The state of the original borrow
     ///
     /// Existence of this `Ref` guarantees the borrow is `Immutable { .. }`, except for the few
@@ -919,11 +924,12 @@ impl<'r, I, S, const M: usize> TemporaryBorrow<'r, I, S, M> {
         // don't use it improperly. We know that it'll be sound because: (a) the `BorrowState`
         // ensures that the tree won't be modified out from underneath us, and (b) the tree is
         // not dropped until *at least* the `Borrow` is dropped.
-        let val = unsafe { handle.borrow_slice() };
+        let val: &'r S = unsafe { handle.borrow_slice() };
 
         self.ownership_transferred = true;
         Borrow {
-            val,
+            val: NonNull::from(val),
+            marker: PhantomData,
             borrow: &self.inner.borrow,
             data_ptr: NonNull::from(self.inner).cast::<()>(),
             drop_fn: Self::drop_tree_once_no_borrows,
@@ -1012,7 +1018,9 @@ impl<'a, T> Deref for Borrow<'a, T> {
     type Target = T;
 
     fn deref(&self) -> &T {
-        self.val
+        // SAFETY: existence of the `Borrow` guarantees that the value hasn't been dropped and isn't
+        // mutably borrowed
+        unsafe { self.val.as_ref() }
     }
 }
 
@@ -1023,7 +1031,8 @@ impl<'a, T> Borrow<'a, T> {
     /// itself. As such, it must be called as `Borrow::map(...)`.
     pub fn map<U>(this: Self, f: impl FnOnce(&T) -> &U) -> Borrow<'a, U> {
         let new = Borrow {
-            val: f(this.val),
+            val: NonNull::from(f(&this)),
+            marker: PhantomData,
             borrow: this.borrow,
             data_ptr: this.data_ptr,
             drop_fn: this.drop_fn,
@@ -1048,6 +1057,7 @@ impl<'a, T> Clone for Borrow<'a, T> {
 
         Borrow {
             val: self.val,
+            marker: PhantomData,
             borrow: self.borrow,
             data_ptr: self.data_ptr,
             drop_fn: self.drop_fn,
-- 
2.43.0


From 4d4aa702aad768541b94d3d5c1dda543b15f3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 18/23] fix: have the mock refuse non-positive sizes and
 negative range starts like RleTree

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index bff6f9c..71a5f83 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -106,7 +106,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
     }
 
     pub fn insert(&mut self, index: I, mut slice: S, size: I, make_ref: bool) -> Option<Ref> {
-        if size == I::ZERO {
+        if size <= I::ZERO {
             panic!("invalid insertion size");
         } else if index > self.size() {
             panic!("index out of bounds");
@@ -252,7 +252,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             StartBound::Included(i) => {
                 start_pos = i;
                 unbounded_start = false;
-                if i >= self.size() {
+                if i < I::ZERO || i >= self.size() {
                     panic!("start index out of bounds");
                 }
 
-- 
2.43.0


From c3a0e7ce99ca752be7304106ac8c2c04c34be30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 19/23] fix: make the traits that decide Send and Sync unsafe
 to implement

---
 src/param.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index db8dae4..05ffd18 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -144,9 +144,14 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// the trait bound `AllowSliceRefs: RleTreeIsSend<I, S>` is not satisfied
 /// ```
 ///
+/// ## Safety
+///
+/// [`RleTree`]s implement [`Send`] whenever this trait says that they can, so implementations must
+/// meet the requirements above.
+///
 /// [`RleTree`]: crate::RleTree
 /// [`SliceRef`]: crate::SliceRef
-pub trait RleTreeIsSend<I, S> {}
+pub unsafe trait RleTreeIsSend<I, S> {}
 
 /// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
 ///
@@ -155,8 +160,13 @@ pub trait RleTreeIsSend<I, S> {}
 /// owner of the same values, so -- like `Arc`s -- they require `Send + Sync`. Trees with
 /// [`AllowSliceRefs`] never implement `Sync`.
 ///
+/// ## Safety
+///
+/// As with [`RleTreeIsSend`], [`RleTree`]s implement [`Sync`] whenever this trait says that they
+/// can.
+///
 /// [`RleTree`]: crate::RleTree
-pub trait RleTreeIsSync<I, S> {}
+pub unsafe trait RleTreeIsSync<I, S> {}
 
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
@@ -313,9 +323,9 @@ impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
 }
 
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
-impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
-impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+unsafe impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
 
 // Refer to `RleTreeIsSync` for more information about implementing `Sync`
-impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
-impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
+unsafe impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+unsafe impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
-- 
2.43.0


From 8e7813b47098238a7b100967b6352efdfc8ca88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 20/23] fix: don't follow stored parents when searching or
 iterating COW trees

---
 src/tree/iter.rs | 33 ++++++++-------------------------
 src/tree/mod.rs  | 12 +++++-------
 2 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index 60f620f..134143e 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -81,11 +81,11 @@ struct IterStack<'t, I, S, P, const M: usize>
 where
     P: RleTreeConfig<I, S, M>,
 {
-    /// Stack of all the nodes leading to `head` where the child containing `head` has a different
-    /// node as its parent
+    /// Stack of all the nodes leading to `head`, with the index of the child containing `head`
     ///
-    /// This can only occur when COW is enabled, and so control flow around `stack` typically
-    /// checks `P::COW` first.
+    /// This is only used when COW is enabled, where the parent stored in a child may be some other
+    /// node -- or one that's already been deallocated, with its address since reused. We can't
+    /// tell by comparing pointers, so the stored parents are never used.
     stack: Vec<(NodeHandle<ty::Unknown, borrow::Immut<'t>, I, S, P, M>, u8)>,
     /// The height of the root node
     ///
@@ -359,16 +359,9 @@ where
                     // SAFETY: `search_step` and our processing above guarantee that `c_idx` is a
                     // valid child index.
                     let child = unsafe { node.into_child(c_idx) };
-                    // If we have COW enabled, and the child's parent is not this node, we need to
-                    // add `head_node` to the stack.
+                    // If we have COW enabled, we need to add `head_node` to the stack.
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            // Different child pointer:
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
-                                stack.push((head_node, c_idx))
-                            }
-                            _ => (),
-                        }
+                        stack.push((head_node, c_idx));
                     }
 
                     target = target.sub_left(c_pos);
@@ -397,12 +390,7 @@ where
                     // is a valid key index, so +1 is a valid child index.
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (parent.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx))
-                            }
-                            _ => (),
-                        }
+                        self.stack.push((parent.erase_type(), c_idx));
                     }
 
                     match child.into_typed() {
@@ -489,12 +477,7 @@ where
                     // child index.
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (parent.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx));
-                            }
-                            _ => (),
-                        }
+                        self.stack.push((parent.erase_type(), c_idx));
                     }
 
                     match child.into_typed() {
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 4358dc3..d7cda30 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -496,13 +496,11 @@ where
 
                             // SAFETY: search_step guarantees that c_idx is valid
                             let child = unsafe { n.into_child(c_idx) };
-                            // note: adding P::COW means the compiler knows it will always be false
-                            let mismatched_parent = P::COW
-                                && !matches!(
-                                    child.leaf().parent(),
-                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
-                                );
-                            if mismatched_parent {
+                            // With COW enabled, the parent stored in `child` may be some other
+                            // node -- or one that's already been deallocated, with its address
+                            // since reused. We can't tell by comparing pointers, so the stored
+                            // parents are never used.
+                            if P::COW {
                                 let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
-- 
2.43.0


From 1a22f8c7fed34cb5f15ee20922bbb11e0c507c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 21/23] fix: don't hold a RefCell borrow while queries on a
 SliceRef run user code

---
 src/tree/slice_ref.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 927744b..51a7c97 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -701,10 +701,18 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
         let unwrap_msg =
             "slice handles should not be suspended while the tree is not mutably borrowed";
 
+        // We can't hold on to the `cell::Ref` from `collapse_refs`: the borrow may be used to run
+        // arbitrary user code (in `Index` or `Cursor` implementations), which is allowed to create
+        // or drop other `SliceRef`s, or to drop the tree.
+        let handle = self.collapse_refs(refs).map(|opt| {
+            let handle = opt.as_ref().expect(unwrap_msg);
+            // SAFETY: The copy isn't used for longer than the `TemporaryBorrow`, and the slice
+            // won't be moved or dropped before that because the tree is borrowed.
+            unsafe { handle.clone_slice_ref() }
+        });
+
         Ok(TemporaryBorrow {
-            handle: self
-                .collapse_refs(refs)
-                .map(|r| cell::Ref::map(r, |opt| opt.as_ref().expect(unwrap_msg))),
+            handle,
             inner: self.inner(),
             ownership_transferred: false,
         })
@@ -880,10 +888,7 @@ impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
 }
 
 struct TemporaryBorrow<'r, I, S, const M: usize> {
-    // the `cell::Ref` needs to be behind a `ManuallyDrop` so that we don't try to drop the
-    // contents of the `InnerStore` while it's still borrowed; we need to drop the `Ref` first.
-    handle:
-        Option<cell::Ref<'r, SliceHandle<ty::Unknown, borrow::SliceRef, I, S, AllowSliceRefs, M>>>,
+    handle: Option<SliceHandle<ty::Unknown, borrow::SliceRef, I, S, AllowSliceRefs, M>>,
     inner: &'r InnerStore<I, S, M>,
     ownership_transferred: bool,
 }
@@ -944,11 +949,6 @@ impl<'r, I, S, const M: usize> TemporaryBorrow<'r, I, S, M> {
 
 impl<'r, I, S, const M: usize> Drop for TemporaryBorrow<'r, I, S, M> {
     fn drop(&mut self) {
-        // Explicitly drop the `cell::Ref` early so that we don't run into borrow conflicts if we
-        // need to drop the `InnerStore` as well.
-        if let Some(handle_ref) = self.handle.take() {
-            drop(handle_ref);
-        }
         if self.ownership_transferred {
             return;
         }
-- 
2.43.0


From 75521bae2747b95afb1983581b28a54c5b2ec72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:57 +0000
Subject: [PATCH 22/23] fix: serialize trees with their length, which some
 formats require

---
 src/serde.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index b0296d0..bc668b8 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -1,7 +1,7 @@
 //! `serde` support for [`RleTree`]s
 
 use serde::de::{self, Deserialize, Deserializer, Visitor};
-use serde::{Serialize, Serializer};
+use serde::ser::{Serialize, SerializeSeq, Serializer};
 
 use std::fmt;
 use std::marker::PhantomData;
@@ -16,7 +16,13 @@ where
     P: RleTreeConfig<I, S, M>,
 {
     fn serialize<Se: Serializer>(&self, serializer: Se) -> Result<Se::Ok, Se::Error> {
-        serializer.collect_seq(self.iter(..).map(|entry| (entry.size(), entry.slice())))
+        // note: not `collect_seq`, because our iterator doesn't know its length, which some formats
+        // require.
+        let mut seq = serializer.serialize_seq(Some(self.number_of_slices()))?;
+        for entry in self.iter(..) {
+            seq.serialize_element(&(entry.size(), entry.slice()))?;
+        }
+        seq.end()
     }
 }
 
-- 
2.43.0


From 8e46778bf33f99a1d74c3c25ae2616f300e5194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 23/23] fix: refuse to deserialize trees whose total size
 doesn't fit in the index type

---
 src/serde.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index bc668b8..9adcbb7 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -60,7 +60,10 @@ where
                 return Err(de::Error::custom("slice has non-positive size"));
             }
 
-            let idx = this.size();
+            let idx: I = this.size();
+            if idx.add_right(size) <= idx {
+                return Err(de::Error::custom("total size of all slices is too large"));
+            }
             this.insert(idx, slice, size);
         }
 
-- 
2.43.0

