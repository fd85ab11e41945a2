From 7a4ce1e8d0f952e3f0f7f0de51d62733b711d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 01/16] fix: cursor_to on copy-on-write trees descends into the
 child whose parent link is stale

The recursion was handed the node it was already at, so looking up a cursor
through a shared child never returned. Also treat a link with the right
parent but the wrong position in it as stale.
---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..da4c07d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From 82a8c7bc6e6b1070fd9ec25fa33495ca7b56ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 02/16] fix: BoundedCursor keeps the components nearest the
 root

An empty cursor pointed at its last slot instead of past it, so iterating it
yielded a bogus 0xFF component and a full cursor dropped one component early.
---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From 1f9ccb16a63057ddc603c9bca817d31531471cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 03/16] fix: cursor returned when an insertion joins with the
 left half of a split slice

The cursor must lead to the joined slice. If that slice sits in an internal
node, the path component of that node was still added after the reset, and the
side it ends up on when its node splits was guessed from the position of the
remaining right half.
---
 src/tree/fix.rs    | 35 +++++++++++++++------------------
 src/tree/insert.rs | 49 ++++++++++++----------------------------------
 2 files changed, 29 insertions(+), 55 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..92d2c8b 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -523,7 +523,7 @@ where
         // The first part of the traversal step starts with repositioning all of the keys after
         // `self.child_or_key`.
 
-        let (mut node, first_key_after, maybe_child_idx, pos) = match self.child_or_key {
+        let (mut node, first_key_after, pos) = match self.child_or_key {
             ChildOrKey::Key((k_idx, node)) => {
                 let pos = self
                     .override_pos
@@ -531,7 +531,7 @@ where
                     // `k_idx` is within bounds.
                     .unwrap_or_else(|| unsafe { node.leaf().key_pos(k_idx) });
 
-                (node, k_idx + 1, None, pos)
+                (node, k_idx + 1, pos)
             }
             ChildOrKey::Child((c_idx, node)) => {
                 let pos = self.override_pos.unwrap_or_else(|| {
@@ -542,7 +542,7 @@ where
                     next_key_pos.sub_left(self.old_size)
                 });
 
-                (node.erase_type(), c_idx, Some(c_idx), pos)
+                (node.erase_type(), c_idx, pos)
             }
         };
 
@@ -562,26 +562,23 @@ where
 
         let new_size = node.leaf().subtree_size();
 
-        // Update the cursor
-        //
-        // Technically speaking, this relies on this node having `child_or_key =
-        // ChildOrKey::Child(_)` as long as the cursor is non-empty, but that should always be
-        // true.
-        if let Some(child_idx) = maybe_child_idx {
-            self.cursor_builder.prepend_to_path(PathComponent { child_idx });
-        }
-
         // Update `self` to the parent, if there is one. Otherwise, this is the root node so we
         // should return `Err` with the cursor and reference to the insertion.
         match node.into_parent().ok() {
             None => Ok(()),
-            Some((parent_handle, c_idx)) => Err(OpUpdateState {
-                child_or_key: ChildOrKey::Child((c_idx, parent_handle)),
-                override_pos: None,
-                old_size,
-                new_size,
-                cursor_builder: self.cursor_builder,
-            }),
+            Some((parent_handle, c_idx)) => {
+                // The cursor gets its component for `parent_handle` before `parent_handle` is
+                // handed to the `cursor` mapping, so that the mapping has the final say.
+                self.cursor_builder.prepend_to_path(PathComponent { child_idx: c_idx });
+
+                Err(OpUpdateState {
+                    child_or_key: ChildOrKey::Child((c_idx, parent_handle)),
+                    override_pos: None,
+                    old_size,
+                    new_size,
+                    cursor_builder: self.cursor_builder,
+                })
+            }
         }
     }
 }
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..115f4a4 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,51 +1109,28 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
             if node.height() == lhs_height {
                 builder.reset();
             }
         };
 
-        let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
-            if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+        // `CursorMode::Lhs` is only used without `snd`, so a split of the node containing the
+        // left-hand key is always a split of a full node with a single key being inserted at
+        // `lhs_k_idx + 1`. Refer to the handling of midpoints for where that leaves `lhs_k_idx`.
+        let mut map_cursor_side = |lhs: &ty![NodeHandle], side| {
+            if lhs.height() != lhs_height {
+                return side;
+            }
+
+            match lhs_k_idx.cmp(&(M as u8)) {
+                Ordering::Less => Some(Side::Left),
+                // The left-hand key is the midpoint
+                Ordering::Equal => None,
+                Ordering::Greater => Some(Side::Right),
             }
-            side
         };
 
         let mut mapper = MapBubbledInsertState {
-- 
2.43.0


From f49962eb12da08357f6fa9d7b5934f4070444dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 04/16] fix: reference returned by insert_ref survives
 splitting the internal node of its slice

When the new slice joins with the left half of a split slice in an internal node
and that node is split, the move of the joined slice was not reported to the
updates callback, so the returned reference pointed at another slice.
---
 src/tree/insert.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 115f4a4..9429a04 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2037,6 +2037,15 @@ where
         let mut rhs = NodeBox::new(rhs);
         parent.set_subtree_size(midpoint_key.pos);
 
+        let rhs_len = rhs.as_ref().leaf().len();
+        updates_callback(TraverseUpdate::Move {
+            old_ptr: parent.ptr(),
+            old_range: midpoint_idx + 1..midpoint_idx + 1 + rhs_len,
+            new_ptr: rhs.as_ref().ptr(),
+            new_range: 0..rhs_len,
+            new_height: parent.height(),
+        });
+
         // We want to find `rhs_start` (i.e. the position of the first child in `rhs`), but there's
         // a couple edge cases we have to handle first:
         //
@@ -2185,6 +2194,14 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // The midpoint is removed only after `self.key` was put back, because there can't be
+            // two removed slices at the same time.
+            updates_callback(TraverseUpdate::Remove {
+                ptr: parent.ptr(),
+                height: parent.height(),
+                idx: parent.leaf().len(),
+            });
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
-- 
2.43.0


From bb4325558615e45cc993d398241e809175989b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 05/16] fix: SliceEntry::size subtracts the start of the range
 from the left

---
 src/tree/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
-- 
2.43.0


From 94ae61c02cdbd02dbdd33aa467d56f5f66dad672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 06/16] fix: positions for index types with non-commutative
 arithmetic

The position of a changed child was found by subtracting its size from the wrong
side, and shifting the keys after a change added the difference on the wrong
side (with a FIXME) or relied on a difference of unrelated ranges.
---
 src/tree/fix.rs    | 56 +++++++++++++---------------------------------
 src/tree/insert.rs |  2 +-
 2 files changed, 16 insertions(+), 42 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 92d2c8b..d391be9 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, pos)
@@ -606,10 +606,10 @@ pub(super) struct ShiftKeys<I> {
     pub old_size: I,
     /// The new size of the object at `pos`
     ///
-    /// If [`shift_keys`] is given `IS_INCREASE = true`, then `new_size` will be expected to be
-    /// greater than `old_size`. Otherwise, `new_size` *should* be less than `old_size`. We can't
-    /// *guarantee* that this will be true, because of the limitations exposed by user-defined
-    /// implementations of `Ord` for `I`, but in general these conditions should hold.
+    /// For [`shift_keys_increase`], `new_size` is expected to be greater than `old_size`; for
+    /// [`shift_keys_decrease`], it *should* be less than `old_size`. We can't *guarantee* that this
+    /// will be true, because of the limitations exposed by user-defined implementations of `Ord`
+    /// for `I`, but in general these conditions should hold.
     pub new_size: I,
 }
 
@@ -652,7 +652,7 @@ pub(super) unsafe fn shift_keys_increase<'t, Ty, I, S, P, const M: usize>(
     P: RleTreeConfig<I, S, M>,
 {
     // SAFETY: guaranteed by caller
-    unsafe { shift_keys::<Ty, I, S, P, M, true>(node, opts) }
+    unsafe { shift_keys(node, opts) }
 }
 
 /// (*Internal*) Updates the positions of all keys in a node, expecting them to decrease
@@ -669,7 +669,7 @@ pub(super) unsafe fn shift_keys_decrease<'t, Ty, I, S, P, const M: usize>(
     P: RleTreeConfig<I, S, M>,
 {
     // SAFETY: guaranteed by caller
-    unsafe { shift_keys::<Ty, I, S, P, M, false>(node, opts) }
+    unsafe { shift_keys(node, opts) }
 }
 
 /// (*Internal*) Updates the positions of all keys in a node
@@ -680,7 +680,7 @@ pub(super) unsafe fn shift_keys_decrease<'t, Ty, I, S, P, const M: usize>(
 /// ## Safety
 ///
 /// The value of `opts.from` must be less than or equal to `node.leaf().len()`.
-pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREASE: bool>(
+pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize>(
     node: &mut NodeHandle<Ty, borrow::Mut<'t>, I, S, P, M>,
     opts: ShiftKeys<I>,
 ) where
@@ -705,8 +705,8 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     //   |--------------- new_end --------------|
     //   |- ... ---- pos ----|---- new_size ----|
     //
-    // These abbreviations help make the illustration below a little more compact. In either case
-    // of `IS_INCREASE`, we have something like the following:
+    // These abbreviations help make the illustration below a little more compact. Regardless of
+    // whether the size increased or decreased, we have something like the following:
     //
     //   |- ... ----------------- k_pos -----------------|  (old key pos, of a later key in the node)
     //   |- ... - old_end -|
@@ -715,40 +715,14 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     //                         |-- k_pos.sub_left(old_end) --|  (offset, shifted)
     //   |- ... - k_pos.sub_left(old_end).add_left(new_end) -|  (new key pos)
     //
-    // So we have a workable formula here for shifitng keys. The thing is, we'd to make this a
-    // single operation in the loop, in case the index type is complicated or the compiler has
-    // failed to optimize away the extra work.
-    //
-    // We're guaranteed by the directional arithmetic rules that the following is equivalent to
-    // the formula we got above:
-    //
-    //   k_pos.sub_left(old_end.sub_right(new_end))
-    //
-    // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
-    // Naturally, there's a rephrasing for when `new_end > old_end`:
-    //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
-    //
-    // This one is to be used when `IS_INCREASE` is true.
-    //
-    // ---
-    //
-    // With both of these, we can use the const generics from IS_INCREASE to minimize the final
-    // amount of code that gets generated:
+    // So we have a workable formula here for shifitng keys. It's tempting to combine it into a
+    // single operation on each key, using the difference between `old_end` and `new_end`. But that
+    // would have to be the difference *on the left*, and both are obtained by adding to the right
+    // of `pos`, so in general there's no range that such a difference would belong to.
     let old_end = pos.add_right(old_size);
     let new_end = pos.add_right(new_size);
 
-    let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
-        false => old_end.sub_right(new_end),
-    };
-
-    let recalculate = |k_pos: I| -> I {
-        match IS_INCREASE {
-            true => k_pos.add_left(abs_difference),
-            false => k_pos.sub_left(abs_difference),
-        }
-    };
+    let recalculate = |k_pos: I| -> I { k_pos.sub_left(old_end).add_left(new_end) };
 
     // SAFETY: `set_key_poss_with` requires that `from` is not greater than the number of keys
     // (just like this function). This is already guaranteed by the caller.
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 9429a04..3c44f08 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 25d39aeaa018b2f5b864041702ac7d108f457e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 07/16] fix: iterating copy-on-write trees compares a child's
 link with its actual parent

While descending more than one level the child's parent link was compared with
the node the descent started from. When a freed node's memory had been reused
for that node, a stale link of a shared child passed for a correct one, and
iteration continued in the wrong node.
---
 src/tree/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..b2e2525 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -394,7 +394,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx))
                             }
                             _ => (),
@@ -486,7 +486,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx));
                             }
                             _ => (),
-- 
2.43.0


From ce6c206982e3cdd93135bc7ecb907a605f2eb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 08/16] fix: cloning a slice reference that is not valid counts
 the clone

The clone of a reference whose tree or slice is gone was not counted, so that
dropping the references freed their shared state too early (use after free).
---
 src/tree/slice_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..9ebf841 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -844,11 +844,13 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
+        // Every `SliceRef` counts, even if there's nothing left that it could refer to
+        bump_weak_count(&self.inner().weak_count);
+
         let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
-- 
2.43.0


From 8b42af04ce2d940ed8ca645bdf8b437139ba6ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 09/16] fix: slice references keep working while a borrow
 outlives the tree's owner

Dropping a tree while one of its slices is borrowed emptied the table of
references at once, although the tree itself is only dropped by the last
borrow: every use of any of its references until then panicked with an index
out of bounds, and leaked the tree.
---
 src/tree/slice_ref.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 9ebf841..028b8da 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -456,8 +456,13 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
         inner.borrow.set(new_state);
 
         // drop(ish) the inner contents. `false` because the tree's already handled by our caller,
-        // in `destruct_root`
-        inner.drop(false);
+        // in `destruct_root`.
+        //
+        // If there's a `Borrow` keeping the tree alive, then existing `SliceRef`s still refer to it
+        // through `refs`, so that can only be dropped alongside the tree, by the last `Borrow`.
+        if new_state == BorrowState::Dropped {
+            inner.drop(false);
+        }
 
         // If everything has been *completely* dropped, and there's no weak references left (in the
         // form of `SliceRef`s), then we can deallocate the backing allocation.
-- 
2.43.0


From 97897df8c924200f56e6f417754d240451036dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 10/16] fix: Leaf::is_hole looks at both holes

---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From 9ff7ed03c579fd208f10f71a2c8fc4ba4ba45701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 11/16] fix: inserting into a node with a hole left by a panic
 is refused like splitting it

---
 src/tree/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..169ea4e 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2164,6 +2164,10 @@ where
             weak_assert!(self.leaf().len < self.leaf().max_len());
         }
 
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let refid = UnsafeCell::new(<resolve![P::SliceRefStore::OptionRefId]>::default());
 
         let this_ptr = self.ptr;
@@ -2467,6 +2471,10 @@ where
             weak_assert!(self.height.as_u8() - 1 == child.height);
         }
 
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let this_ptr = self.ptr;
         let height = self.height.as_u8();
         let pos = self.leaf().try_key_pos(key_idx).unwrap_or(self.leaf().total_size);
-- 
2.43.0


From 6552fdf652fa39222138d4c41c67d6775dea3c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 12/16] fix: iterating up to the end of a leaf emptied by a
 panic is refused

When user code panics while a root of width 1 is being split, the root is left
without any slice. Iterating backwards from its end then computed the index of
its last slice as 0 - 1: out of bounds in builds without overflow checks.
---
 src/tree/iter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index b2e2525..cc81da5 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -318,9 +318,12 @@ where
                 // Use the key or child immediately to the left.
                 match head_node.into_typed() {
                     Type::Leaf(_) => {
+                        // A panic in user-defined code may have left an empty node behind
+                        assert!(len >= 1);
+
                         let i = len - 1;
-                        // SAFETY: `len` is guaranteed to be `>= 1`, so `len - 1` can't overflow,
-                        // and key indexes must be `< len`.
+                        // SAFETY: `len >= 1`, checked above, so `len - 1` can't overflow, and key
+                        // indexes must be `< len`.
                         let p = unsafe { head_node.leaf().key_pos(i) };
                         ChildOrKey::Key((i, p))
                     }
-- 
2.43.0


From c6d463bfe730d1bd1a4578291d05d8887ecace24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 13/16] fix: deserializing a size that is not positive is an
 error instead of a panic

---
 src/serde.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..a93ad2d 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,14 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            // `insert` panics on these
+            if size <= I::ZERO {
+                return Err(de::Error::custom(format_args!(
+                    "invalid slice size {size:?}, must be greater than zero"
+                )));
+            }
+
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From 9c0737506874f997b86744048abd7be0d6674e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 14/16] fix: COW trees are only Sync if their values are Send
 and Sync

A clone made through a shared reference on another thread can be the last
owner of the values, which are then dropped there.
---
 src/param.rs    | 18 ++++++++++++++++++
 src/tree/mod.rs | 13 +++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 574cfe8..8a654d6 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -148,6 +148,20 @@ pub trait SupportsInsert<I, S, const M: usize>: sealed::YouCantImplementThis {
 /// [`SliceRef`]: crate::SliceRef
 pub trait RleTreeIsSend<I, S> {}
 
+/// Marker trait for which [`RleTree`]s can implement [`Sync`], based on their [`RleTreeConfig`]
+///
+/// This is the counterpart to [`RleTreeIsSend`]; the reason for having it is the same. The
+/// requirements are:
+///
+/// | Parameter | Requirements |
+/// |-----------|--------------|
+/// | [`NoFeatures`] | Only `I: Sync` and `S: Sync`, like `Box`, `Vec`, or `BTreeMap`. |
+/// | [`AllowCow`] | Like `Arc`, these can be cloned through a shared reference, and the clone can outlive the original. Values may then be dropped in a different thread than the one they were created in, so we must have `I: Send + Sync` **and** `S: Send + Sync`. |
+/// | [`AllowSliceRefs`] | Never, for the same reason as with [`RleTreeIsSend`]. |
+///
+/// [`RleTree`]: crate::RleTree
+pub trait RleTreeIsSync<I, S> {}
+
 pub(crate) mod sealed {
     /// It's a trait you (the user of this crate) can't reach
     pub trait TraitYouCantReach {}
@@ -305,3 +319,7 @@ impl<I: Clone, S: Clone, const M: usize> SupportsInsert<I, S, M> for AllowCow {
 // Refer to `RleTreeIsSend` for more information about impelmenting `Send`
 impl<I: Send, S: Send> RleTreeIsSend<I, S> for NoFeatures {}
 impl<I: Send + Sync, S: Send + Sync> RleTreeIsSend<I, S> for AllowCow {}
+
+// ... and `RleTreeIsSync` for `Sync`
+impl<I: Sync, S: Sync> RleTreeIsSync<I, S> for NoFeatures {}
+impl<I: Send + Sync, S: Send + Sync> RleTreeIsSync<I, S> for AllowCow {}
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index da4c07d..9826018 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -2,8 +2,8 @@
 
 use crate::cursor::{Cursor, CursorBuilder, NoCursor, PathComponent};
 use crate::param::{
-    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, SliceRefStore as _,
-    SupportsInsert,
+    self, AllowSliceRefs, BorrowState, RleTreeConfig, RleTreeIsSend, RleTreeIsSync,
+    SliceRefStore as _, SupportsInsert,
 };
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
@@ -130,8 +130,9 @@ where
 // `AllowCow`, the interior mutability that we *do* have is solely around the `Arc`s or
 // `AtomicUsize`s for tracking reference counts, which are both `Send + Sync`, and should be fine
 // from `[Ref]UnwindSafe`. However, because `AllowCow` *also* allows the same value to be viewed
-// from multiple threads, implementing `Send` requires `Send + Sync` on both `I` and `S`. For more,
-// refer to the docs on `RleTreeIsSend`.
+// from multiple threads, implementing `Send` requires `Send + Sync` on both `I` and `S`. The same
+// goes for `Sync`, because a clone made through `&RleTree` can end up as the last owner of the values.
+// For more, refer to the docs on `RleTreeIsSend` and `RleTreeIsSync`.
 //
 // The tricky one is `AllowSliceRefs`. With `SliceRef`s, we cannot be `Send` or `Sync`, because the
 // shared ownership is managed by `Cell` and `RefCell`. They *can* be `UnwindSafe` or
@@ -152,8 +153,8 @@ unsafe impl<I, S, P, const M: usize> Send for RleTree<I, S, P, M> where
 {
 }
 
-unsafe impl<I: Sync, S: Sync, P: Sync, const M: usize> Sync for RleTree<I, S, P, M> where
-    P: RleTreeConfig<I, S, M>
+unsafe impl<I, S, P, const M: usize> Sync for RleTree<I, S, P, M> where
+    P: RleTreeConfig<I, S, M> + RleTreeIsSync<I, S>
 {
 }
 
-- 
2.43.0


From 6f117c161ec1066b89c8104d4d140fce426dfb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 15/16] fix: the drop check knows that dropping a tree drops
 its values

With the nightly feature, `Drop` for `RleTree` is implemented with `#[may_dangle]`, but nothing in
the type says that it owns values of I and S. Safe code could therefore have a tree of values with
destructors outlive what those values borrow.
---
 src/tree/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index 9826018..ef0b2af 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -8,6 +8,7 @@ use crate::param::{
 use crate::public_traits::{Index, Slice};
 use crate::range::RangeBounds;
 use std::fmt::Debug;
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 use std::ops::Range;
 use std::panic::{RefUnwindSafe, UnwindSafe};
@@ -167,6 +168,9 @@ where
     handle: ManuallyDrop<NodeHandle<ty::Unknown, borrow::Owned, I, S, P, M>>,
     len: usize,
     refs_store: <P as RleTreeConfig<I, S, M>>::SliceRefStore,
+    // `handle` only has pointers to the values, but dropping the tree drops them. This must be known
+    // for the drop check, with `#[may_dangle]` in the implementation of `Drop` below.
+    values: PhantomData<Box<(I, S)>>,
 }
 
 #[cfg(not(feature = "nightly"))]
@@ -354,6 +358,7 @@ where
                 handle: ManuallyDrop::new(handle),
                 len: 1,
                 refs_store: P::SliceRefStore::new(store_handle),
+                values: PhantomData,
             }),
         }
     }
@@ -779,6 +784,7 @@ where
                     handle: ManuallyDrop::new(root.handle.as_immut().deep_clone().erase_unique()),
                     len: root.len,
                     refs_store: Default::default(),
+                    values: PhantomData,
                 }),
             },
         }
@@ -802,6 +808,7 @@ impl<I, S: Clone, const M: usize> Clone for RleTree<I, S, param::AllowCow, M> {
                         len: root.len,
                         // refs_store will be empty because this is a COW-enabled tree
                         refs_store: Default::default(),
+                        values: PhantomData,
                     }),
                 }
             }
-- 
2.43.0


From 48d211249ca9ed64bca57beb1efb42686447193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 16/16] fix: iteration and cursors of COW trees never follow
 stored parents

A node shared between trees keeps the parent it last had, which may since
have been freed. Comparing addresses is not enough to tell: another node
may have been allocated in the same place, and the stored pointer is still
not valid for it.
---
 src/tree/iter.rs | 35 ++++++++++-------------------------
 src/tree/mod.rs  | 11 ++++-------
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index cc81da5..333793c 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -81,11 +81,10 @@ struct IterStack<'t, I, S, P, const M: usize>
 where
     P: RleTreeConfig<I, S, M>,
 {
-    /// Stack of all the nodes leading to `head` where the child containing `head` has a different
-    /// node as its parent
+    /// Stack of all the nodes above `head`, with the index of the child containing `head`
     ///
-    /// This can only occur when COW is enabled, and so control flow around `stack` typically
-    /// checks `P::COW` first.
+    /// This is only used when COW is enabled, because the parents stored in the nodes can't be
+    /// relied upon. So control flow around `stack` typically checks `P::COW` first.
     stack: Vec<(NodeHandle<ty::Unknown, borrow::Immut<'t>, I, S, P, M>, u8)>,
     /// The height of the root node
     ///
@@ -358,16 +357,12 @@ where
                     // SAFETY: `search_step` and our processing above guarantee that `c_idx` is a
                     // valid child index.
                     let child = unsafe { node.into_child(c_idx) };
-                    // If we have COW enabled, and the child's parent is not this node, we need to
-                    // add `head_node` to the stack.
+                    // If we have COW enabled, the child's stored parent might be some other node,
+                    // so we need to add `head_node` to the stack. It's not enough to only do this
+                    // if the stored pointer is different: it may be to an earlier node, since
+                    // freed, that happened to be at the same address -- which we can't dereference.
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            // Different child pointer:
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
-                                stack.push((head_node, c_idx))
-                            }
-                            _ => (),
-                        }
+                        stack.push((head_node, c_idx));
                     }
 
                     target = target.sub_left(c_pos);
@@ -396,12 +391,7 @@ where
                     // is a valid key index, so +1 is a valid child index.
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (parent.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx))
-                            }
-                            _ => (),
-                        }
+                        self.stack.push((parent.erase_type(), c_idx));
                     }
 
                     match child.into_typed() {
@@ -488,12 +478,7 @@ where
                     // child index.
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
-                        match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (parent.ptr(), c_idx) => {
-                                self.stack.push((parent.erase_type(), c_idx));
-                            }
-                            _ => (),
-                        }
+                        self.stack.push((parent.erase_type(), c_idx));
                     }
 
                     match child.into_typed() {
diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index ef0b2af..b948749 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -497,13 +497,10 @@ where
 
                             // SAFETY: search_step guarantees that c_idx is valid
                             let child = unsafe { n.into_child(c_idx) };
-                            // note: adding P::COW means the compiler knows it will always be false
-                            let mismatched_parent = P::COW
-                                && !matches!(
-                                    child.leaf().parent(),
-                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
-                                );
-                            if mismatched_parent {
+                            // With COW, the child's stored parent can't be relied upon. Even if it
+                            // has the same address as `n`, it may be to an earlier node that has
+                            // since been freed.
+                            if P::COW {
                                 let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
-- 
2.43.0

