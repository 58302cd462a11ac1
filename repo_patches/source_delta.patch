From 57b2dda90061efb83947041d591a810f63211a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 01/12] fix: searching an empty node no longer panics

binary_search_min read the first item before checking that there is one.
---
 src/utils/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 3b3d6ad..8593fad 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -12,8 +12,12 @@ pub fn binary_search_min<T, Q: ?Sized>(
 	sorted_slice: &[T],
 	key: &Q,
 ) -> Option<(usize, bool)> {
+	if sorted_slice.is_empty() {
+		return None;
+	}
+
 	let i_ord = cmp(&sorted_slice[0], key);
-	if sorted_slice.is_empty() || i_ord.is_gt() {
+	if i_ord.is_gt() {
 		None
 	} else {
 		let mut i = 0;
-- 
2.43.0


From b8c48982baf4f2dac171495d04bd7aaf2a15b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 02/12] fix: pop_right reports the offset of the popped item

It returned the offset one past it.
---
 src/node/internal.rs | 2 +-
 src/node/leaf.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 5ac1a74..b83e9a3 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -441,8 +441,8 @@ impl<T, S: Storage<T>> Internal<T, S> {
 		if self.item_count() <= UNDERFLOW {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.other_children.len();
 			let last = self.other_children.pop().unwrap();
+			let offset = self.other_children.len();
 			Ok(RightBranch {
 				offset: offset.into(),
 				item: last.item,
diff --git a/src/node/leaf.rs b/src/node/leaf.rs
index 06edf76..89c084e 100644
--- a/src/node/leaf.rs
+++ b/src/node/leaf.rs
@@ -200,8 +200,8 @@ impl<T, S: Storage<T>> Leaf<T, S> {
 		if self.item_count() < M / 2 {
 			Err(WouldUnderflow)
 		} else {
-			let offset = self.items.len();
 			let item = self.items.pop().unwrap();
+			let offset = self.items.len();
 			Ok((offset.into(), item))
 		}
 	}
-- 
2.43.0


From 2230727d08792c5a5f0368d03be7c06dd964d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 03/12] fix: reading an internal node before its first item
 returns no item

An address with offset -1 is valid but holds no item; leaves already
returned None, internal nodes panicked.
---
 src/node/internal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index b83e9a3..d3d8c32 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -276,16 +276,16 @@ impl<T, S: Storage<T>> Internal<T, S> {
 
 	#[inline]
 	pub fn item(&self, offset: Offset) -> Option<&T> {
-		match self.other_children.get(offset.unwrap()) {
-			Some(b) => Some(&b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get(offset).map(|b| &b.item),
 			None => None,
 		}
 	}
 
 	#[inline]
 	pub fn item_mut(&mut self, offset: Offset) -> Option<&mut T> {
-		match self.other_children.get_mut(offset.unwrap()) {
-			Some(b) => Some(&mut b.item),
+		match offset.value() {
+			Some(offset) => self.other_children.get_mut(offset).map(|b| &mut b.item),
 			None => None,
 		}
 	}
-- 
2.43.0


From b71cda124bf46752d1f56f07240ac0cdc64cb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 04/12] fix: removing before the first item of a node removes
 nothing

An address with offset -1 is valid but holds no item; remove_at panicked
instead of returning None.
---
 src/node/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index f4d2ccd..75a6806 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -417,16 +417,14 @@ impl<T, S: Storage<T>> Node<T, S> {
 	#[inline]
 	pub fn leaf_remove(&mut self, offset: Offset) -> Option<Result<T, S::Node>> {
 		match self {
-			Node::Internal(node) => {
-				if offset < node.item_count() {
-					let left_child_index = offset.unwrap();
+			Node::Internal(node) => match offset.value() {
+				Some(left_child_index) if left_child_index < node.item_count() => {
 					Some(Err(node.child_id(left_child_index)))
-				} else {
-					None
 				}
-			}
+				_ => None,
+			},
 			Node::Leaf(leaf) => {
-				if offset < leaf.item_count() {
+				if !offset.is_before() && offset < leaf.item_count() {
 					Some(Ok(leaf.remove(offset)))
 				} else {
 					None
-- 
2.43.0


From dc1097a394cc989dc5b0daf33540cc25e5ac4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 05/12] fix: previous_item_address accepts addresses before the
 first item

It panicked on the valid offset -1 of an internal node or leaf.
---
 src/storage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2439cf0..43c7faf 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -131,9 +131,12 @@ pub unsafe trait Storage<T>: Default {
 	) -> Option<Address<Self::Node>> {
 		loop {
 			let node = self.get(addr.node);
+			let child_id = addr
+				.offset
+				.value()
+				.and_then(|offset| node.child_id_opt(offset));
 
-			match node.child_id_opt(addr.offset.unwrap()) {
-				// TODO unwrap may fail here.
+			match child_id {
 				Some(child_id) => {
 					addr.offset = self.get(child_id).item_count().into();
 					addr.node = child_id;
-- 
2.43.0


From 21b24cad721202ee5677f4ec41930086dd7b001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 06/12] fix: the item after a back address is above the node,
 not below it

From the back address of an internal node, next_item_address and
next_item_or_back_address went down into the last child again and
returned an item located before the address.
---
 src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 43c7faf..1360adc 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -224,7 +224,7 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			_ => return self.normalize(addr),
 		}
 
 		// let original_addr_shifted = addr;
@@ -325,7 +325,7 @@ pub unsafe trait Storage<T>: Default {
 			Some(std::cmp::Ordering::Greater) => {
 				return None;
 			}
-			_ => (),
+			_ => return self.normalize(addr).or(Some(addr)),
 		}
 
 		let original_addr_shifted = addr;
-- 
2.43.0


From 2dfad78ea8a47615258c49c4dd366d9adf9cd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 07/12] fix: normalize moves an address before the first item
 to that item

The offset -1 is out of the node bounds but was returned unchanged.
---
 src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 1360adc..1e0942a 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -81,6 +81,10 @@ pub unsafe trait Storage<T>: Default {
 	///
 	/// Input address's node must not have been deallocated.
 	unsafe fn normalize(&self, mut addr: Address<Self::Node>) -> Option<Address<Self::Node>> {
+		if addr.offset.is_before() {
+			return self.next_item_address(addr);
+		}
+
 		loop {
 			let node = self.get(addr.node);
 			if addr.offset >= node.item_count() {
-- 
2.43.0


From 3ef885f8b454ed27a2667b4b357a432a06a4e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 08/12] fix: a panicking item destructor leaves a cleared tree
 usable

When dropping an item panicked during `clear`, the tree kept pointing to
freed nodes and dropped them again later.
---
 src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9cf0acf..037d2b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -467,13 +467,20 @@ impl<T, S: Storage<T>> RawBTree<T, S> {
 
 	pub fn clear(&mut self) {
 		use storage::Dropper;
-		if let Some(mut dropper) = self.nodes.start_dropping() {
-			self.visit_from_leaves(|id| unsafe { dropper.drop_node(id) })
-		}
 
-		self.root = None;
+		// Detach the nodes first: the tree must not refer to dropped nodes if
+		// the destructor of an item panics.
+		let nodes = std::mem::take(&mut self.nodes);
+		let root = self.root.take();
 		self.len = 0;
-		self.nodes = S::default();
+
+		if let Some(mut dropper) = nodes.start_dropping() {
+			if let Some(id) = root {
+				let node = unsafe { nodes.get(id) };
+				node.visit_from_leaves(&nodes, |id| unsafe { dropper.drop_node(id) });
+				unsafe { dropper.drop_node(id) }
+			}
+		}
 	}
 
 	#[cfg(debug_assertions)]
-- 
2.43.0


From c7e323a6263eae8fdfc0cfec99256bec17acb96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 09/12] fix: a panicking item destructor no longer double-drops
 consumed items

When dropping a remaining item of `IntoIter` panicked, the tree was then
dropped with all its nodes, including the items already handed out or
dropped.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 037d2b9..f1eb665 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -897,7 +897,17 @@ impl<T, S: Storage<T>> IntoIterator for RawBTree<T, S> {
 
 impl<T, S: Storage<T>> Drop for IntoIter<T, S> {
 	fn drop(&mut self) {
-		let _ = self.last();
-		self.btree.forget();
+		/// Frees the nodes, even if the destructor of an item panics: the
+		/// items already read must not be dropped again with the tree.
+		struct ForgetOnDrop<'a, T, S: Storage<T>>(&'a mut IntoIter<T, S>);
+
+		impl<'a, T, S: Storage<T>> Drop for ForgetOnDrop<'a, T, S> {
+			fn drop(&mut self) {
+				self.0.btree.forget();
+			}
+		}
+
+		let guard = ForgetOnDrop(self);
+		let _ = guard.0.last();
 	}
 }
-- 
2.43.0


From 84426321b914d7b873c7ff568a3fc25a238ff23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 10/12] fix: draining a range past the end of an array no
 longer reads uninitialized items

---
 src/utils/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 5df799a..571b009 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -121,16 +121,17 @@ impl<T, const N: usize> Array<T, N> {
 		let start = match range.start_bound() {
 			Bound::Unbounded => 0,
 			Bound::Included(i) => *i,
-			Bound::Excluded(i) => *i + 1,
+			Bound::Excluded(i) => i.checked_add(1).expect("range out of bounds"),
 		};
 
 		let end = match range.end_bound() {
 			Bound::Unbounded => self.len,
-			Bound::Included(i) => *i + 1,
+			Bound::Included(i) => i.checked_add(1).expect("range out of bounds"),
 			Bound::Excluded(i) => *i,
 		};
 
 		let len = self.len;
+		assert!(end <= len, "range out of bounds");
 
 		if start < end {
 			self.len -= end - start;
-- 
2.43.0


From bbaae6c5409c642eaa2fc9039f9bc261a3567ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 11/12] fix: a leaked or panicking drain no longer duplicates
 array items

---
 src/utils/array.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 571b009..239d83d 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -134,7 +134,10 @@ impl<T, const N: usize> Array<T, N> {
 		assert!(end <= len, "range out of bounds");
 
 		if start < end {
-			self.len -= end - start;
+			// The array must not own the drained items, nor those left at the
+			// end, if the drain is leaked or if the destructor of a drained
+			// item panics. The drain restores the length once done.
+			self.len = start;
 		}
 
 		Drain {
@@ -142,7 +145,7 @@ impl<T, const N: usize> Array<T, N> {
 			end,
 			front: start,
 			back: end,
-			buffer: &mut self.buffer,
+			array: self,
 			len,
 		}
 	}
@@ -235,19 +238,21 @@ pub struct Drain<'a, T, const N: usize> {
 	end: usize,
 	front: usize,
 	back: usize,
-	buffer: &'a mut [MaybeUninit<T>; N],
+	array: &'a mut Array<T, N>,
 	len: usize,
 }
 
 impl<'a, T, const N: usize> Drain<'a, T, N> {
 	fn shift(&mut self) {
 		if self.start < self.end {
+			let buffer = &mut self.array.buffer;
 			for i in self.end..self.len {
-				self.buffer[self.start].write(unsafe { self.buffer[i].assume_init_read() });
+				buffer[self.start].write(unsafe { buffer[i].assume_init_read() });
 				self.start += 1;
 			}
 
-			self.end = self.start
+			self.end = self.start;
+			self.array.len = self.start
 		}
 	}
 }
@@ -262,7 +267,7 @@ impl<'a, T, const N: usize> Iterator for Drain<'a, T, N> {
 
 	fn next(&mut self) -> Option<Self::Item> {
 		if self.front < self.back {
-			let t = unsafe { self.buffer[self.front].assume_init_read() };
+			let t = unsafe { self.array.buffer[self.front].assume_init_read() };
 			self.front += 1;
 			Some(t)
 		} else {
@@ -276,7 +281,7 @@ impl<'a, T, const N: usize> DoubleEndedIterator for Drain<'a, T, N> {
 	fn next_back(&mut self) -> Option<Self::Item> {
 		if self.front < self.back {
 			self.back -= 1;
-			let t = unsafe { self.buffer[self.back].assume_init_read() };
+			let t = unsafe { self.array.buffer[self.back].assume_init_read() };
 			Some(t)
 		} else {
 			self.shift();
-- 
2.43.0


From 35f60ca7ce429585fa19ff1c04391bec1eb15cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 12/12] fix: a panicking item destructor leaves a cleared array
 empty

---
 src/utils/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/array.rs b/src/utils/array.rs
index 239d83d..6aecd96 100644
--- a/src/utils/array.rs
+++ b/src/utils/array.rs
@@ -151,10 +151,11 @@ impl<T, const N: usize> Array<T, N> {
 	}
 
 	pub fn clear(&mut self) {
-		for i in 0..self.len {
+		// The array must not own the items anymore if a destructor panics.
+		let len = std::mem::take(&mut self.len);
+		for i in 0..len {
 			unsafe { self.buffer[i].assume_init_drop() };
 		}
-		self.len = 0;
 	}
 }
 
-- 
2.43.0

