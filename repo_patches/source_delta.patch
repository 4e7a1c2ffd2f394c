From 06765f4edb703a263196ccd9a27f76b1172db480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 01/14] fix: Chunk::from_front and from_back must refuse more
 items than there are

In release builds only a debug_assert! stood between an oversized count and
out-of-bounds copies.
---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..9556663 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From db67c0d2e165336ed29f4c3f64fcba926a65b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 02/14] fix: insert_from must not accept a size that overflows

len + size wrapped around in release builds, so an enormous size passed the
capacity check.
---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..8f96c80 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -652,7 +652,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 9556663..e32b315 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -599,7 +599,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From ae21847c9c2bb60517286a5500724d9561a491f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 03/14] fix: Chunk must not drop elements again after a
 destructor panicked

drop_left, drop_right and clear dropped their elements before letting go of
them, so a panicking destructor left the dropped ones in the chunk.
---
 src/sized_chunk/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index e32b315..7a6ae42 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -406,8 +406,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let discarded: *mut [A] = &mut self[..index];
+            // Give them up first, lest a panicking destructor leaves them to be dropped again.
             self.left += index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -418,8 +420,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let discarded: *mut [A] = &mut self[index..];
+            // Give them up first, lest a panicking destructor leaves them to be dropped again.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(discarded) }
         }
     }
 
@@ -673,9 +677,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let discarded: *mut [A] = self.as_mut_slice();
+        // Give them up first, lest a panicking destructor leaves them to be dropped again.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(discarded) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 42023ac8fe69cf3320ff28e739ff7398a7d2bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 04/14] fix: RingBuffer must not drop elements again after a
 destructor panicked

Same as for Chunk: drop_left, drop_right and clear let go of their elements
only after dropping them.
---
 src/ring_buffer/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 8f96c80..e904852 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let discarded = self.range().take(index);
+            // Give them up first, lest a panicking destructor leaves them to be dropped again.
             self.origin += index;
             self.length -= index;
+            for i in discarded {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let discarded = self.range().skip(index);
+        // Give them up first, lest a panicking destructor leaves them to be dropped again.
+        self.length = index;
+        for i in discarded {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let discarded = self.range();
+        // Give them up first, lest a panicking destructor leaves them to be dropped again.
         self.origin = 0.into();
         self.length = 0;
+        for i in discarded {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
-- 
2.43.0


From c695b823c40494fffacdff09b5dafd407922312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 05/14] fix: Chunk::insert_from must not ask an iterator for
 its length twice

The room made for the values was sized by the first answer and filled by the
second; an iterator whose answers differ wrote out of bounds or left a hole.
---
 src/sized_chunk/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 7a6ae42..4eb6a2f 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -271,7 +271,7 @@ impl<A, const N: usize> Chunk<A, N> {
         }
     }
 
-    /// Write values from iterator into range starting at write_index.
+    /// Write `len` values from iterator into range starting at write_index.
     ///
     /// Will overwrite values at the relevant range without dropping even in case the values were
     /// already initialized (it is expected they are empty). Does not update the left or right
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, len: usize, iter: I, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -619,14 +618,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right += insert_size;
         } else {
@@ -634,7 +633,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 82f910f34ec40b0ed25433c86cc584699739b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 06/14] fix: indexing a ring buffer slice must stop at the
 slice's end

Index and IndexMut on Slice and SliceMut only checked the index against the
whole buffer, so positions beyond the slice were handed out.
---
 src/ring_buffer/slice.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..95d458b 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +449,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "SliceMut::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +464,13 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!(
+                "SliceMut::index_mut: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From 7964cb17323b01326afaef839d12542859ef8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 07/14] fix: slicing a ring buffer must refuse ranges whose end
 overflows

..=usize::MAX wrapped around to an empty range in release builds; ends past
the capacity are never valid, so saturating is enough to have them refused.
---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index e904852..a65a44a 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -351,7 +351,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 95d458b..f28f6d9 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,13 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -364,13 +364,13 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From af434ac9f62885fa8a3093ad857f90376d4f120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 08/14] fix: an InlineArray the size of its header is empty,
 not an error

The documentation promises a panic only when the host type has no room
for the length.
---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..cccda29 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -258,7 +258,7 @@ impl<A, T> InlineArray<A, T> {
     #[inline]
     #[must_use]
     pub fn new() -> Self {
-        assert!(Self::HOST_SIZE > Self::HEADER_SIZE);
+        assert!(Self::HOST_SIZE >= Self::HEADER_SIZE);
         assert!(
             (Self::CAPACITY == 0) || (mem::align_of::<Self>() % mem::align_of::<A>() == 0),
             "InlineArray can't satisfy alignment of {}",
-- 
2.43.0


From cf8d2a64e312cbd5dff1ce2cfa12ce7c0ece4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 09/14] fix: moving an InlineArray must not lose what lies in
 its host's padding

InlineArray::<u8, (u8, u64)>::new() came back with a length of which only
the lowest byte was what it had been set to.
---
 src/inline_array/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index cccda29..f7a5989 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -106,7 +106,10 @@ pub struct InlineArray<A, T> {
     // are correct) or will save us (if we are not).
     _header_align: [(u64, usize); 0],
     _phantom: PhantomData<A>,
-    data: MaybeUninit<T>,
+    // The `[T; 1]` rather than `T` makes sure that moving the array copies all of its bytes: a type
+    // such as `(u8, u64)` is passed around as two scalars, leaving what we keep in its padding
+    // behind, while an array is always copied as a block of memory.
+    data: MaybeUninit<[T; 1]>,
 }
 
 const fn capacity(
-- 
2.43.0


From 74e1497ee69c78348b4869fb4504603413147990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 10/14] fix: InlineArray::clear must not drop elements again
 after a destructor panicked

---
 src/inline_array/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index f7a5989..8ea60c5 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -398,8 +398,10 @@ impl<A, T> InlineArray<A, T> {
     /// Time: O(n)
     pub fn clear(&mut self) {
         unsafe {
-            self.drop_contents();
+            // The array must be empty by the time a destructor can panic.
+            let contents: *mut [A] = &mut **self;
             *self.len_mut() = 0;
+            ptr::drop_in_place(contents);
         }
     }
 
-- 
2.43.0


From d43b32cd5e16e6cd367880244deec1439dd235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 11/14] fix: Chunk and InlineArray must hash like the slices
 they borrow as

---
 src/inline_array/mod.rs | 5 ++---
 src/sized_chunk/mod.rs  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 8ea60c5..618a874 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -528,9 +528,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Like the slice we can be borrowed as, which hashes its length too.
+        (**self).hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 4eb6a2f..f64982e 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Like the slice we can be borrowed as, which hashes its length too.
+        (**self).hash(hasher)
     }
 }
 
-- 
2.43.0


From 47c6399834d58ffd85d9cab34c7df569ac8f9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 12/14] fix: writing bytes to a ring buffer must not panic when
 they wrap around

---
 src/ring_buffer/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a65a44a..d9d0a57 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,6 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From e2a0dbc598e8fb7c308fd0911875a2e17ac1891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 13/14] fix: arbitrary's size hints must count the byte before
 each element

The announced upper bound was below what `arbitrary` takes from its input, and
computing it could overflow for sizeless elements of an InlineArray.
---
 src/arbitrary.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..02b0fbc 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,12 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// The most bytes `count` elements can take: each of them is preceded by a
+/// byte which says whether there is another one.
+fn size_hint_upper(upper: Option<usize>, count: usize) -> Option<usize> {
+    upper?.checked_add(1)?.checked_mul(count)
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -27,7 +33,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, size_hint_upper(upper, Self::CAPACITY))
         })
     }
 }
@@ -49,7 +55,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, size_hint_upper(upper, Self::CAPACITY))
         })
     }
 }
@@ -71,7 +77,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, size_hint_upper(upper, Self::CAPACITY))
         })
     }
 }
@@ -92,7 +98,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, size_hint_upper(upper, Self::CAPACITY))
         })
     }
 }
-- 
2.43.0


From bf08043af9bd5291e2a568ea2d8ffeedfc66c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 14/14] fix: a ring buffer of capacity zero must not hang or
 panic while empty

Creating one failed a debug assertion; without those, iterating over it or
dropping it never ended.
---
 src/ring_buffer/index.rs | 6 +++---
 src/ring_buffer/mod.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..f2a95ca 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,7 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        debug_assert!(index < N || index == 0);
         RawIndex(index)
     }
 }
@@ -76,7 +76,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +87,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index d9d0a57..18c43bd 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -203,7 +203,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
                 self.mut_ptr(0.into()),
                 last_slice.len(),
             );
-        } else {
+        } else if count > 0 {
             core::ptr::copy_nonoverlapping(source.as_ptr(), self.mut_ptr(to), count)
         }
     }
-- 
2.43.0

