From 87b25c1c0c79774307e43e83b30f63c999aa483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 1/6] fix: forward_by must not wrap around on large offsets

index + offset overflowed: with overflow checks it panicked, without them it
wrapped and moved the index backwards while reporting success.
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From 41f860ec9784a011357b1bd10ad4058f7ba6c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 2/6] fix: split_container_at_pointer requires a mutable
 container

It hands out containers of &mut [T], so allowing it for any Contiguous
container let safe code write through a shared slice.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..e4bf190 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From b0e5c706c4ab5222aa1ce0ca998ddcba1d358fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 3/6] fix: scan_tail_ from the edge pointer stays in bounds

Starting at the one-past-the-end pointer, the returned range included a
nonexistent element past the end of the container, and could be turned
into a NonEmpty range.
---
 src/pointer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index e4bf190..828b2be 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -304,7 +304,8 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     /// While the closure returns `true`, continue scan and include the scanned
     /// element in the range.
     ///
-    /// Result always includes `index` in the range
+    /// Result always includes `index` in the range, unless it is the edge
+    /// pointer past the last element.
     #[inline]
     pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
         where F: FnMut(&T) -> bool
@@ -321,7 +322,13 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
                 }
                 end.dec();
             }
-            PRange::new(end, index.ptr().offset(1))
+            // an edge pointer has no element to include
+            let after = if index.ptr() == self.end() {
+                index.ptr()
+            } else {
+                index.ptr().offset(1)
+            };
+            PRange::new(end, after)
         }
     }
 
-- 
2.43.0


From af0a54fdb79570fd207df9ebc9ce22521f65f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 4/6] fix: indices above isize::MAX are valid for zero-sized
 elements

A slice of zero-sized elements can be longer than isize::MAX; the debug
assertion in Index::new made vetting a valid index of one panic.
---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 59cba42..d165534 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,7 +169,6 @@ copy_and_clone!(['id, P] Index<'id, P>);
 impl<'id, P> Index<'id, P> {
     #[inline(always)]
     unsafe fn new(index: usize) -> Index<'id, P> {
-        debug_assert!(index as isize >= 0);
         Index { id: Id::default(), index: index, proof: PhantomData }
     }
 
-- 
2.43.0


From 314ae0b3bb3368c60ba677085864992656db29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 5/6] fix: lower_bound_raw_ptr on zero-sized elements

It divided by the element size to compute pointer distances and panicked
for zero-sized types.
---
 src/algorithms.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..43be44e 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -813,28 +813,25 @@ pub fn lower_bound_pslice<T, F>(v: &[T], f: F) -> usize
 pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     unsafe {
         let mut start = v.as_ptr();
-        let end = start.offset(v.len() as isize);
-        let mut count = ptrdistance(start, end);
+        // Count the elements before `start`: pointer distance can't tell
+        // for zero-sized elements.
+        let mut before = 0;
+        let mut count = v.len();
         while count > 0 {
             let step = count / 2;
             let it = start.offset(step as isize);
             if *it < *elt {
                 start = it.offset(1);
+                before += step + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
-        ptrdistance(v.as_ptr(), start)
+        before
     }
 }
 
-/// return the number of steps between a and b
-fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
-    use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
-}
-
 
 #[test]
 fn test_lower_bound() {
-- 
2.43.0


From 6b1ff9694133cb2a60ef56a3408e98269121e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 6/6] fix: quicksorts overflow the stack on uneven partitions

With many equal elements each partition step splits off one element, so the
recursion depth was the length of the slice, and sorting 200000 equal
integers aborted with a stack overflow. Recurse into the shorter part only.
---
 src/algorithms.rs | 66 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index 43be44e..f469151 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -30,15 +30,38 @@ macro_rules! puts {
 // limit for switching to insertion sort
 const QS_INSERTION_SORT_THRESH: usize = 24;
 
+/// Sort by partitioning: `partition` either sorts all of a short slice and
+/// returns `None`, or returns where to split it for sorting each part.
+///
+/// Recurses into the shorter part only, so that stack use is logarithmic even
+/// when the partitions are very uneven.
+fn quicksort_with<T>(mut v: &mut [T], partition: fn(&mut [T]) -> Option<usize>) {
+    while let Some(mid) = partition(v) {
+        let whole = v;
+        let (a, b) = whole.split_at_mut(mid);
+        if a.len() < b.len() {
+            quicksort_with(a, partition);
+            v = b;
+        } else {
+            quicksort_with(b, partition);
+            v = a;
+        }
+    }
+}
+
 /// Simple quicksort implemented using `Range`,
 pub fn quicksort_range<T: Ord>(v: &mut [T]) {
+    quicksort_with(v, quicksort_range_partition)
+}
+
+fn quicksort_range_partition<T: Ord>(v: &mut [T]) -> Option<usize> {
     scope(v, |mut v| {
         let range = v.range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -76,25 +99,29 @@ pub fn quicksort_range<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at(scan.first());
-            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_range(&mut v[a]);
-            quicksort_range(&mut v[b]);
+            // ok split at pivot location
+            Some(scan.first().integer())
+        } else {
+            None
         }
-    });
+    })
 }
 
 /// Simple quicksort implemented using `indexing`’s PRange.
 #[cfg(feature="experimental_pointer_ranges")]
 pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
+    quicksort_with(v, quicksort_prange_partition)
+}
+
+#[cfg(feature="experimental_pointer_ranges")]
+fn quicksort_prange_partition<T: Ord>(v: &mut [T]) -> Option<usize> {
     scope(v, |mut v| {
         let range = v.pointer_range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -132,22 +159,25 @@ pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at_pointer(scan.first());
-            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_prange(&mut v[a]);
-            quicksort_prange(&mut v[b]);
+            // ok split at pivot location
+            Some(v.distance_to(scan.first()))
+        } else {
+            None
         }
-    });
+    })
 }
 
 
 /// quicksort implemented using regular bounds checked indexing
 pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
+    quicksort_with(v, quicksort_bounds_partition)
+}
+
+fn quicksort_bounds_partition<T: Ord>(v: &mut [T]) -> Option<usize> {
     // Fall back to insertion sort for short sections
     if v.len() <= QS_INSERTION_SORT_THRESH {
         insertion_sort_ranges(&mut v[..], |x, y| x < y);
-        return;
+        return None;
     }
 
     let (l, m, r) = (0, v.len() / 2, v.len() - 1);
@@ -181,10 +211,8 @@ pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
         i += 1;
     }
 
-    // ok split at pivot location and recurse
-    let (a, b) = v.split_at_mut(i);
-    quicksort_bounds(a);
-    quicksort_bounds(b);
+    // ok split at pivot location
+    Some(i)
 }
 
 #[cfg(feature="experimental_pointer_ranges")]
-- 
2.43.0

