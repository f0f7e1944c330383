From 0c9430a48e5224220eb7bd4c6bf79db860e37c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 1/2] fix: keep selection from asserting on an empty ninther
 range

With 11 elements left, median_of_ninthers took a twelfth of them, none,
and median_of_medians then failed its own assertion k < v.len() in builds
with debug assertions. Use at least one ninther.
---
 src/par/partition.rs | 3 ++-
 src/partition.rs     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..ec2e32a 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -279,8 +279,9 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 // operates, refer to the paper <https://drops.dagstuhl.de/opus/volltexte/2017/7612/pdf/LIPIcs-SEA-2017-24.pdf>.
 fn median_of_ninthers<T, F: Fn(&T, &T) -> bool>(mut v: ArrayViewMut1<'_, T>, is_less: &F) -> usize {
 	// use `saturating_mul` so the multiplication doesn't overflow on 16-bit platforms.
+	// At least one ninther, even for the 11 elements that are just too many for insertion sort.
 	let frac = if v.len() <= 1024 {
-		v.len() / 12
+		(v.len() / 12).max(1)
 	} else if v.len() <= 128_usize.saturating_mul(1024) {
 		v.len() / 64
 	} else {
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..e6d1550 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -243,8 +243,9 @@ fn median_of_ninthers<T, F: FnMut(&T, &T) -> bool>(
 	is_less: &mut F,
 ) -> usize {
 	// use `saturating_mul` so the multiplication doesn't overflow on 16-bit platforms.
+	// At least one ninther, even for the 11 elements that are just too many for insertion sort.
 	let frac = if v.len() <= 1024 {
-		v.len() / 12
+		(v.len() / 12).max(1)
 	} else if v.len() <= 128_usize.saturating_mul(1024) {
 		v.len() / 64
 	} else {
-- 
2.43.0


From d4a041aa9bffd8f213ca98ec554c255a4fbb04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 2/2] fix: keep capacity of run buffer until its successor is
 allocated

---
 src/merge_sort.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index 519ad7b..eb44efa 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -399,8 +399,11 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 				let old_capacity = self.capacity;
 				let old_buf_ptr = self.buf_ptr.as_ptr();
 
-				self.capacity *= 2;
-				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(self.capacity)).unwrap();
+				// Commit to the new capacity only with the new buffer in hand, as dropping `self` would
+				// otherwise release the old buffer with the new capacity if the allocation fails.
+				let new_capacity = old_capacity * 2;
+				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(new_capacity)).unwrap();
+				self.capacity = new_capacity;
 
 				// SAFETY: buf_ptr new and old were correctly allocated and old_buf_ptr has
 				// old_capacity valid elements.
-- 
2.43.0

