From 82a89458e067a8d7bda43aaa22fe3f20fbbbcf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 1/8] fix: keep the matrix coherent when Default panics during
 resize

---
 src/lib.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4d4ce65..d7d1e41 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,21 @@ impl<T> Matrix<T> {
     {
         let shape = shape.into().try_to_axis_shape(self.order)?;
         let size = Self::check_size(shape.size())?;
+        if size > self.size() {
+            // `T::default` may panic halfway, in which case the elements
+            // appended so far must not outlive the unwinding, since the
+            // shape has not been updated yet
+            let mut guard = TruncateOnDrop {
+                len: self.data.len(),
+                data: &mut self.data,
+            };
+            guard.data.resize_with(size, T::default);
+            guard.len = size;
+        }
+        // dropping an element may panic as well, but not before the length
+        // of the underlying data has been updated
         self.shape = shape;
-        self.data.resize_with(size, T::default);
+        self.data.truncate(size);
         Ok(self)
     }
 
@@ -748,6 +761,18 @@ impl<T> Matrix<T> {
     }
 }
 
+/// Truncates the data to the recorded length when dropped.
+struct TruncateOnDrop<'a, T> {
+    data: &'a mut Vec<T>,
+    len: usize,
+}
+
+impl<T> Drop for TruncateOnDrop<'_, T> {
+    fn drop(&mut self) {
+        self.data.truncate(self.len);
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3d5d05835716217ae149e2e3f8881b83ec7317d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 2/8] fix: make swapping a row or column with itself a no-op

---
 src/swap.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/swap.rs b/src/swap.rs
index 8ff529e..ce651f9 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -97,6 +97,10 @@ impl<T> Matrix<T> {
         if m >= self.major() || n >= self.major() {
             return Err(Error::IndexOutOfBounds);
         }
+        if m == n {
+            // `ptr::swap_nonoverlapping` requires disjoint ranges
+            return Ok(self);
+        }
         let base = self.data.as_mut_ptr();
         let index = m * self.major_stride();
         let jndex = n * self.major_stride();
-- 
2.43.0


From 24e236fbdc4286adf06ad64db7fe4f9b466320a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 3/8] fix: avoid offset overflow when swapping vectors of huge
 zero-sized matrices

---
 src/swap.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index ce651f9..74c13b2 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -118,16 +118,17 @@ impl<T> Matrix<T> {
             return Err(Error::IndexOutOfBounds);
         }
         let base = self.data.as_mut_ptr();
-        let mut index = m * self.minor_stride();
-        let mut jndex = n * self.minor_stride();
-        for _ in 0..self.major() {
+        let index = m * self.minor_stride();
+        let jndex = n * self.minor_stride();
+        for i in 0..self.major() {
+            // always less than the size, unlike the offset of the vector
+            // following the last one, which could overflow if zero-sized
+            let lower = i * self.major_stride();
             unsafe {
-                let x = base.add(index);
-                let y = base.add(jndex);
+                let x = base.add(lower + index);
+                let y = base.add(lower + jndex);
                 ptr::swap(x, y);
             }
-            index += self.major_stride();
-            jndex += self.major_stride();
         }
         Ok(self)
     }
-- 
2.43.0


From 10b2b9f88019cca1acf3c9ed2748512ee6855abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 4/8] fix: do not swap through a pointer invalidated by a later
 borrow

---
 src/swap.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/swap.rs b/src/swap.rs
index 74c13b2..200a320 100644
--- a/src/swap.rs
+++ b/src/swap.rs
@@ -29,10 +29,13 @@ impl<T> Matrix<T> {
         I: MatrixIndex<T, Output = T>,
         J: MatrixIndex<T, Output = T>,
     {
-        let x = self.get_mut(i)? as *mut T;
-        let y = self.get_mut(j)? as *mut T;
+        let x = ptr::from_mut(self.get_mut(i)?).addr();
+        let y = ptr::from_mut(self.get_mut(j)?).addr();
+        // the reference `x` comes from is invalidated by the one `y` comes
+        // from, so both pointers have to be derived from the same buffer
+        let base = self.data.as_mut_ptr();
         unsafe {
-            ptr::swap(x, y);
+            ptr::swap(base.with_addr(x), base.with_addr(y));
         }
         Ok(self)
     }
-- 
2.43.0


From 7656491590d52cc45c0a84d3dc9ec580857c8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:33 +0000
Subject: [PATCH 5/8] fix: yield empty rows and columns from mutable iterators
 as well

---
 src/iter/iter_mut.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index 1c3bf0f..f487afc 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -21,6 +21,9 @@ pub(crate) struct IterVectorsMut<'a, T> {
     lower: NonNull<T>,
     upper: NonNull<T>,
     layout: Option<Layout>,
+    /// The number of empty vectors still to be yielded, which is always
+    /// zero unless the matrix contains no elements.
+    empty_vectors: usize,
     marker: PhantomData<&'a mut T>,
 }
 
@@ -37,7 +40,7 @@ unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 impl<'a, T> IterVectorsMut<'a, T> {
     pub(crate) fn over_major_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.major());
         }
 
         unsafe {
@@ -59,7 +62,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
 
     pub(crate) fn over_minor_axis(matrix: &'a mut Matrix<T>) -> Self {
         if matrix.is_empty() {
-            return Self::empty();
+            return Self::over_empty_vectors(matrix.minor());
         }
 
         unsafe {
@@ -83,15 +86,21 @@ impl<'a, T> IterVectorsMut<'a, T> {
     ///
     /// This returns a detached iterator whose lifetime is not bound to
     /// any matrix. However, it is safe.
-    fn empty() -> Self {
+    fn over_empty_vectors(axis_length: usize) -> Self {
         Self {
             lower: NonNull::dangling(),
             upper: NonNull::dangling(),
             layout: None,
+            empty_vectors: axis_length,
             marker: PhantomData,
         }
     }
 
+    fn next_empty_vector(&mut self) -> Option<IterNthVectorMut<'a, T>> {
+        self.empty_vectors = self.empty_vectors.checked_sub(1)?;
+        Some(IterNthVectorMut::empty())
+    }
+
     /// This is a helper function that abstracts some repetitive code,
     /// while exposing certain `unsafe` operations that were perviously
     /// well-encapsulated.
@@ -143,6 +152,7 @@ impl<'a, T> IterVectorsMut<'a, T> {
             lower,
             upper,
             layout,
+            empty_vectors: 0,
             marker: PhantomData,
         }
     }
@@ -152,7 +162,9 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
     type Item = IterNthVectorMut<'a, T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            return self.next_empty_vector();
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.lower, layout.vector_stride, layout.vector_length)
@@ -176,7 +188,7 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let len = match self.layout {
-            None => 0,
+            None => self.empty_vectors,
             Some(strides) => {
                 let stride = strides.axis_stride.get();
                 let elem_size = size_of::<T>();
@@ -196,7 +208,9 @@ impl<T> ExactSizeIterator for IterVectorsMut<'_, T> {
 
 impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let layout = self.layout?;
+        let Some(layout) = self.layout else {
+            return self.next_empty_vector();
+        };
 
         let result = unsafe {
             IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)
-- 
2.43.0


From cea245cd3d2aa75c3cd0fcfa12284b7655eab9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 6/8] fix: leave room for counting up to usize::MAX
 over-aligned zero-sized elements

---
 src/iter/iter_mut.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index f487afc..f6c7148 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -34,6 +34,16 @@ struct Layout {
     vector_length: NonZero<usize>,
 }
 
+/// Returns the address that `lower` starts from if `T` is zero-sized.
+///
+/// Such addresses are only used for counting and never dereferenced. As
+/// a matrix may contain up to [`usize::MAX`] zero-sized elements, only
+/// the smallest non-null address leaves enough room for all of them.
+fn counter_start<T>() -> NonNull<T> {
+    let ptr = without_provenance_mut(1);
+    unsafe { NonNull::new_unchecked(ptr) }
+}
+
 unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}
 unsafe impl<T: Sync> Sync for IterVectorsMut<'_, T> {}
 
@@ -133,7 +143,11 @@ impl<'a, T> IterVectorsMut<'a, T> {
         vector_stride: NonZero<usize>,
         vector_length: NonZero<usize>,
     ) -> Self {
-        let lower = buffer;
+        let lower = if size_of::<T>() == 0 {
+            counter_start()
+        } else {
+            buffer
+        };
         let offset = axis_stride.get() * (axis_length.get() - 1);
         let upper = if size_of::<T>() == 0 {
             let addr = lower.addr().get() + offset;
@@ -271,7 +285,7 @@ impl<'a, T> IterNthVectorMut<'a, T> {
         let buffer = unsafe { NonNull::new_unchecked(matrix.data.as_mut_ptr()) };
         let lower = if size_of::<T>() == 0 {
             // would work, trust me
-            buffer
+            counter_start()
         } else {
             let offset = n * matrix.major_stride();
             unsafe { buffer.add(offset) }
@@ -297,7 +311,7 @@ impl<'a, T> IterNthVectorMut<'a, T> {
         let buffer = unsafe { NonNull::new_unchecked(matrix.data.as_mut_ptr()) };
         let lower = if size_of::<T>() == 0 {
             // would work, trust me
-            buffer
+            counter_start()
         } else {
             let offset = n * matrix.minor_stride();
             unsafe { buffer.add(offset) }
-- 
2.43.0


From 841e7eff2af1abbb97ce41917049bbd5547c6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 7/8] fix: do not panic when formatting elements wider than
 u16::MAX

---
 src/fmt.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index be14246..18556a1 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -72,7 +72,7 @@ where
             }
             write_index!(f, "{col:>index_width$}")?;
             write!(f, "{SPACE:INNER_GAP$}")?;
-            write!(f, "{SPACE:element_width$}")?;
+            write_padded(f, SPACE, element_width)?;
         }
         writeln!(f)?;
 
@@ -92,8 +92,8 @@ where
                 write_index!(f, "{index:>index_width$}")?;
                 write!(f, "{SPACE:INNER_GAP$}")?;
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -112,8 +112,8 @@ where
                     write!(f, "{SPACE:index_width$}")?;
                     write!(f, "{SPACE:INNER_GAP$}")?;
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -164,8 +164,8 @@ where
                 }
                 let index = Index::new(row, col).to_flattened(self.order, self.shape);
                 match cache[index].next() {
-                    None => write!(f, "{SPACE:element_width$}")?,
-                    Some(line) => write!(f, "{line:<element_width$}")?,
+                    None => write_padded(f, SPACE, element_width)?,
+                    Some(line) => write_padded(f, &line, element_width)?,
                 }
             }
             writeln!(f, "{RIGHT_DELIMITER}")?;
@@ -180,8 +180,8 @@ where
                     }
                     let index = Index::new(row, col).to_flattened(self.order, self.shape);
                     match cache[index].next() {
-                        None => write!(f, "{SPACE:element_width$}")?,
-                        Some(line) => write!(f, "{line:<element_width$}")?,
+                        None => write_padded(f, SPACE, element_width)?,
+                        Some(line) => write_padded(f, &line, element_width)?,
                     }
                 }
                 writeln!(f)?;
@@ -192,6 +192,16 @@ where
     }
 }
 
+/// Writes left-aligned text. Unlike with `{text:<width$}`, the width is
+/// not limited to [`u16::MAX`].
+fn write_padded(f: &mut fmt::Formatter<'_>, text: &str, width: usize) -> fmt::Result {
+    write!(f, "{text}")?;
+    for _ in text.chars().count()..width {
+        write!(f, "{SPACE}")?;
+    }
+    Ok(())
+}
+
 struct Lines(VecDeque<String>);
 
 impl Lines {
-- 
2.43.0


From 96c9496d613ae94051a1f017fbddb0fdd48d8c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 8/8] verif-hooks: record pointers formed by mutable row and
 column iterators (feature-guarded)

---
 Cargo.toml           |  1 +
 src/iter/iter_mut.rs | 18 ++++++++++++++++++
 src/lib.rs           |  4 ++++
 src/verif_hooks.rs   | 45 ++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 68 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index caa5810..b63e18f 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -23,3 +23,4 @@ default = ["parallel"]
 full = ["parallel", "pretty-debug"]
 parallel = ["dep:rayon"]
 pretty-debug = ["dep:owo-colors"]
+verif-hooks = []
diff --git a/src/iter/iter_mut.rs b/src/iter/iter_mut.rs
index f6c7148..849c3a5 100644
--- a/src/iter/iter_mut.rs
+++ b/src/iter/iter_mut.rs
@@ -162,6 +162,11 @@ impl<'a, T> IterVectorsMut<'a, T> {
             vector_length,
         });
 
+        #[cfg(feature = "verif-hooks")]
+        crate::verif_hooks::formed("IterVectorsMut::assemble.lower", lower);
+        #[cfg(feature = "verif-hooks")]
+        crate::verif_hooks::formed("IterVectorsMut::assemble.upper", upper);
+
         Self {
             lower,
             upper,
@@ -195,6 +200,8 @@ impl<'a, T> Iterator for IterVectorsMut<'a, T> {
             } else {
                 unsafe { self.lower.add(stride) }
             };
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::formed("IterVectorsMut::next.lower", self.lower);
         }
 
         Some(result)
@@ -241,6 +248,8 @@ impl<T> DoubleEndedIterator for IterVectorsMut<'_, T> {
             } else {
                 unsafe { self.upper.sub(stride) }
             };
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::formed("IterVectorsMut::next_back.upper", self.upper);
         }
 
         Some(result)
@@ -366,6 +375,11 @@ impl<'a, T> IterNthVectorMut<'a, T> {
             unsafe { lower.add(offset) }
         };
 
+        #[cfg(feature = "verif-hooks")]
+        crate::verif_hooks::formed("IterNthVectorMut::assemble.lower", lower);
+        #[cfg(feature = "verif-hooks")]
+        crate::verif_hooks::formed("IterNthVectorMut::assemble.upper", upper);
+
         Self {
             lower,
             upper,
@@ -397,6 +411,8 @@ impl<'a, T> Iterator for IterNthVectorMut<'a, T> {
             } else {
                 unsafe { self.lower.add(stride) }
             };
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::formed("IterNthVectorMut::next.lower", self.lower);
         }
 
         Some(result)
@@ -442,6 +458,8 @@ impl<T> DoubleEndedIterator for IterNthVectorMut<'_, T> {
             } else {
                 unsafe { self.upper.sub(stride) }
             };
+            #[cfg(feature = "verif-hooks")]
+            crate::verif_hooks::formed("IterNthVectorMut::next_back.upper", self.upper);
         }
 
         Some(result)
diff --git a/src/lib.rs b/src/lib.rs
index d7d1e41..bb02615 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,6 +100,10 @@ pub mod shape;
 #[cfg(feature = "parallel")]
 pub mod parallel;
 
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 mod arithmetic;
 mod construct;
 mod convert;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..a21decc
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,45 @@
+//! Records the pointers formed by mutable row and column iterators.
+//!
+//! This module exists only if the `verif-hooks` feature is enabled. It is
+//! not part of the public API.
+
+use std::cell::RefCell;
+use std::ptr::NonNull;
+
+/// A pointer value formed on the current thread.
+#[derive(Clone, Copy, Debug)]
+pub struct PointerEvent {
+    /// Where the pointer was formed.
+    pub site: &'static str,
+    /// The address of the pointer.
+    pub addr: usize,
+    /// The size of the pointee. Addresses formed for zero-sized pointees
+    /// are merely counters.
+    pub elem_size: usize,
+}
+
+thread_local! {
+    static EVENTS: RefCell<Option<Vec<PointerEvent>>> = const { RefCell::new(None) };
+}
+
+/// Starts recording on the current thread, discarding previous events.
+pub fn start() {
+    EVENTS.with_borrow_mut(|events| *events = Some(Vec::new()));
+}
+
+/// Stops recording on the current thread, returning the recorded events.
+pub fn stop() -> Vec<PointerEvent> {
+    EVENTS.with_borrow_mut(|events| events.take().unwrap_or_default())
+}
+
+pub(crate) fn formed<T>(site: &'static str, pointer: NonNull<T>) {
+    EVENTS.with_borrow_mut(|events| {
+        if let Some(events) = events {
+            events.push(PointerEvent {
+                site,
+                addr: pointer.addr().get(),
+                elem_size: size_of::<T>(),
+            });
+        }
+    });
+}
-- 
2.43.0

