From 805b5bbd6ef85b977bc25d34bf9a15c49a70273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 01/45] fix: decode multi-byte characters in
 const_utf8_char_next

The continuation bytes were indexed in the slice without the leading byte, so
every multi-byte character was decoded wrongly or rejected. Overlong encodings
and values which are not unicode scalar values are now rejected.
---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..f815163 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ pub const fn const_split_once_str<'a>(
 #[inline]
 #[must_use]
 pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
-    let Some((first, data)) = data.split_first() else {
+    let Some(first) = data.first() else {
         return (0, 0);
     };
     let first = *first;
@@ -565,6 +565,15 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    // reject overlong encodings and values which are not a unicode scalar value
+    let min = match len {
+        2 => 0x80,
+        3 => 0x800,
+        _ => 0x1_0000,
+    };
+    if value < min || char::from_u32(value).is_none() {
+        return (0, 0);
+    }
     #[allow(clippy::cast_possible_truncation)]
     (value, len as u32)
 }
-- 
2.43.0


From 691377db67b064129510341923fd315d013dc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 02/45] fix: reject overlong encodings in Utf8CharIndices

---
 src/char_indicies.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..3a1ff7c 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -52,12 +52,12 @@ impl<'a> Utf8CharIndices<'a> {
     pub const fn next_const(mut self) -> Result<(Self, usize, char), (Self, Utf8CharError)> {
         /// Parse the next multi-byte UTF-8 character from the input.
         const fn inner(mut data: *const u8, max: usize, first: u8) -> Result<(char, u8), u8> {
-            let (char, width) = if first & 0b1110_0000 == 0b1100_0000 {
-                (first & 0b0001_1111, 2_u8)
+            let (char, width, min) = if first & 0b1110_0000 == 0b1100_0000 {
+                (first & 0b0001_1111, 2_u8, 0x80)
             } else if first & 0b1111_0000 == 0b1110_0000 {
-                (first & 0b0000_1111, 3_u8)
+                (first & 0b0000_1111, 3_u8, 0x800)
             } else if first & 0b1111_1000 == 0b1111_0000 {
-                (first & 0b0000_0111, 4_u8)
+                (first & 0b0000_0111, 4_u8, 0x1_0000)
             } else {
                 return Err(1);
             };
@@ -81,6 +81,11 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
+            if char < min {
+                // the character is encoded using more bytes than necessary
+                return Err(width);
+            }
+
             if let Some(char) = core::char::from_u32(char) {
                 Ok((char, width))
             } else {
-- 
2.43.0


From fc640d8a2f1a4b0880c81e2c7fea2d8fa69429f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 03/45] fix: skip the separator in ByteData::split_on and
 StringData::split_on

The separator was left at the front of the remaining data, so the iterator
never ended once a separator had been found.
---
 src/bytedata.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..78b502e 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -846,7 +846,7 @@ impl<'a> ByteData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `ByteData` at the first occurrence of the given byte sequence.
+    /// Split the `ByteData` on every occurrence of the given byte sequence. The matching bytes are not part of the items.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b [u8]) -> impl Iterator<Item = ByteData<'a>> + Send + 'b
     where
@@ -857,29 +857,27 @@ impl<'a> ByteData<'a> {
             type Item = ByteData<'a>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                if self.0.is_empty() {
+                if !self.2 {
                     return None;
                 }
-                let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
-                {
-                    aa.len()
-                } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
-                };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
+                if !self.1.is_empty() {
+                    if let Some((aa, _)) =
+                        crate::const_split_once_bytes(self.0.as_slice(), self.1)
+                    {
+                        let aa = aa.len();
+                        let ret = self.0.take_bytes(aa);
+                        self.0.make_sliced(self.1.len()..);
+                        return Some(ret);
+                    }
                 }
                 self.2 = false;
-                let aa = self.0.take_bytes(aa);
-                Some(aa)
+                Some(core::mem::replace(&mut self.0, ByteData::empty()))
             }
 
             fn size_hint(&self) -> (usize, Option<usize>) {
-                if self.0.is_empty() {
+                if !self.2 {
                     (0, Some(0))
-                } else if self.0.len() < self.1.len() {
+                } else if self.1.is_empty() || self.0.len() < self.1.len() {
                     (1, Some(1))
                 } else if self.0.len() < self.1.len() * 2 {
                     (1, Some(2))
@@ -888,7 +886,8 @@ impl<'a> ByteData<'a> {
                 }
             }
         }
-        It(self, needle, true)
+        let has_items = !self.is_empty();
+        It(self, needle, has_items)
     }
 }
 
-- 
2.43.0


From 20b176ac504e97d86723add8d897498aa0222133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 04/45] fix: into_shared_range of external data to an empty
 range is empty

The value stayed external with zero length, for which is_empty() is false.
---
 src/bytedata.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 78b502e..553d150 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -762,12 +762,10 @@ impl<'a> ByteData<'a> {
                 unsafe { core::mem::transmute::<ByteData<'a>, ByteData<'s>>(self) }
             }
             Kind::External => {
-                // SAFETY: External state has been checked.
-                unsafe {
-                    (*self.external).make_sliced_range(range);
-                };
-                // SAFETY: the External state is owned, so it can be transformed to any lifetime.
-                unsafe { core::mem::transmute::<ByteData<'a>, ByteData<'s>>(self) }
+                // short external data must become a chunk, as an external value is assumed to never be empty
+                let ret = self.into_sliced(range);
+                // SAFETY: the External and Chunk states are owned, so they can be transformed to any lifetime.
+                unsafe { core::mem::transmute::<ByteData<'a>, ByteData<'s>>(ret) }
             }
             Kind::Slice => {
                 // SAFETY: Slice state has been checked.
-- 
2.43.0


From c420606b318bedd076acf487ac268df0c82c75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 05/45] fix: reject reversed and overflowing ranges when
 slicing SharedBytes

Without overflow checks a reversed range wrapped around to a length beyond
the buffer, giving access to memory outside of it.
---
 src/shared_bytes.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..0214d9c 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +354,15 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +376,15 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
-- 
2.43.0


From e7371c3f989c972e68408c89d692e28bf5d269fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 06/45] fix: reject ranges with an inclusive end of usize::MAX

Without overflow checks the end wrapped around to 0, giving an empty value
where the range is out of bounds.
---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/queue/byte_queue.rs |  2 +-
 src/stringdata.rs       |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..db6fc9a 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index ed01151..ca8a499 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..0877515 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..d5e7867 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From b8dcef4f60e72aa798373c9c4ac461715ff3ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 07/45] fix: honour the alignment in
 SharedBytesBuilder::with_aligned_capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..2264595 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,7 +107,7 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
+        let align = Self::cap_check(cap, alignment);
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
-- 
2.43.0


From 386a9e237fb08d5144cbe0adb7cd938723c1cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 08/45] fix: SharedBytesBuilder::truncate with lengths of 4 GiB
 and above

The length was cast to 32 bits, so truncating to 1 << 32 cleared the buffer.
---
 src/shared_bytes_builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 2264595..0dbf885 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,10 +285,10 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
-        #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
+        if len < self.len() {
+            #[allow(clippy::cast_possible_truncation)]
+            let len = len as u32;
+            self.off = SharedBytesMeta::compute_start_offset(self.align) + len;
         }
     }
 
-- 
2.43.0


From d32a1fd79abdd519a0fd7591e46dfccc1829dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 09/45] fix: count the bytes written by
 SharedBytesBuilder::apply_borrowed_buf

The written length was added to the capacity instead of to the used length,
losing the bytes and corrupting the layout used to release the buffer.
---
 src/shared_bytes_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 0dbf885..7f4fee2 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -607,6 +607,10 @@ impl core::fmt::UpperHex for SharedBytesBuilder {
 #[allow(clippy::multiple_inherent_impl)]
 impl SharedBytesBuilder {
     /// Apply a function to the unused reserved bytes.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the buffer was replaced with one containing more bytes than the reserved capacity.
     #[inline]
     pub fn apply_borrowed_buf<'this, R, F>(&'this mut self, fun: F) -> R
     where
@@ -627,7 +631,11 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        assert!(
+            len <= self.len.saturating_sub(self.off),
+            "SharedBytesBuilder::apply_borrowed_buf: returned length exceeds reserved capacity"
+        );
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 2139469e45d4b3a9f88911b4910696310cd4adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 10/45] fix: SharedBytesBuilder::reserve panics when the
 capacity is too large

The needed size was masked to 32 bits, silently reserving too little.
---
 src/shared_bytes_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 7f4fee2..787c984 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -154,13 +154,21 @@ impl SharedBytesBuilder {
     }
 
     /// Reserves capacity for at least `additional` more bytes to be written to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the resulting capacity is too large.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
         let off = self.off as usize;
-        if off == 0xFFFF_FFFF || additional == 0 {
+        if additional == 0 {
             return;
         }
         let new_off = off.saturating_add(additional);
+        assert!(
+            new_off <= 0xFFFF_FFFF,
+            "SharedBytesBuilder::reserve: capacity too large"
+        );
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From 5496c915430692ef56ee0b63776a46a4d70d5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 11/45] fix: put_bytes with a count of 0 on an unallocated
 SharedBytesBuilder

It offset a null pointer, which is undefined behaviour.
---
 src/bytes_1/shared_bytes_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bytes_1/shared_bytes_builder.rs b/src/bytes_1/shared_bytes_builder.rs
index d6a0fca..9eb0944 100644
--- a/src/bytes_1/shared_bytes_builder.rs
+++ b/src/bytes_1/shared_bytes_builder.rs
@@ -67,6 +67,9 @@ unsafe impl bytes::BufMut for SharedBytesBuilder {
             cnt <= self.remaining_mut(),
             "SharedBytesBuilder::put_bytes: index out of bounds"
         );
+        if cnt == 0 {
+            return;
+        }
         self.reserve(cnt);
         // SAFETY: `off` is within bounds.
         let ptr = unsafe { self.dat.add(self.off as usize) };
-- 
2.43.0


From deb888cf74d5d85c68eeb2db7915fd3f752cce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 12/45] fix: make builders from shared SharedBytes with an
 alignment above 512

with_alignment panics for these, while from_slice_aligned accepts them.
---
 src/shared_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 0214d9c..1eed112 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -569,7 +569,12 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            let mut ret = Self {
+                align,
+                off: SharedBytesMeta::compute_start_offset(align),
+                len: 0,
+                dat: core::ptr::null_mut(),
+            };
             ret.extend_from_slice(dat.as_slice());
             ret
         }
-- 
2.43.0


From 331e569b3ff84a8ee5008b65d7662225ea1c64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 13/45] fix: SharedStrBuilder::push no longer uses an
 uninitialized array

Assuming uninitialized memory to be [u8; 4] is undefined behaviour.
---
 src/shared_str_builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared_str_builder.rs b/src/shared_str_builder.rs
index f17f55b..b95e2e3 100644
--- a/src/shared_str_builder.rs
+++ b/src/shared_str_builder.rs
@@ -30,9 +30,8 @@ impl SharedStrBuilder {
     /// Appends the given byte to the shared string.
     #[inline]
     pub fn push(&mut self, ch: char) {
-        #[allow(clippy::uninit_assumed_init, invalid_value)]
-        // Safety: `buf` is a 4-byte buffer, which is enough to encode any Unicode scalar value.
-        let mut buf: [u8; 4] = unsafe { core::mem::MaybeUninit::uninit().assume_init() };
+        // `buf` is a 4-byte buffer, which is enough to encode any Unicode scalar value.
+        let mut buf = [0_u8; 4];
         let buf = ch.encode_utf8(&mut buf);
         self.inner.extend_from_slice(buf.as_bytes());
     }
-- 
2.43.0


From 7c76541bdb7dda885f7fc865173ed60e9a68811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 14/45] fix: release the buffer when Bytes made from
 SharedBytes becomes a Vec or BytesMut

The conversions take over the reference of the Bytes value, which is not
dropped afterwards, so the buffer was leaked.
---
 src/bytes_1/shared_bytes.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..00a72ef 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -23,25 +23,23 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the caller gave up its reference, so it has to be released here
+            release(data.load(Ordering::Relaxed));
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            // the caller gave up its reference, so it has to be released here
+            release(data.load(Ordering::Relaxed));
         }
         vec
     },
@@ -51,17 +49,22 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         meta.refcnt.load(Ordering::Relaxed) == 1
     },
     drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
-            return;
-        }
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
+        release(data.load(Ordering::Relaxed));
     },
 };
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Releases one reference to the buffer at `p`, freeing it if it was the last one.
+unsafe fn release(p: *mut ()) {
+    let p = p as *mut u8;
+    let meta = &*(p as *const crate::SharedBytesMeta);
+    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        return;
+    }
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    alloc::alloc::dealloc(p, layout);
+}
+
 #[cfg(feature = "bytes_1_safe")]
 #[cfg_attr(docsrs, doc(cfg(feature = "bytes_1")))]
 impl From<SharedBytes> for bytes::Bytes {
-- 
2.43.0


From 5423dbcffce167cfc432eb420da281d96ba27ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 15/45] fix: synchronize on the reference counts before freeing
 or reusing a buffer

With relaxed ordering the accesses of other threads were not ordered before
the release of the buffer, or before its reuse by the last owner.
---
 src/bytes_1/shared_bytes.rs | 4 ++--
 src/external.rs             | 4 ++--
 src/shared_bytes.rs         | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 00a72ef..bc11a91 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -46,7 +46,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
         release(data.load(Ordering::Relaxed));
@@ -58,7 +58,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
 unsafe fn release(p: *mut ()) {
     let p = p as *mut u8;
     let meta = &*(p as *const crate::SharedBytesMeta);
-    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+    if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
         return;
     }
     let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
diff --git a/src/external.rs b/src/external.rs
index ca8a499..45bccf1 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,7 +400,7 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
         if ref_count == 1 {
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 1eed112..7549e0e 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -437,7 +437,7 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::AcqRel) == 1 {
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -543,7 +543,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From f39136a97f44feb0db6bb885eace39bec293750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 16/45] fix: SharedBytes::clone no longer makes an exclusive
 reference to the shared header

---
 src/shared_bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 7549e0e..9bbfc75 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -415,9 +415,9 @@ impl Clone for SharedBytes {
             return Self::EMPTY;
         }
         #[allow(clippy::cast_ptr_alignment)]
-        let dat = dat.cast::<SharedBytesMeta>().cast_mut();
+        let dat = dat.cast::<SharedBytesMeta>();
         // SAFETY: `dat` is a valid pointer.
-        unsafe { &mut *dat }
+        unsafe { &*dat }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
         Self {
-- 
2.43.0


From 21f5913c890457ceff9da598e08d74ef4a39f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 17/45] fix: StringData::take_line includes the newline

As documented, and as done by StringQueue::take_line. The newline was left in
the remaining data, so taking another line gave an empty string forever.
---
 src/stringdata.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index d5e7867..5c8d64e 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,6 +367,8 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
+        // include the newline
+        let position = position + 1;
         let av = self.sliced(0..position);
         self.make_sliced(position..);
         av
-- 
2.43.0


From 97dcf43429ee6d9c4cc046352171c9cee6f41c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 18/45] fix: ByteQueue::append keeps the first chunk and its
 count when it fits the other queue's first node

---
 src/queue/linked_root.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..b548d21 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -274,6 +274,9 @@ impl<'a> LinkedRoot<'a> {
             if let Some(fst) = unsafe { other.first.as_mut() } {
                 if let Err(val) = fst.data.push_front(chamber) {
                     self.push_back(val);
+                } else {
+                    // the item is still part of the other queue
+                    other.count += 1;
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From d8149ed66e8a04b820b10e07b48b79e18181a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 19/45] fix: count the bytes when a ByteQueue is extended with
 strings

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0877515..0ba0ad7 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -699,7 +699,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -708,7 +708,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -720,7 +720,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From dbca478405cc6f5de595f563df6f740a91fec030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 20/45] fix: search across chunk boundaries in
 ByteQueue::find_slice

---
 src/queue/byte_queue.rs | 84 ++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 52 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0ba0ad7..52fe4f1 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -298,8 +298,11 @@ impl<'a> ByteQueue<'a> {
         start_offset: usize,
         start_byte: usize,
     ) -> Option<(usize, usize, usize)> {
+        if start_byte > self.len() {
+            return None;
+        }
         if data.is_empty() {
-            return Some((0, 0, 0));
+            return Some((start_byte, start_chunk, start_offset));
         }
         self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
     }
@@ -316,67 +319,44 @@ impl<'a> ByteQueue<'a> {
         // the first byte in the sequence to match possible sequences
         let first_byte = data[0];
 
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
+        for sect in self.chunks().skip(start_chunk) {
+            let sect = sect.as_slice();
+            if start_offset >= sect.len() {
+                start_offset -= sect.len();
                 start_chunk += 1;
                 continue;
             }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
+            while let Some(av) = sect[start_offset..].iter().position(|x| *x == first_byte) {
                 start_offset += av;
                 start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
-                };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
+                if data.len() > self.len() - start_byte {
+                    return None;
                 }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
+                // the match may continue in the following chunks
+                let following = self.chunks().skip(start_chunk + 1);
+                let mut unmatched = data;
+                let mut matches = true;
+                for part in core::iter::once(&sect[start_offset..])
+                    .chain(following.map(crate::ByteData::as_slice))
+                {
+                    let len = part.len().min(unmatched.len());
+                    matches = part[..len] == unmatched[..len];
+                    unmatched = &unmatched[len..];
+                    if !matches || unmatched.is_empty() {
+                        break;
+                    }
                 }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                if matches && unmatched.is_empty() {
+                    return Some((start_byte, start_chunk, start_offset));
                 }
-                continue 'outer;
+                start_offset += 1;
+                start_byte += 1;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            start_byte += sect.len() - start_offset;
+            start_offset = 0;
+            start_chunk += 1;
         }
+        None
     }
 
     /// Split the queue on a certain byte sequence.
-- 
2.43.0


From cd3e92130ef4c579afc785658bf42d39e24ff416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 21/45] fix: SplitOn skips the separator and terminates

---
 src/queue/split.rs | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..64c95a7 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -31,37 +31,22 @@ impl<'a> Iterator for SplitOn<'a, '_> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
+            let val = if this.needle.is_empty() {
+                None
+            } else {
+                this.queue.find_slice_pos(
+                    this.needle,
+                    this.start_chunk,
+                    this.start_offset,
+                    this.start_byte,
+                )
+            };
+            if let Some((byte, chunk, offset)) = val {
+                let new_q = this.queue.slice(this.start_byte..byte);
+                // continue after the needle, which may extend past the end of the chunk
                 this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
+                this.start_offset = offset + this.needle.len();
+                this.start_byte = byte + this.needle.len();
                 if this.max != 0 {
                     this.max -= 1;
                 }
-- 
2.43.0


From 873951798b0e45cab73bf826eaf3f66bca2e9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 22/45] fix: OwnedByteIter::take limits to the requested number
 of bytes

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From 9265dc5d98fb6b2fd30b8723a56654cbdce61755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 23/45] fix: ByteIter skips by any amount without overflowing

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 56e1cfb7f67ce6de4cbd613a13e9644097a5d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 24/45] fix: hash of ByteQueue doesn't depend on how it is
 chunked

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 52fe4f1..34b9fc4 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -875,8 +875,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // feed single bytes so that the hash doesn't depend on how the data is chunked
+        state.write_usize(self.remain);
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for byte in chunk.as_slice() {
+                state.write_u8(*byte);
+            }
         }
     }
 }
-- 
2.43.0


From ff80a477de7bf2e4ce84de783f252ef238c98002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 25/45] fix: pushing to a full ByteQueue leaves its length
 unchanged

---
 src/queue/byte_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 34b9fc4..a1e3b03 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -60,8 +60,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_back(data);
+        self.remain += len;
     }
 
     /// Prepend bytes into the queue.
@@ -71,8 +72,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_front(data);
+        self.remain += len;
     }
 
     /// Remove bytes from the front of the queue.
-- 
2.43.0


From d2acfcdbdaaadaceb071f3a00f3d8e037d78fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 26/45] fix: a ByteQueue made from an empty item has no chunks
 without alloc

---
 src/queue/linked_node_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/queue/linked_node_data.rs b/src/queue/linked_node_data.rs
index 847e9f0..94bbbd3 100644
--- a/src/queue/linked_node_data.rs
+++ b/src/queue/linked_node_data.rs
@@ -25,11 +25,13 @@ impl<'a> LinkedNodeData<'a> {
     }
 
     pub(super) const fn with_item(data: ByteData<'a>) -> Self {
+        // an empty item is not a chunk
+        let len = if data.is_empty() { 0 } else { 1 };
         let mut ret = Self {
             // SAFETY: data can be uninitialized because it will be written to before being read
             data: unsafe { MaybeUninit::uninit().assume_init() },
             beg: 0,
-            len: 1,
+            len,
         };
         ret.data[0] = MaybeUninit::new(data);
         ret
-- 
2.43.0


From 7086c8df5278d52d2f0ad9d283d3dbedce04b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 27/45] fix: reading into a buffer larger than the remaining
 data

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From 76521237c35641eae1a898d57263f91d76275333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 28/45] fix: vectored reads stop at the end of the data

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From 9b20caad599640eac207703ff075e96f0e625c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 29/45] fix: nom split_at_position1 reports a recoverable error

---
 src/nom_7/bytedata.rs    | 4 ++--
 src/nom_7/bytequeue.rs   | 4 ++--
 src/nom_7/stringdata.rs  | 4 ++--
 src/nom_7/stringqueue.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..709e31f 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,7 +253,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..17c4c92 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -310,7 +310,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..e9a81b0 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,7 +291,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..50b1609 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -302,7 +302,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From a0165cba57f8a860861b7523eb0d1aa22cb8a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 30/45] fix: nom split_at_position1_complete fails on empty
 input

---
 src/nom_7/bytedata.rs    | 3 +++
 src/nom_7/bytequeue.rs   | 1 +
 src/nom_7/stringdata.rs  | 3 +++
 src/nom_7/stringqueue.rs | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 709e31f..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -258,6 +258,9 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index 17c4c92..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -309,6 +309,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index e9a81b0..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -296,6 +296,9 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 50b1609..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -301,6 +301,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
-- 
2.43.0


From 1bba66fd3d05956c292d9e5eea838b88c5b9f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 31/45] fix: nom position of a StringQueue is a byte position

---
 src/nom_7/stringqueue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..73ae5a4 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -190,7 +190,9 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
-- 
2.43.0


From cbe8b6a703fe21442873f9dcd2af49ac9ae4a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 32/45] fix: nom slice_index of a StringQueue counts characters

---
 src/nom_7/stringqueue.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 73ae5a4..5433a10 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -197,10 +197,17 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut left = count;
+        for (i, _) in self.chars_indecies() {
+            if left == 0 {
+                return Ok(i);
+            }
+            left -= 1;
+        }
+        if left == 0 {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From ee25e8ae5d24fce85bf716aa6e62c75476b1b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 33/45] fix: nom iter_indices of StringData and StringQueue
 yields byte offsets

---
 src/nom_7/mod.rs         | 32 ++++++++++++++++++++++++++++++++
 src/nom_7/stringdata.rs  |  4 ++--
 src/nom_7/stringqueue.rs |  4 ++--
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..5766020 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -6,5 +6,37 @@ mod bytequeue;
 #[cfg(feature = "queue")]
 mod stringqueue;
 
+/// An iterator over characters together with their byte offsets.
+#[derive(Debug)]
+#[allow(unnameable_types)]
+pub struct CharOffsets<I> {
+    chars: I,
+    offset: usize,
+}
+
+impl<I: Iterator<Item = char>> CharOffsets<I> {
+    #[inline]
+    pub(crate) const fn new(chars: I) -> Self {
+        Self { chars, offset: 0 }
+    }
+}
+
+impl<I: Iterator<Item = char>> Iterator for CharOffsets<I> {
+    type Item = (usize, char);
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        let ch = self.chars.next()?;
+        let offset = self.offset;
+        self.offset += ch.len_utf8();
+        Some((offset, ch))
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.chars.size_hint()
+    }
+}
+
 #[cfg(test)]
 mod tests;
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..d0b0d04 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,12 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = super::CharOffsets<Self>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        super::CharOffsets::new(self.clone())
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 5433a10..ec95436 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,12 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = super::CharOffsets<crate::queue::OwnedCharIter<'a>>;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        super::CharOffsets::new(self.clone().into_chars())
     }
 
     #[inline]
-- 
2.43.0


From 1939af6d729eead78da99955cf0e36fd3a373f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 34/45] fix: deserialize byte values from the sequence form
 they are serialized to in text formats

---
 src/serde_1/bytedata.rs     | 14 +++++++++++++-
 src/serde_1/mod.rs          | 14 ++++++++++++++
 src/serde_1/shared_bytes.rs |  7 ++++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..c880a68 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -92,7 +92,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
     }
 }
 
-impl serde::de::Visitor<'_> for StaticByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for StaticByteDataVisitor {
     type Value = ByteData<'static>;
 
     #[inline]
@@ -124,6 +124,12 @@ impl serde::de::Visitor<'_> for StaticByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_seq(seq).map(ByteData::from_owned)
+    }
 }
 
 struct ByteDataVisitor;
@@ -166,6 +172,12 @@ impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_seq(seq).map(ByteData::from_owned)
+    }
 }
 
 /// Deserialize a byte sequence to a borrowed `ByteData` using `serde`.
diff --git a/src/serde_1/mod.rs b/src/serde_1/mod.rs
index 983bdac..705e7ae 100644
--- a/src/serde_1/mod.rs
+++ b/src/serde_1/mod.rs
@@ -6,6 +6,20 @@ mod stringdata;
 #[cfg(feature = "alloc")]
 mod shared_bytes;
 
+/// Collect the bytes of a sequence, which is how formats without a byte string type represent bytes.
+#[cfg(feature = "alloc")]
+fn collect_seq<'de, A: serde::de::SeqAccess<'de>>(
+    mut seq: A,
+) -> Result<alloc::vec::Vec<u8>, A::Error> {
+    // the size hint is not trusted
+    let capacity = seq.size_hint().unwrap_or_default().min(4096);
+    let mut vec = alloc::vec::Vec::with_capacity(capacity);
+    while let Some(byte) = seq.next_element()? {
+        vec.push(byte);
+    }
+    Ok(vec)
+}
+
 struct OptVisit<V>(V);
 
 impl<
diff --git a/src/serde_1/shared_bytes.rs b/src/serde_1/shared_bytes.rs
index f5be801..21e852d 100644
--- a/src/serde_1/shared_bytes.rs
+++ b/src/serde_1/shared_bytes.rs
@@ -13,7 +13,7 @@ impl serde::ser::Serialize for SharedBytes {
 
 struct ByteDataVisitor;
 
-impl serde::de::Visitor<'_> for ByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     type Value = SharedBytes;
 
     #[inline]
@@ -35,6 +35,11 @@ impl serde::de::Visitor<'_> for ByteDataVisitor {
     {
         Ok(v.into())
     }
+
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_seq(seq).map(Into::into)
+    }
 }
 
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
-- 
2.43.0


From 52ba96a439e94eedbd54f16aad4ba9d2fedf4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 35/45] fix: serde_1 compiles without alloc

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index c880a68..33f17d6 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -205,7 +205,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0


From 51faeb15a9e08725ba5972635df4fdf722bec0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 36/45] fix: apply_borrowed_buf takes no bytes from a replaced
 buffer

A closure which replaced the buffer with another one, holding no more bytes
than the reserved capacity, made uninitialised memory part of the builder.
---
 src/shared_bytes_builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 787c984..2685f8e 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -618,7 +618,7 @@ impl SharedBytesBuilder {
     ///
     /// # Panics
     ///
-    /// Panics if the buffer was replaced with one containing more bytes than the reserved capacity.
+    /// Panics if the buffer was replaced with another one containing any bytes.
     #[inline]
     pub fn apply_borrowed_buf<'this, R, F>(&'this mut self, fun: F) -> R
     where
@@ -637,12 +637,16 @@ impl SharedBytesBuilder {
             core::io::BorrowedBuf::from(data)
         };
         let ret = fun(&mut bb);
-        #[allow(clippy::cast_possible_truncation)]
-        let len = bb.len() as u32;
+        let filled = bb.filled();
+        // only bytes written to the reserved capacity are part of the builder
         assert!(
-            len <= self.len.saturating_sub(self.off),
-            "SharedBytesBuilder::apply_borrowed_buf: returned length exceeds reserved capacity"
+            filled.is_empty()
+                || (filled.len() <= (self.len as usize).saturating_sub(off)
+                    && core::ptr::eq(filled.as_ptr(), self.dat.wrapping_add(off))),
+            "SharedBytesBuilder::apply_borrowed_buf: the buffer was replaced"
         );
+        #[allow(clippy::cast_possible_truncation)]
+        let len = filled.len() as u32;
         self.off += len;
         ret
     }
-- 
2.43.0


From 6827d2d3be36fb8d4051856fe28e9fb6a9ad193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 37/45] fix: const_slice_str accepts an empty range at the end

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f815163..6793214 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,7 +380,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From f055babb9bb91b1e6551e9736aebaae41fe3ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 38/45] fix: width and precision apply to a displayed
 StringQueue as a whole, not to each chunk

---
 src/queue/string_queue.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 4fce109..a5ca36c 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -538,8 +538,31 @@ impl core::fmt::Display for crate::StringQueue<'_> {
     #[inline]
     #[allow(clippy::min_ident_chars)]
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for chunk in self.chunks() {
-            core::fmt::Display::fmt(chunk, f)?;
+        use core::fmt::Write;
+        if f.width().is_none() && f.precision().is_none() {
+            for chunk in self.chunks() {
+                f.write_str(chunk.as_str())?;
+            }
+            return Ok(());
+        }
+        // width and precision apply to the text as a whole, not to each chunk
+        let max = f.precision().unwrap_or(usize::MAX);
+        let count = self.chars().take(max).count();
+        let pad = f.width().unwrap_or_default().saturating_sub(count);
+        let before = match f.align() {
+            Some(core::fmt::Alignment::Right) => pad,
+            Some(core::fmt::Alignment::Center) => pad / 2,
+            Some(core::fmt::Alignment::Left) | None => 0,
+        };
+        let fill = f.fill();
+        for _ in 0..before {
+            f.write_char(fill)?;
+        }
+        for ch in self.chars().take(max) {
+            f.write_char(ch)?;
+        }
+        for _ in before..pad {
+            f.write_char(fill)?;
         }
         Ok(())
     }
-- 
2.43.0


From 17f79db0ea5d909ed5c10ce96499865e9ab69b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 39/45] fix: collecting into ByteData allocates little for an
 upper bound

---
 src/bytedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 553d150..2d8e851 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1222,7 +1222,8 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            // The upper bound may be far above what the iterator yields, so only little is allocated for it up front.
+            (min, Some(siz)) => min.saturating_add((siz.saturating_sub(min) >> 2_u8).min(4096)),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From 36ad7d58840b9ab9ac01ee719dbdf390956551ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 40/45] fix: StringData::arbitrary_take_rest stops at the end
 of the input

---
 src/arbitrary_1/stringdata.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..35b805f 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -89,7 +89,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             &Choice::Chunk => {
                 let mut buf = [0_u8; 18];
                 let mut len = 0;
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     let encoded = ch.encode_utf8(&mut buf[len..]);
                     let new_len = len + encoded.len();
                     if new_len < 14 {
@@ -107,7 +108,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0


From c6b7b199cd87bb7e1e37ea155d194f166bd4642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 41/45] fix: free an external value's allocations when its
 destructor panics

---
 src/external.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 45bccf1..0d9293b 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -121,6 +121,19 @@ unsafe impl Sync for ExtBytes {}
 
 pub(crate) const KIND_EXT_BYTES: u8 = 0b0000_0011;
 
+/// Frees the allocation of an `ExtBytes`.
+struct Dealloc {
+    data: *mut u8,
+    layout: core::alloc::Layout,
+}
+
+impl Drop for Dealloc {
+    fn drop(&mut self) {
+        // SAFETY: `data` is a valid pointer to an allocated area.
+        unsafe { alloc::alloc::dealloc(self.data, self.layout) };
+    }
+}
+
 impl ExtBytes {
     const MAGIC: [u8; 8] = [KIND_EXT_BYTES, 0, 0, 0, 0, 0, 0, 0];
 
@@ -393,8 +406,9 @@ impl Drop for ExtBytes {
         );
         debug_assert!(!self.data.is_null(), "null pointer in ExtBytes");
 
-        // SAFETY: `data` is a valid pointer to a boxed `ExtBytesRef`.
-        let ext_ref = unsafe { &mut *self.data.cast_mut() };
+        // SAFETY: `data` is a valid pointer to a boxed `ExtBytesRef`, which is freed on return.
+        let ext_ref = unsafe { alloc::boxed::Box::from_raw(self.data.cast_mut()) };
+        self.data = core::ptr::null();
         debug_assert!(!ext_ref.data.is_null(), "null pointer in ExtBytes");
         // SAFETY: `ext_ref.data` is a valid pointer to a `ExtBytesWrapper`.
         let header = unsafe { &*ext_ref.data };
@@ -402,6 +416,14 @@ impl Drop for ExtBytes {
             .ref_count
             .fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
         if ref_count == 1 {
+            #[allow(clippy::unwrap_used)]
+            let layout =
+                core::alloc::Layout::from_size_align(header.alloc, header.align as usize).unwrap();
+            // Frees the allocation on return, also if dropping the payload panics.
+            let _dealloc = Dealloc {
+                data: ext_ref.data.cast::<u8>().cast_mut(),
+                layout,
+            };
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
@@ -413,15 +435,7 @@ impl Drop for ExtBytes {
                 // SAFETY: `ptr` is a valid pointer to the data, which should be dropped.
                 unsafe { drop(ptr.cast()) };
             }
-            #[allow(clippy::unwrap_used)]
-            let layout =
-                core::alloc::Layout::from_size_align(header.alloc, header.align as usize).unwrap();
-            // SAFETY: `ext_ref.data` is a valid pointer to an allocated area.
-            unsafe { alloc::alloc::dealloc(ext_ref.data.cast::<u8>().cast_mut(), layout) };
         }
-        // SAFETY: `ext_ref` is a valid pointer to a boxed `ExtBytesRef`.
-        core::mem::drop(unsafe { alloc::boxed::Box::from_raw(ext_ref) });
-        self.data = core::ptr::null();
     }
 }
 
-- 
2.43.0


From 472ca5d3c511f2e283c7cb81569b24c30f1f604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 42/45] fix: release an external value when its as_slice panics
 during conversion

---
 src/external.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 0d9293b..3ca66ef 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -134,6 +134,21 @@ impl Drop for Dealloc {
     }
 }
 
+/// Drops the payload and frees the allocation of an `ExtBytes` under construction.
+struct CreateGuard<T: ExternalBytes> {
+    payload: *mut T,
+    _dealloc: Dealloc,
+}
+
+impl<T: ExternalBytes> Drop for CreateGuard<T> {
+    fn drop(&mut self) {
+        if let Some(drop) = T::OPS.drop {
+            // SAFETY: `payload` is a valid pointer to `T` which should be dropped.
+            unsafe { drop(self.payload) };
+        }
+    }
+}
+
 impl ExtBytes {
     const MAGIC: [u8; 8] = [KIND_EXT_BYTES, 0, 0, 0, 0, 0, 0, 0];
 
@@ -177,21 +192,22 @@ impl ExtBytes {
                 payload.write(ext_bytes);
             };
 
+            // Releases the payload and the allocation unless they are handed over to the result,
+            // also if `as_slice` panics.
+            let guard = CreateGuard {
+                payload,
+                _dealloc: Dealloc { data, layout },
+            };
+
             // SAFETY: `payload` is a valid pointer to `T::External` as we just wrote to it.
             let sl = as_slice(unsafe { &*payload });
             let len = sl.len();
             let ptr = sl.as_ptr();
 
             if len <= crate::ByteChunk::LEN {
-                let aa = crate::ByteData::from_chunk_slice(sl);
-                if let Some(drop) = <T::External>::OPS.drop {
-                    // SAFETY: `payload` is a valid pointer to `T` which should be dropped.
-                    unsafe { drop(payload) };
-                }
-                // SAFETY: `data` is a valid pointer to an allocated area.
-                unsafe { alloc::alloc::dealloc(data, layout) };
-                return aa;
+                return crate::ByteData::from_chunk_slice(sl);
             }
+            core::mem::forget(guard);
 
             #[allow(clippy::cast_ptr_alignment)]
             let header = data.cast::<ExtBytesWrapper>();
-- 
2.43.0


From ef3a5067f89e83a2f82a65a1f3a401b9d676341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 43/45] fix: leaking 2^32 clones of a SharedBytes wraps its
 reference count, freeing the data while it is in use

---
 src/bytes_1/shared_bytes.rs |  2 +-
 src/shared_bytes.rs         | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index bc11a91..70e8500 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -14,7 +14,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     clone: |data, ptr, len| {
         let p = data.load(Ordering::Relaxed);
         let meta = unsafe { &*(p as *const crate::SharedBytesMeta) };
-        meta.refcnt.fetch_add(1, Ordering::Relaxed);
+        meta.check_refs(meta.refcnt.fetch_add(1, Ordering::Relaxed));
         super::SBytes {
             ptr,
             len,
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 9bbfc75..60cf0f7 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -51,6 +51,22 @@ impl SharedBytesMeta {
         4_usize << self.info
     }
 
+    /// Takes back a reference that has just been added to `refs` others, if there are too many of them. Without this the
+    /// count could wrap around, as references may be leaked, and the data be freed while it is in use.
+    ///
+    /// # Panics
+    ///
+    /// Panics if there are too many references.
+    #[inline]
+    #[allow(clippy::cast_sign_loss)]
+    pub(crate) fn check_refs(&self, refs: u32) {
+        if refs > i32::MAX as u32 {
+            self.refcnt
+                .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            panic!("SharedBytes: too many references");
+        }
+    }
+
     pub(crate) const fn compute_start_offset(align: usize) -> u32 {
         #[allow(
             clippy::cast_possible_truncation,
@@ -268,9 +284,11 @@ impl SharedBytes {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = self.dat().cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
-        unsafe { &*meta }
+        let refs = unsafe { &*meta }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
+        // SAFETY: `meta` is a valid pointer.
+        unsafe { &*meta }.check_refs(refs);
         Self {
             len,
             off,
@@ -417,9 +435,11 @@ impl Clone for SharedBytes {
         #[allow(clippy::cast_ptr_alignment)]
         let dat = dat.cast::<SharedBytesMeta>();
         // SAFETY: `dat` is a valid pointer.
-        unsafe { &*dat }
+        let refs = unsafe { &*dat }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
+        // SAFETY: `dat` is a valid pointer.
+        unsafe { &*dat }.check_refs(refs);
         Self {
             len: self.len,
             off: self.off,
-- 
2.43.0


From cd6afab29588bed1ad31281f717fa4b4e9a7cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 44/45] fix: stop generating chunks when an arbitrary queue is
 full

Without `alloc` a queue holds a limited number of chunks, so a longer input
made `arbitrary` and `arbitrary_take_rest` panic with "out of space".
---
 src/arbitrary_1/byte_queue.rs   | 4 ++--
 src/arbitrary_1/string_queue.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary_1/byte_queue.rs b/src/arbitrary_1/byte_queue.rs
index 1f654f2..5376af9 100644
--- a/src/arbitrary_1/byte_queue.rs
+++ b/src/arbitrary_1/byte_queue.rs
@@ -13,7 +13,7 @@ impl<'a> Arbitrary<'a> for ByteQueue<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
         let mut maxlen = u.arbitrary_len::<ByteData<'a>>()?;
-        while !u.is_empty() && maxlen != 0 {
+        while !u.is_empty() && maxlen != 0 && !buffer.is_full() {
             let data = u.arbitrary::<ByteData<'a>>()?;
             maxlen -= 1;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
@@ -33,7 +33,7 @@ impl<'a> Arbitrary<'a> for ByteQueue<'a> {
     )]
     fn arbitrary_take_rest(mut u: Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
-        while !u.is_empty() {
+        while !u.is_empty() && !buffer.is_full() {
             let data = u.arbitrary::<ByteData<'a>>()?;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
             if dir {
diff --git a/src/arbitrary_1/string_queue.rs b/src/arbitrary_1/string_queue.rs
index fbd3afd..081c6e6 100644
--- a/src/arbitrary_1/string_queue.rs
+++ b/src/arbitrary_1/string_queue.rs
@@ -13,7 +13,7 @@ impl<'a> Arbitrary<'a> for StringQueue<'a> {
     fn arbitrary(u: &mut Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
         let mut maxlen = u.arbitrary_len::<StringData<'a>>()?;
-        while !u.is_empty() && maxlen != 0 {
+        while !u.is_empty() && maxlen != 0 && !buffer.is_full() {
             let data = u.arbitrary::<StringData<'a>>()?;
             maxlen -= 1;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
@@ -33,7 +33,7 @@ impl<'a> Arbitrary<'a> for StringQueue<'a> {
     )]
     fn arbitrary_take_rest(mut u: Unstructured<'a>) -> Result<Self, Error> {
         let mut buffer = Self::new();
-        while !u.is_empty() {
+        while !u.is_empty() && !buffer.is_full() {
             let data = u.arbitrary::<StringData<'a>>()?;
             let dir = u.arbitrary::<bool>().unwrap_or_default();
             if dir {
-- 
2.43.0


From 4cb4708ea0eed3a5a19ab19895897ca2decccf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 45/45] fix: SharedBytes::from_slice_aligned with an alignment
 of 2^32 or more writes the data over the reference count

---
 src/shared_bytes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 60cf0f7..753221f 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -130,6 +130,11 @@ impl SharedBytes {
     pub fn from_slice_aligned(dat: &[u8], align: usize) -> Self {
         fn from_slice_aligned_inner(dat: &[u8], align: usize) -> SharedBytes {
             let align = core::mem::align_of::<SharedBytesMeta>().max(align);
+            // the start of the data must fit in `off`
+            assert!(
+                align <= 0x8000_0000,
+                "SharedBytes::from_slice_aligned: alignment too large"
+            );
             let off = SharedBytesMeta::compute_start_offset(align) as usize;
             let max_size: usize = 0xFFFF_FFFF - off;
             assert!(
-- 
2.43.0

