From ecb83276b8f41caa86dffcb3e2f3eca53f08d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 01/21] fix: saturate byte count arithmetic instead of
 overflowing

---
 src/byte_count.rs | 4 ++--
 src/combinator.rs | 2 +-
 src/eos.rs        | 2 +-
 src/tuple.rs      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..2956ce4 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1020,7 +1020,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..998a301 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -125,7 +125,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64$(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0


From 195fb5f42d24a8f19e7ca9c6904541342d7ccec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 02/21] fix: Length decoder counts the current buffer only once
 when checking EOS

---
 src/combinator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 2956ce4..48fece8 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -724,8 +724,8 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
+            let remaining = remaining.saturating_add((buf.len() - limit) as u64);
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From 8a3ed652cdb01b876e51490c0150665cea331cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 03/21] fix: RemainingBytesDecoder panicked if the announced
 stream length was too large

---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..a6a81c0 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,10 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // This is only a hint, so failing to reserve an oversized buffer is not an error
+            let additional = (buf.len() as u64).saturating_add(remaining);
+            let additional = cmp::min(additional, usize::MAX as u64) as usize;
+            let _ = self.buf.try_reserve_exact(additional);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From 7fa32f90cce3e529082a9fe8472389fe33119901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 04/21] fix: MonolithicDecoder consumed bytes while an item was
 waiting for finish_decoding

---
 src/monolithic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..78ccc71 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,7 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
-        if eos.is_reached() {
+        if self.item.is_some() {
+            Ok(0)
+        } else if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
                 self.inner.monolithic_decode(self.buf.as_slice().chain(buf.by_ref()));
-- 
2.43.0


From 7f785ef8f898c7f82d66123070680664eada40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/21] fix: MonolithicEncoder ignored EOS when the first
 buffer was too small

---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index 78ccc71..93281d5 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -142,6 +142,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
             if extra.is_empty() {
                 Ok(original_len - buf.len())
             } else {
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos; original_len, extra.len());
                 track!(self.buf.start_encoding(extra))?;
                 Ok(original_len)
             }
-- 
2.43.0


From e40dd395940a6164ee9f2a57334495f8c5bbd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/21] fix: Repeat encoder stalled on items encoded to zero
 bytes

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 48fece8..2b85d27 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From 28ef4d2f946642e67df04635910459bc2b3c411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 07/21] fix: Collect decoder silently dropped the last item
 when EOS came in a separate call

---
 src/combinator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 2b85d27..a9fcb62 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    started: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            started: false,
             eos: false,
         }
     }
@@ -625,11 +627,13 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
+        while offset < buf.len() || (self.started && eos.is_reached()) {
+            self.started = true;
             bytecodec_try_decode!(self.inner, offset, buf, eos);
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
+            self.started = false;
         }
         if eos.is_reached() {
             self.eos = true;
-- 
2.43.0


From ff5ceffa35a2c4a8becebff0b6e141e90db5f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 08/21] fix: CollectN decoder never finished if the last items
 need no bytes

---
 src/combinator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index a9fcb62..bde5976 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -855,7 +855,9 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
+        while self.remaining_items != 0
+            && (offset < buf.len() || self.inner.requiring_bytes() == ByteCount::Finite(0))
+        {
             bytecodec_try_decode!(self.inner, offset, buf, eos);
 
             let item = track!(self.inner.finish_decoding())?;
-- 
2.43.0


From 1d2167626fb952ce057fc29134a82bbd46824f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/21] fix: Length encoder could not be used for more than one
 item

---
 src/combinator.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index bde5976..ae30ad6 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -757,6 +757,9 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -775,31 +778,41 @@ impl<E: Encode> Encode for Length<E> {
                 ErrorKind::InvalidInput,
                 "Too small item"
             );
+            self.remaining_bytes = self.expected_bytes;
         }
         Ok(size)
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
         self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        if self.inner.is_idle() {
+            track_assert_eq!(
+                self.expected_bytes,
+                0,
+                ErrorKind::InvalidInput,
+                "Too small item"
+            );
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle()
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 3eeef42547eac261e4cbe35c25545d9fc1a545a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 10/21] fix: TupleEncoder accepted part of a new item while
 still busy

---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 998a301..0ae17ad 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From 18d52b3c81005e1d5965b623b87c5f50da588a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 11/21] fix: TupleDecoder lost decoded components if finished
 too early

---
 src/tuple.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tuple.rs b/src/tuple.rs
index 0ae17ad..6a9697a 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,6 +43,7 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
                 Ok((
                     $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
                 ))
-- 
2.43.0


From 33ab3cd3b30552ce1ff291dc73b962a8b1358931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 12/21] fix: AndThen lost its progress if finished too early

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index ae30ad6..64691ff 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
-- 
2.43.0


From 7c4c11e942966c6d0914daf783ed191f5d53532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 13/21] fix: MaxBytes decoder forgot the consumed bytes if
 finished too early

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 64691ff..bbd4d2c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1052,6 +1052,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         self.consumed_bytes = 0;
         track!(self.inner.finish_decoding())
     }
-- 
2.43.0


From edef7a9c494ff2857b489f5724fdf5af87e34768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 14/21] fix: MaybeEos forgot that an item was started if
 finished too early

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index bbd4d2c..4e74f11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1459,6 +1459,7 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         self.started = false;
         track!(self.inner.finish_decoding())
     }
-- 
2.43.0


From 54cf8832fdc69e1dd5bc4f804c77718372f2c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 15/21] fix: MaxBytes encoder refused every item after one that
 was too long

---
 src/combinator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 4e74f11..ecd52b9 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1069,6 +1069,9 @@ impl<E: Encode> Encode for MaxBytes<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
         let size = track!(self.inner.encode(buf, eos))?;
         self.consumed_bytes += size as u64;
         track_assert!(self.consumed_bytes <= self.max_bytes,
@@ -1081,6 +1084,9 @@ impl<E: Encode> Encode for MaxBytes<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        if self.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.start_encoding(item))
     }
 
-- 
2.43.0


From 444861fca8a136acddc95d098ea0a5411d647208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 16/21] fix: Length encoder announced the wrong end of stream
 to its inner encoder

---
 src/combinator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index ecd52b9..6b25f07 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -766,7 +766,11 @@ impl<E: Encode> Encode for Length<E> {
         }
 
         let (limit, eos) = if (buf.len() as u64) < self.remaining_bytes {
-            (buf.len(), eos)
+            let rest = self.remaining_bytes - buf.len() as u64;
+            (
+                buf.len(),
+                Eos::with_remaining_bytes(ByteCount::Finite(rest)),
+            )
         } else {
             (self.remaining_bytes as usize, Eos::new(true))
         };
-- 
2.43.0


From a1d537ee19f2f62c929c56de76c6de58ba0a70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 17/21] fix: Length decoder forgot the remaining bytes if
 finished too early

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 6b25f07..ab3c973 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -740,6 +740,7 @@ impl<D: Decode> Decode for Length<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         track_assert_eq!(self.remaining_bytes, 0, ErrorKind::IncompleteDecoding);
         self.remaining_bytes = self.expected_bytes;
 
-- 
2.43.0


From 301ebe3840086ed2452f22b1822ce1f4092418ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 18/21] fix: CollectN decoder failed if EOS came in a separate
 call

---
 src/combinator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index ab3c973..25a8eab 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -830,6 +830,7 @@ pub struct CollectN<D, T> {
     inner: D,
     remaining_items: usize,
     items: T,
+    started: bool,
 }
 impl<D, T: Default> CollectN<D, T> {
     /// Returns the number of remaining items expected to be decoded.
@@ -862,6 +863,7 @@ impl<D, T: Default> CollectN<D, T> {
             inner,
             remaining_items: count,
             items: T::default(),
+            started: false,
         }
     }
 }
@@ -875,12 +877,16 @@ where
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
         while self.remaining_items != 0
-            && (offset < buf.len() || self.inner.requiring_bytes() == ByteCount::Finite(0))
+            && (offset < buf.len()
+                || (self.started && eos.is_reached())
+                || self.inner.requiring_bytes() == ByteCount::Finite(0))
         {
+            self.started = true;
             bytecodec_try_decode!(self.inner, offset, buf, eos);
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
+            self.started = false;
             self.remaining_items -= 1;
         }
         if self.remaining_items != 0 {
-- 
2.43.0


From 5d791aff7d63f4a9b3fee5e6504761053cd97a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 19/21] fix: Last encoder stopped early if its inner encoder
 was still busy

---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 25a8eab..b09cb7d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1311,12 +1311,13 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
-            if let Some(item) = self.item.take() {
-                track!(self.inner.start_encoding(item))?;
-            }
+        let mut offset = 0;
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        if let Some(item) = self.item.take() {
+            track!(self.inner.start_encoding(item))?;
         }
-        track!(self.inner.encode(buf, eos))
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From 3789866da6aa83d23278f24e46f251ee257a2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 20/21] fix: decode_exact no longer loops forever when a
 decoder asks for no bytes or ignores the end of the stream

---
 src/io.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..22b4a5d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -28,10 +28,10 @@ pub trait IoDecodeExt: Decode {
     ///
     /// Note that this is a blocking method.
     fn decode_exact<R: Read>(&mut self, mut reader: R) -> Result<Self::Item> {
-        let mut buf = [0; 1024];
+        let (mut buf, mut least) = ([0; 1024], 0);
         loop {
             let mut size = match self.requiring_bytes() {
-                ByteCount::Finite(n) => cmp::min(n, buf.len() as u64) as usize,
+                ByteCount::Finite(n) => cmp::min(cmp::max(n, least), buf.len() as u64) as usize,
                 ByteCount::Infinite => buf.len(),
                 ByteCount::Unknown => 1,
             };
@@ -48,6 +48,10 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+
+            // If the decoder did not proceed without a byte, the next one (or EOS) is needed.
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
+            least = u64::from(size == 0);
         }
     }
 }
-- 
2.43.0


From ae0adca3a370a3507f8e6be07a5b662c6f176c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 21/21] fix: poll_flush wakes the task that waits for room in
 the write buffer

---
 src/io_async.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..2a7f44d 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -77,6 +77,9 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                     if self.head == self.tail {
                         self.head = 0;
                         self.tail = 0;
+                        if let Some(ref waker) = self.waker {
+                            waker.wake_by_ref();
+                        }
                     }
                 }
                 Poll::Pending => {
-- 
2.43.0

