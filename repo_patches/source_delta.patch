From 7f7fe35747468cacba795380930221c2bdf911cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 1/7] fix: refuse invalid field tags in all build profiles

The writer methods document that they panic for an invalid tag, but only
an assertion compiled out of release builds did so; there, tag 0 wrote a
special descriptor and tags above 63 changed the field type.
---
 src/wire.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wire.rs b/src/wire.rs
index 39cee78..02971ea 100644
--- a/src/wire.rs
+++ b/src/wire.rs
@@ -107,7 +107,7 @@ impl From<ParsedDescriptor> for Descriptor {
     fn from(d: ParsedDescriptor) -> Self {
         Descriptor(match d {
             ParsedDescriptor::Pair(ty, tag) => {
-                debug_assert!(tag >= 1 && tag <= 63);
+                assert!(tag >= 1 && tag <= 63);
                 tag | (ty as u8)
             },
             ParsedDescriptor::Special(ty) => ty as u8
-- 
2.43.0


From 5ee84cd11fde65346a7122049abb9fa14bf35d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 2/7] fix: charge the full amount in Context::collect

collect(n) only ever counted one item, so max_collect could be exceeded by
callers passing n > 1.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From 00eeb7bbd721efe9ae0cbb09c782ea25df9efbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 3/7] fix: report truncated blobs from Blob::read_fully

If the underlying stream ended inside the blob, the bytes read so far were
returned as if they were the whole blob.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..0fa105f 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1164,6 +1164,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From dd9051e3ac491e7ceb93434a1af7a1426a23fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 4/7] fix: do not overflow on Blob seeks by i64::MIN

---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 0fa105f..f125bf6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1323,13 +1323,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From 7ac8ee674705de42b23dd31f567a780c5c566858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 5/7] fix: return an error for a dynamic blob header past
 u64::MAX

The nominal length underflowed when the header could not fit before the
maximum stream position.
---
 src/stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream.rs b/src/stream.rs
index f125bf6..660dd71 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -899,6 +899,7 @@ impl<R> Stream<R> {
                                     -> Result<Blob<R>>
     where R : Write + Seek {
         self.write_desc(desc)?;
+        self.check_advance_pos(10)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
 
-- 
2.43.0


From 48e7c735bf2c67b2ed173b0aa7e5a68e0e518a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 6/7] fix: report duplicate retrofitted fields as too many
 occurrences

---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From 8d864674e8f2685d520a1acba27398f5b6759d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 7/7] fix: do not panic when a cursor is positioned past its
 end

Skipping or seeking over a truncated blob can leave the cursor past the end
of its slice; the unconsumed portion is then empty.
---
 src/io.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..c017591 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,6 +9,7 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp::min;
 use std::io::{self, BufRead, Read, Seek, Write};
 
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
@@ -56,16 +57,19 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let buf = self.0.get_ref().as_ref();
+        let pos = min(self.0.position(), buf.len() as u64) as usize;
+        &buf[pos..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let pos = min(pos, buf.len() as u64) as usize;
+        &mut buf[pos..]
     }
 }
 
@@ -84,7 +88,8 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        let pos = min(self.position(), buf.len() as u64) as usize;
+        &buf[pos..]
     }
 }
 
-- 
2.43.0

