From b08eb1292393295668d3adb5d72fe3e01fe0227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 01/11] fix: look up restored literals in the preroll and data
 together

Scanner positions count from the start of the preroll, so with a preroll
restore() took the wrong byte, or panicked, for every mispredicted literal.
---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From c76835bf2b2a4ab9220703d6c894e2514fa24dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 02/11] fix: write the lengths of stored blocks little-endian

RFC 1951 and our own reader have them least significant byte first.
---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From f817d79fcfab5979f10a9e49d5dbcc505b0d3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 03/11] fix: clear the popped bit of a BitVec

A later push(false) left it set, and it took part in comparisons.
---
 lib/src/bit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 94eeed7..2e20337 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -236,6 +236,8 @@ impl BitVec {
 
         if self.len % WORD_SIZE == 0 {
             self.bytes.pop();
+        } else {
+            self.bytes[self.len / WORD_SIZE] &= !(1 << (self.len % WORD_SIZE));
         }
 
         Some(answer)
-- 
2.43.0


From b4fefeb0a501aa9a5afbeeb9b683fa16e2af00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 04/11] fix: keep zero's blocks within the length a stored
 block can hold

A block of 65536 bytes was written with a length of 0.
---
 rezippers/src/zero.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..ca6deec 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,7 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 07b02bdaacda4ad378577938136c458606e7125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 05/11] fix: list the contents of a full history buffer of the
 largest capacity

1 + 65535 overflowed.
---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From b98dd9a917f3f5c36b1899057218e76a82069a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 06/11] fix: do not take a cut or failed metadata record for
 the end

A single trailing byte, or a source failing with UnexpectedEof, ended the
trace silently.
---
 lib/src/serialise_trace.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..a656e10 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -3,7 +3,6 @@ use std::io;
 use std::io::Read;
 use std::u16;
 
-use anyhow::bail;
 use anyhow::Error;
 use byteorder::LittleEndian as LE;
 use byteorder::ReadBytesExt;
@@ -65,12 +64,8 @@ pub fn write(traces: &[Trace]) -> Vec<u8> {
 pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
-    loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
-            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
-            Err(e) => bail!(e),
-        };
+    while let Some(low) = data.by_ref().bytes().next() {
+        let first = u16::from_le_bytes([low?, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0


From 1b3633fd905356f0600cd5d76f6b91f0bdb684c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 07/11] fix: let zero deal with an empty file

---
 rezippers/src/zero.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index ca6deec..4ac61cd 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -59,13 +59,13 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-    assert!(
-        reader.peek().is_some(),
-        "TODO: can't deal with an empty file"
-    );
-
     writer.write_all(&orig_header)?;
 
+    if reader.peek().is_none() {
+        // an empty file still needs a block: uncompressed, end of file
+        writer.write_all(&[0b0000_0001, 0, 0, 0xff, 0xff])?;
+    }
+
     let mut data_len = 0u32;
     let mut data_csum = CRC32.digest();
 
-- 
2.43.0


From 5028aa3cc978f34bb4a0c63a38581b3187d856f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 08/11] Export private items to the verification harness under
 --cfg rezip_verif

---
 lib/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..b7bb3f8 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -166,6 +166,19 @@ impl fmt::Debug for Ref {
     }
 }
 
+/// Private items for the verification harness; only with `--cfg rezip_verif`.
+#[cfg(rezip_verif)]
+pub mod verif {
+    pub use crate::bit::BitReader;
+    pub use crate::bit::BitVec;
+    pub use crate::bit::BitWriter;
+    pub use crate::lookahead::Lookahead;
+
+    pub fn make_ref(dist: u16, run: u16) -> crate::Ref {
+        crate::Ref::new(dist, run)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::Cursor;
-- 
2.43.0


From a61dc8a7b7dfab50568fc95833cf180ebbaf0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 09/11] fix: cat and zero report a failed final write instead
 of dropping it

---
 rezippers/src/cat.rs  | 3 +++
 rezippers/src/zero.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..773269c 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,7 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
+
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 4ac61cd..8597649 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -94,5 +94,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 81cf348bf54abfe99397118b0b6db7391ac7aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 10/11] fix: give up the second search for long matches, not
 for short ones

The look-ahead is to be aborted if the run found is at least
abort_above_length, as its documentation says (and gzip does); the
comparison was the wrong way round.
---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 4241ad5..aa9e7ea 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -126,7 +126,7 @@ impl<'t, 'a, 'p, 'd, 'o> Looker for Scanner<'t, 'a, 'p, 'd> {
 
         if let Some(run) = other {
             if let Some(lookahead) = self.technique.config.wams.lookahead {
-                if lookahead.abort_above_length > run {
+                if run >= lookahead.abort_above_length {
                     return (current_literal, None);
                 }
 
-- 
2.43.0


From 01436f6e8f995e4750ca8c794ecdc66264f3eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:50 +0000
Subject: [PATCH 11/11] fix: the block iterator ends after an error instead of
 reading on

---
 lib/src/parse.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/src/parse.rs b/lib/src/parse.rs
index 75e7394..62c3897 100644
--- a/lib/src/parse.rs
+++ b/lib/src/parse.rs
@@ -16,18 +16,37 @@ pub fn parse_deflate<R: Read>(bytes: R) -> BlockIter<R> {
     BlockIter {
         inner: BitReader::new(bytes),
         end: false,
+        failed: false,
     }
 }
 
 pub struct BlockIter<R: Read> {
     inner: BitReader<R>,
     end: bool,
+    failed: bool,
 }
 
 impl<R: Read> Iterator for BlockIter<R> {
     type Item = Result<Block, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.failed {
+            // whatever follows a fault isn't a block
+            return None;
+        }
+
+        let item = self.next_block();
+
+        if let Some(Err(_)) = item {
+            self.failed = true;
+        }
+
+        item
+    }
+}
+
+impl<R: Read> BlockIter<R> {
+    fn next_block(&mut self) -> Option<Result<Block, Error>> {
         if self.end {
             return match self.inner.align() {
                 Ok(()) => None,
-- 
2.43.0

