From 724d50ccf9ace78cf107d88967fa6bc72d923442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:17 +0000
Subject: [PATCH 01/29] fix: bound write_to and mem_map of a file body by its
 length

A body over a longer file wrote or mapped the whole file, and write_to
returned success for a file which is too short.
---
 body-image/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..adb217d 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,14 +53,14 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
 
 #[cfg(feature = "mmap")]
 use {
-    memmap::Mmap,
+    memmap::{Mmap, MmapOptions},
     olio::mem::{MemAdvice, MemHandle},
     _mem_handle_ext::MemHandleExt,
 };
@@ -522,7 +522,9 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                unsafe {
+                    MmapOptions::new().len(self.len as usize).map(&file)
+                }?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +677,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,18 +700,26 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                copy_slice(ReadSlice::new(f.clone(), 0, self.len), out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
-                let mut rs = rslice.clone();
-                io::copy(&mut rs, out)?;
+                copy_slice(rslice.clone(), out)?;
             }
         }
         Ok(self.len)
     }
 }
 
+// Copy all bytes of the file slice to out, or fail if the file is too short.
+fn copy_slice<W>(mut rslice: ReadSlice, out: &mut W) -> Result<(), BodyError>
+    where W: Write + ?Sized
+{
+    if io::copy(&mut rslice, out)? < rslice.len() {
+        return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+}
+
 // Create a new `FsRead` instance based on an existing `File`.
 fn image_from_file(file: File, length: u64) -> BodyImage {
     if length > 0 {
-- 
2.43.0


From 697af8ac9749018b6d99eed3d951f7b3ee9a68e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:48 +0000
Subject: [PATCH 02/29] fix: treat memory advice on mapped bodies as a hint

A body mapped from a file slice that does not start on a page boundary
cannot be given memory advice. Writing or streaming such a body failed.
The advice has no effect on the content, so a refusal is now ignored.
---
 body-image-futio/src/mem_map_buf.rs | 9 ++++-----
 body-image-futio/src/stream.rs      | 2 +-
 body-image/src/_mem_handle_ext.rs   | 6 ++++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..d510688 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -1,4 +1,3 @@
-use std::io;
 use std::ops::Deref;
 
 use bytes::Buf;
@@ -40,13 +39,13 @@ impl MemMapBuf {
     }
 
     /// Advise that we will be sequentially accessing the memory map region,
-    /// and that aggressive read-ahead is warranted.
-    pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+    /// and that aggressive read-ahead is warranted. This is only a hint, and
+    /// may be refused.
+    pub(crate) fn advise_sequential(&self) {
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
-        Ok(())
     }
 }
 
diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..f61b384 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -64,7 +64,7 @@ impl OutputBuf for UniBodyBuf {
     #[cfg(feature = "mmap")]
     fn from_mmap(mmap: MemHandle<Mmap>) -> Result<Self, io::Error> {
         let buf = MemMapBuf::new(mmap);
-        buf.advise_sequential()?;
+        buf.advise_sequential();
         let _b = buf.chunk()[0];
         debug!("MemMap prepared for sequential read (len: {})", buf.remaining());
         Ok(UniBodyBuf::from_mmap(buf))
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..107c7c0 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is only a hint, which the system refuses for example if the
+        // region does not start on a page boundary. Don't fail for it.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        self.advise(MemAdvice::Normal).ok();
         res
     }
 }
-- 
2.43.0


From c1fab187a1042784714509eef8592eec15c34f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:13 +0000
Subject: [PATCH 03/29] fix: take back a partial write to a file body sink on
 failure

A push that failed after writing part of its bytes left them in the
temporary file. The next push was then appended after the leftover.
---
 body-image/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index adb217d..86e86f9 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -282,7 +282,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    append(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -305,7 +305,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    append(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -365,6 +365,17 @@ impl BodySink {
     }
 }
 
+// Write all of buf to the end of file with current length len. On failure,
+// take back any part already written so the file still matches len.
+fn append(file: &mut File, len: u64, buf: &[u8]) -> Result<(), io::Error> {
+    let res = file.write_all(buf);
+    if res.is_err() {
+        file.seek(SeekFrom::Start(len))?;
+        file.set_len(len)?;
+    }
+    res
+}
+
 impl Default for BodySink {
     fn default() -> BodySink { BodySink::empty() }
 }
-- 
2.43.0


From 1b6c57a1653b6018ac510062abf422bf406919b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:45 +0000
Subject: [PATCH 04/29] fix: start a body image made from a file slice at the
 slice start

The read position of the slice given was kept. Exploding or streaming the
image then began part way through the body.
---
 body-image/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 86e86f9..146350b 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -747,7 +747,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
-        BodyImage { state: ImageState::FsReadSlice(rslice), len }
+        // Clone, for a slice positioned at its start
+        BodyImage { state: ImageState::FsReadSlice(rslice.clone()), len }
     } else {
         BodyImage::empty()
     }
-- 
2.43.0


From af25e9d3413b8ba7969a85dcfad524b8b0f9bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:38 +0000
Subject: [PATCH 05/29] fix: bound memory use when reading a body from a source

The fill loop tested the remaining space of a growable buffer, which is
practically unlimited. It read the whole source into RAM before looking at
the RAM and body size limits.
---
 body-image/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 146350b..4737b03 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -662,7 +662,8 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                // Note: BytesMut::remaining_mut isn't limited by capacity
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From 6736888cc34d55ea211f1439b95a1fbb1489bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:38 +0000
Subject: [PATCH 06/29] fix: count bytes already collected when continuing a
 body in a file

The maximum body size was compared only with the bytes read after the move
to a file, so a body could exceed it by the amount held in RAM before.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 4737b03..60552c3 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -763,7 +763,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From f0b84530cbc5de477e31b83b0d2121618d4037ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:40 +0000
Subject: [PATCH 07/29] fix: retry an interrupted file read in the body reader

A decoder on top of the reader treats the interruption as fatal but then
reports the end of the stream on the next read. The decoded body was
silently cut short.
---
 body-image/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 60552c3..ceb54f0 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -865,7 +865,13 @@ impl<'a> Read for BodyReader<'a> {
         match *self {
             BodyReader::Contiguous(ref mut cursor) => cursor.read(buf),
             BodyReader::Scattered(ref mut gatherer) => gatherer.read(buf),
-            BodyReader::FileSlice(ref mut rslice) => rslice.read(buf),
+            BodyReader::FileSlice(ref mut rslice) => loop {
+                // Retry here, since decoders on top don't recover from this
+                match rslice.read(buf) {
+                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                    res => break res,
+                }
+            }
         }
     }
 }
-- 
2.43.0


From bf5030121d67425aa57cde69e02da51e4bb8244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:06 +0000
Subject: [PATCH 08/29] fix: convert records with identity, compress or
 HTTP/3.0 back to dialogs

A Dialog carrying these values could be converted to a Record but not back.
---
 barc/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..093a83f 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -517,10 +518,12 @@ impl TryFrom<Record> for Dialog {
                 for enc in dcds.split(',') {
                     let enc = enc.trim();
                     encodes.push(match enc {
-                        "chunked" => Encoding::Chunked,
-                        "deflate" => Encoding::Deflate,
-                        "gzip"    => Encoding::Gzip,
-                        "br"      => Encoding::Brotli,
+                        "chunked"  => Encoding::Chunked,
+                        "compress" => Encoding::Compress,
+                        "deflate"  => Encoding::Deflate,
+                        "gzip"     => Encoding::Gzip,
+                        "br"       => Encoding::Brotli,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From 81c088efa4e73c19a1be411b4572bf612c306020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:47 +0000
Subject: [PATCH 09/29] fix: read header blocks of more than 128 headers

The writer places no limit on the number of headers, but records with more
than 128 in any one block could not be read back.
---
 barc/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 093a83f..a54fa11 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -596,6 +596,9 @@ impl Default for RecordType {
 
 const CRLF: &[u8] = b"\r\n";
 
+// Maximum number of headers read from a single block.
+const MAX_HEADERS: usize = 16 * 1024;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -1043,12 +1046,13 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // make room for each line, within what `http::HeaderMap` can hold.
+    let lines = buf.iter().filter(|b| **b == b'\n').count();
+    let mut headbuf = vec![
+        httparse::EMPTY_HEADER;
+        cmp::min(lines, MAX_HEADERS)
+    ];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-- 
2.43.0


From dc347c5133c4a032d73024c1391bdb1a1edb3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:50 +0000
Subject: [PATCH 10/29] fix: retry interrupted reads and writes of compressed
 records

An interrupted read left the gzip decoder at its end, so that the record
appeared truncated. An interrupted write failed the gzip encoder on finish.
---
 barc/src/compress.rs | 47 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..eb388aa 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -374,9 +374,40 @@ pub struct EncodeWrapper<'a>(Encoder<'a>);
 
 enum Encoder<'a> {
     Plain(&'a File),
-    Gzip(Box<GzEncoder<&'a File>>),
+    Gzip(Box<GzEncoder<Retry<&'a File>>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<Retry<&'a File>>>)
+}
+
+// Wrapper which retries any interrupted read or write, since encoders fail on
+// these when finishing, and decoders don't resume after any error.
+pub(crate) struct Retry<T>(T);
+
+fn retry<F>(mut op: F) -> Result<usize, io::Error>
+    where F: FnMut() -> Result<usize, io::Error>
+{
+    loop {
+        match op() {
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+            res => return res
+        }
+    }
+}
+
+impl<T: Read> Read for Retry<T> {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        retry(|| self.0.read(buf))
+    }
+}
+
+impl<T: Write> Write for Retry<T> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        retry(|| self.0.write(buf))
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.0.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -392,7 +423,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Gzip(Box::new(
             GzEncoder::new(
-                file,
+                Retry(file),
                 GzCompression::new(compression_level))
         )))
     }
@@ -404,7 +435,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                Retry(file),
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -463,9 +494,9 @@ impl<'a> Write for EncodeWrapper<'a> {
 /// Wrapper holding a decoder (providing `Read`) on a `Take` limited
 /// to a record of a BARC file.
 pub(crate) enum DecodeWrapper {
-    Gzip(Box<GzDecoder<ReadSlice>>),
+    Gzip(Box<GzDecoder<Retry<ReadSlice>>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::Decompressor<ReadSlice>>),
+    Brotli(Box<brotli::Decompressor<Retry<ReadSlice>>>),
 }
 
 impl DecodeWrapper {
@@ -474,12 +505,12 @@ impl DecodeWrapper {
     {
         match comp {
             Compression::Gzip => {
-                Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(r))))
+                Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(Retry(r)))))
             }
             #[cfg(feature = "brotli")]
             Compression::Brotli => {
                 Ok(DecodeWrapper::Brotli(Box::new(
-                    brotli::Decompressor::new(r, _buf_size)
+                    brotli::Decompressor::new(Retry(r), _buf_size)
                 )))
             }
             _ => Err(BarcError::DecoderUnsupported(comp))
-- 
2.43.0


From 6751f6c717155026dbde664f1f437c6d6386956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:51 +0000
Subject: [PATCH 11/29] fix: avoid the brotli levels 0 and 1

At these levels the encoder of brotli 3.3.0 panics, or writes a stream that
does not decode to its input, for some larger bodies.
---
 barc/src/compress.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index eb388aa..c6e3995 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -1,5 +1,7 @@
 //! BARC record compression support
 
+#[cfg(feature = "brotli")]
+use std::cmp;
 use std::fs::File;
 use std::io;
 use std::io::{Read, Write};
@@ -437,7 +439,9 @@ impl<'a> EncodeWrapper<'a> {
             brotli::CompressorWriter::new(
                 Retry(file),
                 4096, //FIXME: tune?
-                compression_level,
+                // The brotli crate output is invalid for some input with
+                // either of its two fastest levels.
+                cmp::max(compression_level, 2),
                 21)
         )))
     }
-- 
2.43.0


From 93a77eea58083ad987d1aeeaaaaaaf77ae9093d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:05 +0000
Subject: [PATCH 12/29] fix: keep the reader at the record when a read fails

The offset is documented to advance with each successful read. It advanced
on errors as well, so a reader that met the incomplete head of a record
being written could not go on from there.
---
 barc/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index a54fa11..64c1382 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -832,8 +832,22 @@ impl BarcReader {
     /// `max_body_ram` controls, depending on record sizes and compression,
     /// whether the request and response bodies are read directly into RAM,
     /// buffered in a file, or deferred via a `ReadSlice`.
+    ///
+    /// On any error the `offset` remains at the start of the same record, so
+    /// that this read may be repeated.
     pub fn read(&mut self, tune: &Tunables)
         -> Result<Option<Record>, BarcError>
+    {
+        let start = self.file.tell();
+        let res = self.read_next(tune);
+        if res.is_err() {
+            self.file.seek(SeekFrom::Start(start))?;
+        }
+        res
+    }
+
+    fn read_next(&mut self, tune: &Tunables)
+        -> Result<Option<Record>, BarcError>
     {
         let fin = &mut self.file;
         let start = fin.tell();
-- 
2.43.0


From ee67f1e1215dd63f18343e2e76e46856bed44fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:33 +0000
Subject: [PATCH 13/29] fix: make a record available to readers with a single
 byte

The final record head was written over the reserved one at once. A
concurrent reader seeing part of that write, or a process ending in the
middle of it, made for a record with wrong section lengths.
---
 barc/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 64c1382..466e6fe 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -594,6 +594,9 @@ impl Default for RecordType {
     fn default() -> RecordType { RecordType::Dialog }
 }
 
+// Offset of the record type flag in the record head.
+const V2_TYPE_OFFSET: u64 = 19;
+
 const CRLF: &[u8] = b"\r\n";
 
 // Maximum number of headers read from a single block.
@@ -689,10 +692,17 @@ impl<'a> BarcWriter<'a> {
                   orig_len, head.len);
         }
 
-        // Seek back and write final record head, with known size
+        // Seek back and write final record head, with known size, but still
+        // reserved. A concurrent reader could see part of this write.
+        let rec_type = head.rec_type;
+        head.rec_type = RecordType::Reserved;
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
 
+        // The record becomes available with this single byte.
+        file.seek(SeekFrom::Start(start + V2_TYPE_OFFSET))?;
+        file.write_all(&[rec_type.flag() as u8])?;
+
         // Seek to end and flush
         file.seek(SeekFrom::End(0))?;
         file.flush()?;
@@ -863,11 +873,18 @@ impl BarcReader {
         // With a concurrent writer, its possible to see an incomplete,
         // Reserved record head, followed by an empty or partial record
         // payload.  In this case, seek back to start and return None.
+        fin.seek(SeekFrom::Start(start))?;
         if rec_type == RecordType::Reserved {
-            fin.seek(SeekFrom::Start(start))?;
             return Ok(None);
         }
 
+        // The type was written last, so now that its seen, read the head
+        // again, to avoid using any of its parts from before that.
+        let rhead = match read_record_head(fin)? {
+            Some(rh) => rh,
+            None => return Ok(None)
+        };
+
         if rhead.compress != Compression::Plain {
             let end = fin.tell() + rhead.len;
             let rec = read_compressed(
-- 
2.43.0


From e905d502836869d1fe91d05dd17e487994b3bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:35 +0000
Subject: [PATCH 14/29] fix: remove the incomplete record when a write fails

The reserved head of a failed write remained, hiding all records written
after it from sequential readers.
---
 barc/src/lib.rs | 78 +++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 466e6fe..f100b3a 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -671,38 +671,18 @@ impl<'a> BarcWriter<'a> {
         // BarcFile::writer() guarantees Some(File)
         let file: &mut File = self.guard.as_mut().unwrap();
 
-        // Write initial head as reserved place holder
         let start = file.seek(SeekFrom::End(0))?;
-        write_record_head(file, &V2_RESERVE_HEAD)?;
-        file.flush()?;
 
-        // Write the record per strategy
-        let mut head = write_record(file, rec, strategy)?;
-
-        // Use new file offset to indicate total length
-        let end = file.seek(SeekFrom::Current(0))?;
-        let orig_len = head.len;
-        assert!(end >= (start + (V2_HEAD_SIZE as u64)));
-        head.len = end - start - (V2_HEAD_SIZE as u64);
-        if head.compress == Compression::Plain {
-            assert_eq!(orig_len, head.len);
-        } else if orig_len < head.len {
-            warn!("Compression *increased* record size from \
-                   {} to {} bytes",
-                  orig_len, head.len);
+        // If incomplete, remove the record, so that it neither hides those
+        // written later nor occupies the file.
+        if let Err(e) = write_at(file, start, rec, strategy) {
+            if let Err(te) = file.set_len(start) {
+                warn!("Unable to remove incomplete record at {}: {}",
+                      start, te);
+            }
+            return Err(e);
         }
 
-        // Seek back and write final record head, with known size, but still
-        // reserved. A concurrent reader could see part of this write.
-        let rec_type = head.rec_type;
-        head.rec_type = RecordType::Reserved;
-        file.seek(SeekFrom::Start(start))?;
-        write_record_head(file, &head)?;
-
-        // The record becomes available with this single byte.
-        file.seek(SeekFrom::Start(start + V2_TYPE_OFFSET))?;
-        file.write_all(&[rec_type.flag() as u8])?;
-
         // Seek to end and flush
         file.seek(SeekFrom::End(0))?;
         file.flush()?;
@@ -711,6 +691,48 @@ impl<'a> BarcWriter<'a> {
     }
 }
 
+// Write a complete record, with its head, at start, which is the current
+// position and end of file.
+fn write_at(
+    file: &mut File,
+    start: u64,
+    rec: &dyn MetaRecorded,
+    strategy: &dyn CompressStrategy)
+    -> Result<(), BarcError>
+{
+    // Write initial head as reserved place holder
+    write_record_head(file, &V2_RESERVE_HEAD)?;
+    file.flush()?;
+
+    // Write the record per strategy
+    let mut head = write_record(file, rec, strategy)?;
+
+    // Use new file offset to indicate total length
+    let end = file.seek(SeekFrom::Current(0))?;
+    let orig_len = head.len;
+    assert!(end >= (start + (V2_HEAD_SIZE as u64)));
+    head.len = end - start - (V2_HEAD_SIZE as u64);
+    if head.compress == Compression::Plain {
+        assert_eq!(orig_len, head.len);
+    } else if orig_len < head.len {
+        warn!("Compression *increased* record size from \
+               {} to {} bytes",
+              orig_len, head.len);
+    }
+
+    // Seek back and write final record head, with known size, but still
+    // reserved. A concurrent reader could see part of this write.
+    let rec_type = head.rec_type;
+    head.rec_type = RecordType::Reserved;
+    file.seek(SeekFrom::Start(start))?;
+    write_record_head(file, &head)?;
+
+    // The record becomes available with this single byte.
+    file.seek(SeekFrom::Start(start + V2_TYPE_OFFSET))?;
+    file.write_all(&[rec_type.flag() as u8])?;
+    Ok(())
+}
+
 // Write the record, returning a preliminary `RecordHead` with
 // observed (not compressed) lengths.
 fn write_record(
-- 
2.43.0


From d94dc1ad8b1d712152c40c8641fc75c245210e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:02 +0000
Subject: [PATCH 15/29] fix: report a failed final write of brotli compressed
 records

The writer of the brotli crate ignores any error of its final write, so the
record was accepted without the end of its data.
---
 barc/src/compress.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index c6e3995..de363cc 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -378,7 +378,7 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<Retry<&'a File>>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<Retry<&'a File>>>)
+    Brotli(Box<brotli::CompressorWriter<KeepError<Retry<&'a File>>>>)
 }
 
 // Wrapper which retries any interrupted read or write, since encoders fail on
@@ -412,6 +412,32 @@ impl<T: Write> Write for Retry<T> {
     }
 }
 
+// Wrapper which keeps the first write error, since the brotli writer doesn't
+// return any error on its final write.
+#[cfg(feature = "brotli")]
+struct KeepError<T> {
+    inner: T,
+    error: Option<io::Error>,
+}
+
+#[cfg(feature = "brotli")]
+impl<T: Write> Write for KeepError<T> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        let res = self.inner.write(buf);
+        if let (Err(e), None) = (&res, &self.error) {
+            self.error = Some(match e.raw_os_error() {
+                Some(code) => io::Error::from_raw_os_error(code),
+                None => e.kind().into(),
+            });
+        }
+        res
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.inner.flush()
+    }
+}
+
 impl<'a> EncodeWrapper<'a> {
 
     /// Return wrapper for `Plain` (no compression) output.
@@ -437,7 +463,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                Retry(file),
+                KeepError { inner: Retry(file), error: None },
                 4096, //FIXME: tune?
                 // The brotli crate output is invalid for some input with
                 // either of its two fastest levels.
@@ -467,8 +493,12 @@ impl<'a> EncodeWrapper<'a> {
                 gze.finish()?.flush()?;
             }
             #[cfg(feature = "brotli")]
-            Encoder::Brotli(mut bcw) => {
-                bcw.flush()?;
+            Encoder::Brotli(bcw) => {
+                let mut out = bcw.into_inner();
+                if let Some(e) = out.error {
+                    return Err(e.into());
+                }
+                out.inner.flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From 474e9adaf67056518336f57069309aee82f8c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:04 +0000
Subject: [PATCH 16/29] fix: return an error for header blocks exceeding the
 size limit

The panic left the write lock of the archive poisoned, and with it all
later writes.
---
 barc/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f100b3a..a3e7fcb 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -826,7 +826,11 @@ pub fn write_headers<W>(
     if with_crlf && size > 0 {
         size += write_all_len(out, CRLF)?;
     }
-    assert!(size <= V2_MAX_HBLOCK);
+    if size > V2_MAX_HBLOCK {
+        return Err(BarcError::InvalidHeader(
+            format!("header block size {} exceeds limit", size).into()
+        ));
+    }
     Ok(size)
 }
 
-- 
2.43.0


From 8d77109217c6e2a16f13ac3dbad875a0a88da648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:18 +0000
Subject: [PATCH 17/29] fix: return errors, rather than panic, on damaged
 archives

Section lengths that are too short, or exceed the record length, failed
assertions. Records and bodies that end early were accepted, and a memory
map of these could fault.
---
 barc/src/lib.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index a3e7fcb..8f7facc 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -911,8 +911,14 @@ impl BarcReader {
             None => return Ok(None)
         };
 
+        // The entire record must be present, including any part to be
+        // read later.
+        let end = fin.tell() + rhead.len;
+        if rhead.len > 0 {
+            fin.subslice(end - 1, end).read_exact(&mut [0u8])?;
+        }
+
         if rhead.compress != Compression::Plain {
-            let end = fin.tell() + rhead.len;
             let rec = read_compressed(
                 fin.subslice(fin.tell(), end), &rhead, tune
             )?;
@@ -920,6 +926,12 @@ impl BarcReader {
             return Ok(Some(rec))
         }
 
+        // Sections before the response body must be within the record length
+        let body_len = rhead.len
+            .checked_sub(rhead.meta as u64 + rhead.req_h as u64 +
+                         rhead.req_b + rhead.res_h as u64)
+            .ok_or(BarcError::ReadInvalidRecHead)?;
+
         let meta = read_headers(fin, WITH_CRLF, rhead.meta)?;
         let req_headers = read_headers(fin, WITH_CRLF, rhead.req_h)?;
 
@@ -930,8 +942,6 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
-
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
         } else {
@@ -1079,7 +1089,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1113,8 +1125,12 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block ends early".into()
+                ));
+            }
             let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1142,7 +1158,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1192,7 +1210,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1212,7 +1230,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From d9fc0883565c989f6a4802dd30e1f92804fd78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:17 +0000
Subject: [PATCH 18/29] fix: return an error if a body file ends before the
 stream does

AsyncBodyImage ended the stream normally when a file read returned
nothing with bytes of the body still due, so a consumer took the part
it received for the complete body. Return UnexpectedEof instead.
---
 body-image-futio/src/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index f61b384..1aec877 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -187,7 +187,12 @@ impl<B, BA> AsyncBodyImage<B, BA>
                 )};
                 loop {
                     match rs.read(&mut b[..rlen]) {
-                        Ok(0) => break Poll::Ready(None),
+                        Ok(0) => {
+                            // Bytes are still due, as avail and rlen > 0
+                            break Poll::Ready(Some(Err(
+                                io::ErrorKind::UnexpectedEof.into()
+                            )));
+                        }
                         Ok(len) => {
                             unsafe { buf.advance_mut(len); }
                             debug!("read chunk (len: {})", len);
-- 
2.43.0


From 30deb7311026d16dc2f820f3df96f8b10b15fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:32 +0000
Subject: [PATCH 19/29] fix: report the remaining length as the size hint of
 body streams

http_body::Body::size_hint is the remaining length, but the streams kept
reporting the complete length after part of the body was delivered.
---
 body-image-futio/src/stream.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 1aec877..3c74884 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -339,7 +339,7 @@ impl<B, BA> http_body::Body for AsyncBodyImage<B, BA>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.len - self.consumed)
     }
 
     fn is_end_stream(&self) -> bool {
@@ -525,6 +525,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     Poll::Ready(Ok((res, ob))) => (res, ob),
                 };
                 debug_assert_eq!(ob.arbiter.state(), Blocking::Void);
+                this.len = ob.len - ob.consumed;
                 this.state = DispatchState::Image(Some(ob));
                 res
             }
@@ -551,7 +552,14 @@ impl<B> http_body::Body for DispatchBodyImage<B>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        match self.state {
+            DispatchState::Image(ref obi) => {
+                http_body::Body::size_hint(obi.as_ref().unwrap())
+            }
+            DispatchState::Dispatch(_) => {
+                http_body::SizeHint::with_exact(self.len)
+            }
+        }
     }
 
     fn is_end_stream(&self) -> bool {
-- 
2.43.0


From 558fd6525b7502bf807bb2dceaf8b82cbf95a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:34 +0000
Subject: [PATCH 20/29] fix: start the response time-out when the request is
 first polled

Creating the timer eagerly panicked outside of a runtime context. In
particular fetch panicked whenever a response time-out was set.
---
 body-image-futio/src/fetch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 1d3657d..84f3980 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -67,8 +67,10 @@ pub fn request_dialog<CN, B>(
         .map_ok(|response| Monolog { prolog, response });
 
     let futr = if let Some(t) = tune.res_timeout() {
+        // Create the timer on first poll, when in the runtime context.
+        let futr = async move { tokio::time::timeout(t, futr).await };
         Either::Left(
-            tokio::time::timeout(t, futr).map(move |r| match r {
+            futr.map(move |r| match r {
                 Ok(Ok(v)) => Ok(v),
                 Ok(Err(e)) => Err(e),
                 Err(_) => Err(FutioError::ResponseTimeout(t))
-- 
2.43.0


From 148b08c8d71c56d0fef28b67c73d0882b4adfd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:34 +0000
Subject: [PATCH 21/29] fix: match the names of encodings in any case

Encoding names are case-insensitive in HTTP. A body with the encoding
"GZIP" was left as is and then declared decoded.
---
 body-image-futio/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index f225e75..47a5972 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -53,7 +53,7 @@ fn parse_encodings<'a>(
         Ok(encs) => for av in encs.iter().rev() {
             // check in reverse, since these are in order of application
             // and we want the last
-            match *av {
+            match normalize(av) {
                 HyEncoding::Identity => {} //ignore
                 HyEncoding::Chunked  => chunked = true,
                 HyEncoding::Deflate  => res.push(Encoding::Deflate),
@@ -72,11 +72,20 @@ fn parse_encodings<'a>(
     chunked
 }
 
+// Encoding names are case-insensitive, but are parsed as if not.
+fn normalize(enc: &HyEncoding) -> HyEncoding {
+    match enc {
+        HyEncoding::EncodingExt(s) => s.to_ascii_lowercase().parse()
+            .unwrap_or_else(|_| enc.clone()),
+        _ => enc.clone(),
+    }
+}
+
 /// Return true if the chunked Transfer-Encoding can be found in the headers.
 pub fn find_chunked(headers: &http::HeaderMap) -> bool {
     if let Ok(v) = headers.decode::<TransferEncoding>() {
         for av in v.iter() {
-            if let HyEncoding::Chunked = *av { return true }
+            if let HyEncoding::Chunked = normalize(av) { return true }
         }
     }
     false
-- 
2.43.0


From 27186517a6be523fea7c26566c34f76eb99d8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:05 +0000
Subject: [PATCH 22/29] fix: report a response body shorter than announced as
 an error

The response stream can end without an error before the announced length,
when the connection fails while the request body is still being sent. The
exchange then gave a dialog with part of the body. Compare the length
received with the length announced.
---
 body-image-futio/src/fetch.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 84f3980..8fd1ac0 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -1,4 +1,5 @@
 use std::future::Future;
+use std::io;
 
 use bytes::Bytes;
 use futures_util::{
@@ -124,6 +125,10 @@ async fn resp_future(monolog: Monolog, tune: FutioTunables)
         None => Ok(BodySink::with_ram(tune.image().max_body_ram()))
     }?;
 
+    // The length of the body as announced, if known. Zero for responses, like
+    // those to HEAD, without a body.
+    let expected = http_body::Body::size_hint(&body).exact();
+
     // Regardless of policy, we always receive `Bytes` from hyper, so there is
     // no advantage to converting to `UniBodyBuf` here. Memory mapped buffers
     // are never received.
@@ -151,6 +156,15 @@ async fn resp_future(monolog: Monolog, tune: FutioTunables)
         }
     };
 
+    // The stream may also just end early when the connection fails, while the
+    // request body is still being sent.
+    match expected {
+        Some(l) if res_body.len() != l => {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        _ => {}
+    }
+
     Ok(InDialog {
         prolog:      monolog.prolog,
         version:     resp_parts.version,
-- 
2.43.0


From 31043e5f8ef827d36c2343c21fa7ad0c60840d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:42 +0000
Subject: [PATCH 23/29] fix: count only selected records with the index option

The cat and cp commands counted the records skipped by --index against
--count, so that with both options too few records or none were taken.
---
 barc-cli/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..05ae413 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -228,13 +228,14 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let fout = &mut io::stdout();
     let nl = true;
     let mut i = 0;
+    let mut printed = 0;
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        printed += 1;
+        if printed > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -271,12 +272,13 @@ fn cp(
     let mut writer = bfout.writer()?;
 
     let mut i = 0;
+    let mut copied = 0;
     while let Some(record) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        copied += 1;
+        if copied > count { break; }
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From 0c5a04b9834e699fd94a93ed318b4450da8f3c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:44 +0000
Subject: [PATCH 24/29] fix: print the offset of the first record selected by
 index

The cat command printed the offset of the first record in the file as that
of the first record selected by --index.
---
 barc-cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 05ae413..173ab6a 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -232,7 +232,11 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
+            if i < s {
+                i += 1;
+                offset = reader.offset();
+                continue;
+            }
         }
         printed += 1;
         if printed > count { break; }
-- 
2.43.0


From 3c6f05f088c0477289b932a05cd3e2c2f80d8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:09 +0000
Subject: [PATCH 25/29] fix: refuse to copy an archive to itself by another
 path

The cp command compared only the path names. With another path to the same
file, such as "./a.barc" or a link, it read the records it appended and
went on until the disk was full.
---
 barc-cli/src/main.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 173ab6a..107099d 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -254,6 +255,26 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     Ok(())
 }
 
+// Return true if both paths lead to the same existing file.
+#[cfg(unix)]
+fn same_file(a: &str, b: &str) -> bool {
+    use std::os::unix::fs::MetadataExt;
+
+    match (fs::metadata(a), fs::metadata(b)) {
+        (Ok(a), Ok(b)) => a.dev() == b.dev() && a.ino() == b.ino(),
+        _ => false
+    }
+}
+
+// Return true if both paths lead to the same existing file.
+#[cfg(not(unix))]
+fn same_file(a: &str, b: &str) -> bool {
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false
+    }
+}
+
 // The `cp` command implementation.
 fn cp(
     barc_in: &str,
@@ -263,7 +284,7 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
+    if barc_in == barc_out || same_file(barc_in, barc_out) {
         quit!("BARC input and output file are the same: {}", barc_in);
     }
     let bfin = BarcFile::new(barc_in);
-- 
2.43.0


From d14d2ea9bf18e3c7e1d0e1be9b41ba1d616cdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:10 +0000
Subject: [PATCH 26/29] fix: report a failure of standard output as an error

The cat command panicked when the separator line could not be written, for
example to a closed pipe.
---
 barc-cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 107099d..746d839 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -5,7 +5,7 @@
 use std::error::Error as StdError;
 use std::fmt;
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::process;
 
 use clap::{
@@ -241,8 +241,8 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
         }
         printed += 1;
         if printed > count { break; }
-        println!("====== file {:-<38} offset {:#012x} ======",
-                 barc_path, offset);
+        writeln!(fout, "====== file {:-<38} offset {:#012x} ======",
+                 barc_path, offset)?;
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
         if parts.req_head { write_headers(fout, nl, rec.req_headers())?; }
         if parts.req_body { write_body   (fout, nl, rec.req_body())?; }
-- 
2.43.0


From 6bf80030ce83d4e74f878b770e9fd4087d291647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:24 +0000
Subject: [PATCH 27/29] fix: accept copy options with a value directly before
 the file names

The command line parser took the first of the file names after such an
option for the output and rejected the rest.
---
 barc-cli/src/main.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 746d839..3fee03a 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -68,7 +68,7 @@ fn run() -> Result<(), Flaw> {
         "cat" => {
             let parts = part_flags(subm);
             let files = subm.values_of("file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let (start, count) = filter_flags(subm, files.len())?;
             for f in files {
                 cat(f, &start, count, &parts)?;
             }
@@ -76,9 +76,9 @@ fn run() -> Result<(), Flaw> {
         }
         "cp" => {
             let cs = compress_flags(subm)?;
-            let files = subm.values_of("file").unwrap();
-            let fout = subm.value_of("out-file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let mut files: Vec<_> = subm.values_of("file").unwrap().collect();
+            let fout = files.pop().unwrap(); // at least two are required
+            let (start, count) = filter_flags(subm, files.len())?;
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -148,9 +148,9 @@ fn compress_flags(matches: &ArgMatches<'_>)
 }
 
 // Parse filter flags and return (StartPos, count) or error.
-fn filter_flags(matches: &ArgMatches<'_>) -> Result<(StartPos, usize), Flaw>
+fn filter_flags(matches: &ArgMatches<'_>, files_len: usize)
+    -> Result<(StartPos, usize), Flaw>
 {
-    let files_len = matches.values_of("file").unwrap().len();
     let mut start = StartPos::default();
     let mut count = usize::max_value();
     if let Some(v) = matches.value_of("index") {
@@ -436,6 +436,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
         .setting(AppSettings::DeriveDisplayOrder)
         .setting(AppSettings::DontDelimitTrailingValues)
         .about("Copy BARC records from input(s) to an output file")
+        .usage("barc cp [FLAGS] [OPTIONS] <BARC-IN-FILE>... <BARC-OUT-FILE>")
         .after_help(
             "By default, copies all records from the input file(s) and appends \
              to the output file. The options (--offset, --index, --count) can \
@@ -468,15 +469,16 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
                 .long("brotli")
                 .conflicts_with("gzip")
                 .help("Use Brotli compression strategy (brotli feature)"),
+            // The output file is the last value of this argument, as Clap
+            // rejects an option value directly followed by two positional
+            // arguments of which the first is multiple.
             Arg::with_name("file")
                 .required(true)
                 .multiple(true)
-                .value_name("BARC-IN-FILE")
-                .help("BARC file path(s) from which to read"),
-            Arg::with_name("out-file")
-                .required(true)
-                .value_name("BARC-OUT-FILE")
-                .help("BARC file path to create/append")
+                .min_values(2)
+                .value_name("BARC-FILE")
+                .help("BARC file path(s) from which to read, followed by the \
+                       BARC file path to create/append")
         ]);
 
     App::new("barc")
-- 
2.43.0


From e18a376456c9c2634e3b95315b0029d5c75bbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 28/29] fix: Do not abort when logging while thread locals are
 dropped

The name of the thread is kept in a thread local. A message logged
by the destructor of another thread local may come after that one is
gone, which was a panic in a destructor, thus an abort.
---
 piccolog/src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index da6b4ab..b79ae90 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -20,7 +20,8 @@ impl Piccolog {
             pub static TNAME: RefCell<Option<Rc<String>>> = RefCell::new(None);
         }
 
-        let tn = TNAME.with(|c| {
+        // Fails while other thread locals are dropped, after this one.
+        let tn = TNAME.try_with(|c| {
             if let Some(n) = c.borrow().as_ref() {
                 Some(n.clone())
             } else {
@@ -28,19 +29,18 @@ impl Piccolog {
             }
         });
 
-        if let Some(n) = tn {
+        if let Ok(Some(n)) = tn {
             return n;
         }
 
-        TNAME.with(|c| {
-            let t = std::thread::current();
-            let mut tn = t.name().unwrap_or("-").to_owned();
-            if tn == "tokio-runtime-worker" {
-                tn = format!("tokio-w-{:?}", t.id());
-            }
-            *c.borrow_mut() = Some(Rc::new(tn));
-            c.borrow().as_ref().unwrap().clone()
-        })
+        let t = std::thread::current();
+        let mut tn = t.name().unwrap_or("-").to_owned();
+        if tn == "tokio-runtime-worker" {
+            tn = format!("tokio-w-{:?}", t.id());
+        }
+        let tn = Rc::new(tn);
+        TNAME.try_with(|c| *c.borrow_mut() = Some(tn.clone())).ok();
+        tn
     }
 }
 
-- 
2.43.0


From 948f6d83d76417e3557161ffa110392680b75d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:28 +0000
Subject: [PATCH 29/29] fix: Read records with more than 16384 headers

Any number of headers fitting the header block could be written, but reading
failed beyond 16384. Limit only distinct names, to what the header map holds.
---
 barc/src/lib.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 8f7facc..054bc58 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -599,8 +599,8 @@ const V2_TYPE_OFFSET: u64 = 19;
 
 const CRLF: &[u8] = b"\r\n";
 
-// Maximum number of headers read from a single block.
-const MAX_HEADERS: usize = 16 * 1024;
+// Maximum number of distinct header names in a `http::HeaderMap`.
+const MAX_HEADER_NAMES: usize = 24 * 1024;
 
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
@@ -1116,12 +1116,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
     // httparse will return TooManyHeaders if headbuf isn't large enough, so
-    // make room for each line, within what `http::HeaderMap` can hold.
+    // make room for each line.
     let lines = buf.iter().filter(|b| **b == b'\n').count();
-    let mut headbuf = vec![
-        httparse::EMPTY_HEADER;
-        cmp::min(lines, MAX_HEADERS)
-    ];
+    let mut headbuf = vec![httparse::EMPTY_HEADER; lines];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
@@ -1130,12 +1127,21 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
                     "header block ends early".into()
                 ));
             }
-            let mut hmap = http::HeaderMap::with_capacity(heads.len());
+            let mut hmap = http::HeaderMap::with_capacity(
+                cmp::min(heads.len(), MAX_HEADER_NAMES)
+            );
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
                 let value = HeaderValue::from_bytes(h.value)
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                if hmap.keys_len() >= MAX_HEADER_NAMES &&
+                    !hmap.contains_key(&name)
+                {
+                    return Err(BarcError::InvalidHeader(
+                        Box::new(httparse::Error::TooManyHeaders)
+                    ));
+                }
                 hmap.append(name, value);
             }
             Ok(hmap)
-- 
2.43.0

