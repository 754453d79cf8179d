From 787f4c3cfc64193a019bf95f3865e31b3692e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:36 +0000
Subject: [PATCH 01/15] fix: count text fields in PreparedFields::content_len()

---
 src/client/lazy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..7117c4e 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -312,6 +312,7 @@ impl<'d> PreparedFields<'d> {
             boundary.push_str("--");
         }
 
+        content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
 
         Ok(PreparedFields {
-- 
2.43.0


From ab638bdbd5c7f416c3eae771e8197b2bd4a9a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 02/15] fix: PreparedFields::boundary() panicked when there are
 no fields

---
 src/client/lazy.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7117c4e..deefcfe 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -261,6 +261,7 @@ pub struct PreparedFields<'d> {
     text_data: Cursor<Vec<u8>>,
     streams: Vec<PreparedField<'d>>,
     end_boundary: Cursor<String>,
+    boundary: String,
     content_len: Option<u64>,
 }
 
@@ -270,7 +271,8 @@ impl<'d> PreparedFields<'d> {
 
         // One of the two RFCs specifies that any bytes before the first boundary are to be
         // ignored anyway
-        let mut boundary = format!("\r\n--{}", super::gen_boundary());
+        let bare_boundary = super::gen_boundary();
+        let mut boundary = format!("\r\n--{}", bare_boundary);
 
         let mut text_data = Vec::new();
         let mut streams = Vec::new();
@@ -319,6 +321,7 @@ impl<'d> PreparedFields<'d> {
             text_data: Cursor::new(text_data),
             streams,
             end_boundary: Cursor::new(boundary),
+            boundary: bare_boundary,
             content_len: if use_len { Some(content_len) } else { None },
         })
     }
@@ -331,10 +334,7 @@ impl<'d> PreparedFields<'d> {
 
     /// Get the boundary that was used to serialize the request.
     pub fn boundary(&self) -> &str {
-        let boundary = self.end_boundary.get_ref();
-
-        // Get just the bare boundary string
-        &boundary[4..boundary.len() - 2]
+        &self.boundary
     }
 }
 
-- 
2.43.0


From 0e4f3b336c43c5ed0a56661a043b1e30e4adeb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 03/15] fix: PreparedFields::read() lost already copied bytes
 when a field errored

---
 src/client/lazy.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index deefcfe..c774cfc 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -347,10 +347,10 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
-            total_read += if !cursor_at_end(&self.text_data) {
+        // Return as soon as anything has been read so that an error from a following field
+        // cannot discard bytes which were already copied to `buf`.
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
+            total_read = if !cursor_at_end(&self.text_data) {
                 self.text_data.read(buf)?
             } else if let Some(mut field) = self.streams.pop() {
                 match field.read(buf) {
-- 
2.43.0


From 146dbf7d1a2cc68e4c4dd2b661a9fde8196ab7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:47 +0000
Subject: [PATCH 04/15] fix: field data gained a trailing CRLF when the
 delimiter's CR ended the buffer

---
 src/server/boundary.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..40375ef 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -97,6 +97,12 @@ impl<R> BoundaryReader<R> where R: Read {
             }
         }
 
+        // a CR at the very end of the buffer could be the start of the CRLF preceding a boundary
+        if self.state == Searching && self.search_idx > 0 && self.search_idx == buf.len()
+            && buf[self.search_idx - 1] == b'\r' {
+            self.search_idx -= 1;
+        }
+
         let ret_buf = &buf[..self.search_idx];
 
         trace!("Returning buf: {:?}", String::from_utf8_lossy(ret_buf));
-- 
2.43.0


From 07fc6804f88c5debb1535d6bef52229e16df58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 05/15] fix: spurious UnexpectedEof when a field was left
 unread at the end of the buffer

---
 src/server/boundary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 40375ef..2569a7d 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -137,6 +137,10 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard unread field data so that the next fill can buffer the whole boundary
+        let unread = self.search_idx;
+        self.consume(unread);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From b33e1825ce8c07b8f28a2ef5fc985aef7d09a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:50 +0000
Subject: [PATCH 06/15] fix: bytes read to memory were not counted against
 size_limit when spilling to a file

---
 src/server/save.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..c6032a9 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -422,7 +422,10 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // the bytes already read to memory count against the size limit as well
+        let limit = self.size_limit.saturating_sub(bytes.len() as u64);
+
+        self.write_to_limited(file, limit).map(move |written| data.add_size(written))
     }
 
 
@@ -432,9 +435,14 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
-        if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        let limit = self.size_limit;
+        self.write_to_limited(dest, limit)
+    }
+
+    fn write_to_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
+        if limit < u64::MAX {
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
-- 
2.43.0


From 7a537fed06e1b5f49575f6433ae462bbeba6ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 07/15] fix: fields were spilled to disk when size_limit <=
 memory_threshold

---
 src/server/save.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index c6032a9..1114155 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -395,7 +395,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let bytes = if self.text_policy != Ignore {
             let (text, reason) = try_partial!(self.save_text());
             match reason {
-                SizeLimit if !self.cmp_size_limit(text.len()) => text.into_bytes(),
+                SizeLimit if !self.size_limited_to_mem() => text.into_bytes(),
                 Utf8Error(_) if self.text_policy != Force => text.into_bytes(),
                 other => return Partial(text.into(), other),
             }
@@ -406,7 +406,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let (bytes, reason) = try_partial!(self.save_mem(bytes));
 
         match reason {
-            SizeLimit if !self.cmp_size_limit(bytes.len()) => (),
+            SizeLimit if !self.size_limited_to_mem() => (),
             other => return Partial(bytes.into(), other)
         }
 
@@ -489,8 +489,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         try_copy_limited(&mut self.savable, with_buf, limit)
     }
 
-    fn cmp_size_limit(&self, size: usize) -> bool {
-        size as u64 >= self.size_limit
+    /// Whether `size_limit`, and not `memory_threshold`, is what bounds reads to memory.
+    fn size_limited_to_mem(&self) -> bool {
+        self.size_limit <= self.memory_threshold
     }
 }
 
-- 
2.43.0


From 49062f0b25bd5dad0345b4e0a52c2ce4ab18138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:53 +0000
Subject: [PATCH 08/15] fix: saving a text field spun forever on invalid UTF-8

---
 src/server/save.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 1114155..4600540 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -466,13 +466,18 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
-                        Partial(0, e.into())
+                Err(e) => {
+                    let valid_len = e.valid_up_to();
+                    string.push_str(str::from_utf8(&buf[..valid_len]).unwrap());
+
+                    if e.error_len().is_some() || valid_len == 0 {
+                        // an invalid sequence, or an incomplete one which reading more won't fix
+                        Partial(valid_len, e.into())
                     } else {
-                        string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
-                        Full(e.valid_up_to())
+                        // the last character was cut off by the end of the buffer
+                        Full(valid_len)
                     }
+                }
             }
         }, 0);
 
@@ -983,9 +988,11 @@ fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(sr
     try_read_buf(src, |buf| {
         let new_copied = copied.saturating_add(buf.len() as u64);
         if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
 
-        with_buf(buf)
+        let res = with_buf(buf);
+        // `with_buf` may not have used the entire buffer
+        if let Full(used) = res { copied = copied.saturating_add(used as u64); }
+        res
     })
 }
 
-- 
2.43.0


From 27d9bafb2dec42bb467b2c9127148f15bf103518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 09/15] fix: CountLimit was reported, and an entry dropped,
 without exceeding count_limit

---
 src/server/save.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 4600540..f658593 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -306,7 +306,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -319,6 +319,19 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -340,14 +353,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 70930368fcc07a08fe22de25d1e63ce5fda0f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 10/15] fix: with_filename() replaced the last component of the
 temporary directory's path

---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index f658593..b973fc4 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -372,10 +372,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 7257d98c12a69c346c5a03270eff0fa9cafda6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 11/15] fix: the client opened the stream of a request that
 refused its headers

---
 src/client/lazy.rs | 7 ++++++-
 src/client/mod.rs  | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index c774cfc..cecb4b6 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -202,7 +202,12 @@ impl<'n, 'd> Multipart<'n, 'd> {
     {
         let mut prepared = self.prepare().map_err(LazyError::transform_err)?;
 
-        req.apply_headers(prepared.boundary(), prepared.content_len());
+        if !req.apply_headers(prepared.boundary(), prepared.content_len()) {
+            return Err(LazyError::without_field(io::Error::new(
+                io::ErrorKind::Other,
+                "the request failed to apply its headers",
+            )));
+        }
 
         let mut stream = try_lazy!(req.open_stream());
 
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..7ab2533 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -215,7 +215,13 @@ fn open_stream<R: HttpRequest>(
     content_len: Option<u64>,
 ) -> Result<(String, R::Stream), R::Error> {
     let boundary = gen_boundary();
-    req.apply_headers(&boundary, content_len);
+    if !req.apply_headers(&boundary, content_len) {
+        return Err(io::Error::new(
+            io::ErrorKind::Other,
+            "the request failed to apply its headers",
+        ).into());
+    }
+
     req.open_stream().map(|stream| (boundary, stream))
 }
 
-- 
2.43.0


From 1817ff66a6e6d8000e9112c87841dfb6203c4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 12/15] fix: iron, nickel and tiny_http accepted requests which
 were not multipart/form-data POSTs

---
 src/server/iron.rs      |  5 +++++
 src/server/nickel.rs    | 12 +++++++++++-
 src/server/tiny_http.rs | 14 +++++++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..310da01 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -4,6 +4,7 @@
 //! iron::Request`.
 
 use iron::headers::ContentType;
+use iron::method::Method;
 use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
@@ -21,6 +22,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self.headers.get::<ContentType>());
         if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
             content_type.get_param("boundary").map(|b| b.as_str())
diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..6be918d 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,8 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::method::Method;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -20,8 +22,16 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
 
     fn multipart_boundary(&self) -> Option<&str> {
         // we can't use the impl from the `hyper` module because it might be the wrong version
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..7a6bc95 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,8 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
 use super::HttpRequest;
 
 use std::io::Read;
@@ -16,18 +18,28 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     fn multipart_boundary(&self) -> Option<&str> {
         const BOUNDARY: &str = "boundary=";
 
+        if *self.method() != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self
             .headers()
             .iter()
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
+
+        let media_type = content_type.split(';').next().unwrap_or("").trim();
+        if !media_type.eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
+
         let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
         let end = content_type[start..]
             .find(';')
             .map_or(content_type.len(), |end| start + end);
 
-        Some(&content_type[start..end])
+        Some(content_type[start..end].trim().trim_matches('"'))
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 2a013c62fe12743b8c35a0358fceba00e8c531bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 13/15] fix: Intercept did not create a missing temp_dir_path
 as documented

---
 src/server/iron.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 310da01..294995d 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -11,7 +11,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, fs, io};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -133,7 +133,9 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path).and_then(
+                        |_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    )
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From 96411adcf4e08b6718b8792140d914f8920f04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 14/15] fix: StdoutTee duplicated data in the inner writer
 after a short write to stdout

---
 src/mock.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..028c45d 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -193,7 +193,9 @@ impl<'s, W> StdoutTee<'s, W> {
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        // a short write to stdout would have the caller write the rest to `inner` a second time
+        self.stdout.write_all(buf)?;
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From cc4975cd8d3488f24da19a8c35ac90a581e6ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 15/15] fix: hyper requests with the boundary "utf-8" were
 refused

mime parses the parameter value utf-8 (in any case) as Value::Utf8, which the
lookup of the boundary took for a missing one.
---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0

