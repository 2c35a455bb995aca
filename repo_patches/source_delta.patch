From 9c4db9b0dbe4294be72b562001077f8dad935f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 01/43] fix: chunk-size lines split between data chunks

The buffered beginning of a chunk-size line was never removed from the
line buffer, so the next line was parsed with a stale prefix, and a line
whose terminator arrived alone was taken for an empty line.
---
 src/request.rs  | 14 ++++++++++----
 src/response.rs | 15 +++++++++------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..343f7af 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -336,8 +336,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
@@ -383,20 +385,22 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // Beginning of the line, if it was split between chunks of data.
+                let buffered = take(&mut self.request_buf);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
 
-                if line.eq(b"\n") {
+                if buffered.is_empty() && line.eq(b"\n") {
                     req.request_message_len =
                         req.request_message_len.wrapping_add(line.len() as u64);
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
+                let mut data = buffered;
                 data.add(line);
                 let req = self.request_mut().unwrap();
                 req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
@@ -434,7 +438,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut seen = self.request_buf.clone();
+                seen.add(data);
+                return if !is_valid_chunked_length_data(&seen) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..8498468 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,7 +194,9 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
+                    // Beginning of the line, if it was split between chunks of data.
+                    let buffered = take(&mut self.response_buf);
+                    if buffered.is_empty() && is_chunked_ctl_line(line) {
                         let resp = self.response_mut().unwrap();
                         resp.response_message_len =
                             (resp.response_message_len).wrapping_add(line.len() as u64);
@@ -204,7 +204,7 @@ impl ConnectionParser {
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
+                    let mut data = buffered;
                     data.add(line);
                     let resp = self.response_mut().unwrap();
                     resp.response_message_len =
@@ -257,8 +257,11 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut seen = self.response_buf.clone();
+                    seen.add(data);
+                    if !is_valid_chunked_length_data(&seen) {
                         // Contains leading junk non hex_ascii data
+                        let resp = self.response_mut().unwrap();
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
-- 
2.43.0


From 61001d1dc3ffc4c9e53a4dc07bc9587ceae04c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 02/43] fix: end of an empty header block not recognised next
 to other data

An empty header or trailer block followed by more bytes in the same data
chunk was not recognised in responses (the following body or response was
taken for headers), with LF line endings it became an empty header in
requests, and when its CR and LF came in different chunks one byte of the
data after it was lost.
---
 src/request.rs  | 27 ++++++++++++++-------------
 src/response.rs | 35 ++++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 343f7af..b595a73 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -581,22 +581,23 @@ impl ConnectionParser {
             data
         };
 
-        let (remaining, eoh) = self.parse_request_headers(data2)?;
         //TODO: Update the request state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == data2.len()
-            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
-        if eoh
-            //If the input started with an EOL, we assume this is the end of the headers
-            || eol
-        {
+        // If the input starts with an EOL, we assume this is the end of the headers
+        let eol = if data2.starts_with(b"\r\n") {
+            2
+        } else if data2.starts_with(b"\n") {
+            1
+        } else {
+            0
+        };
+        let (remaining, eoh) = if eol > 0 {
+            (&data2[eol..], true)
+        } else {
+            self.parse_request_headers(data2)?
+        };
+        if eoh {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
-            } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
diff --git a/src/response.rs b/src/response.rs
index 8498468..34d098d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -968,16 +968,33 @@ impl ConnectionParser {
             Bstr::from(input.as_slice())
         };
 
-        let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
         //TODO: Update the response state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-        // If remaining is EOL or header parsing saw EOH this is end of headers
-        if eoh || eol {
-            if eol {
-                //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
-            } else if remaining.len() <= input.len() {
+        // If the input starts with an EOL, this is the end of the headers
+        let mut eol = if response_header.starts_with(b"\r\n") {
+            2
+        } else if response_header.starts_with(b"\n") {
+            1
+        } else {
+            0
+        };
+        let resp = self.response();
+        if resp.is_none() {
+            return Err(HtpStatus::ERROR);
+        }
+        if eol > 0
+            && response_header.as_slice()[eol..].starts_with(b"\n")
+            && resp.unwrap().response_progress == HtpResponseProgress::TRAILER
+        {
+            // Ignore an extra EOL after the trailer
+            eol += 1;
+        }
+        let (remaining, eoh) = if eol > 0 {
+            (&response_header.as_slice()[eol..], true)
+        } else {
+            self.parse_response_headers(response_header.as_slice())?
+        };
+        if eoh {
+            if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
             // We've seen all response headers. At terminator.
-- 
2.43.0


From b243fe83fcb00f4d0c096372b2fa1400ecc9b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:34 +0000
Subject: [PATCH 03/43] fix: status line terminator split between data chunks

The line ending was searched in the new data only, so when it was cut in
two the next line was appended to the status line (or the empty line after
it was swallowed).
---
 src/response.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 34d098d..adc0b89 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -635,14 +635,23 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
-        match take_till_eol(input.as_slice()) {
+        // The line ending itself can be split between chunks of data, so it has
+        // to be looked for in the buffered data as well.
+        let buffered = self.response_buf.len();
+        let mut joined = self.response_buf.clone();
+        let data = if buffered > 0 {
+            joined.add(input.as_slice());
+            joined.as_slice()
+        } else {
+            input.as_slice()
+        };
+        match take_till_eol(data) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-                // and grab any buffered data.
-                let mut data = take(&mut self.response_buf);
-                data.add(line);
-                self.response_data_consume(input, line.len());
-                self.response_line_complete(data.as_slice(), input)
+                // and the buffered data.
+                self.response_buf.clear();
+                self.response_data_consume(input, line.len().saturating_sub(buffered));
+                self.response_line_complete(line, input)
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-- 
2.43.0


From 2cd76ed2af41eeea78ece0c9e381532dea81217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 04/43] fix: response body bytes taken for part of the line
 that ends the headers

---
 src/headers.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..5ecdda4 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -197,6 +197,17 @@ impl Parser {
         }
     }
 
+    /// Parse the empty line that ends the headers. A well formed CRLF ends them whatever follows:
+    /// the bytes after it are not header data.
+    fn complete_eoh(&self) -> impl Fn(&[u8]) -> IResult<&[u8], ParsedBytes> + '_ {
+        move |input| {
+            alt((
+                map(complete_tag("\r\n"), |eol| (eol, 0)),
+                self.complete_eol(),
+            ))(input)
+        }
+    }
+
     /// Parse one header end of line, and guarantee that it is not folding
     fn eol(&self) -> impl Fn(&[u8]) -> IResult<&[u8], ParsedBytes> + '_ {
         move |input| {
@@ -463,7 +474,7 @@ impl Parser {
             if is_null_terminated {
                 return Ok((rest, (out, true)));
             }
-            if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+            if let Ok((rest, _eoh)) = self.complete_eoh()(rest) {
                 return Ok((rest, (out, true)));
             }
             let mut i = rest;
@@ -477,7 +488,7 @@ impl Parser {
                         if is_null_terminated {
                             return Ok((rest, (out, true)));
                         }
-                        if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+                        if let Ok((rest, _eoh)) = self.complete_eoh()(rest) {
                             return Ok((rest, (out, true)));
                         }
                     }
-- 
2.43.0


From 3bd00e2bd5c334d58972ed7f08d56a0c17230f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:38 +0000
Subject: [PATCH 05/43] fix: 4xx response ending the body of a later, pipelined
 request

---
 src/response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/response.rs b/src/response.rs
index adc0b89..ce7b46c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -464,6 +464,7 @@ impl ConnectionParser {
         // before sending its body cf
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
+            && self.request_index() == self.response_index()
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
         {
-- 
2.43.0


From e0ee24d554f50893023ac5c2bf67d452be2e578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:05 +0000
Subject: [PATCH 06/43] fix: raw header data of interim responses lost or mixed
 with other data

---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index ce7b46c..4386d24 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -449,6 +449,8 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // Finalize sending raw header data of the interim response.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From 4c41f256655aa6eb8faf9ab054f7ccee571b8dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 07/43] fix: gzip header fields split between data chunks

---
 src/decompressors.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..f3685b5 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -422,6 +422,8 @@ struct GzipBufWriter {
     buffer: Vec<u8>,
     flags: u8,
     xlen: u16,
+    /// First byte of a 16 bit field whose second byte has not arrived yet.
+    half: Option<u8>,
     inner: flate2::write::DeflateDecoder<Cursor<Box<[u8]>>>,
     state: GzState,
 }
@@ -432,6 +434,7 @@ impl GzipBufWriter {
             buffer: Vec::with_capacity(10),
             flags: 0,
             xlen: 0,
+            half: None,
             inner: flate2::write::DeflateDecoder::new(buf),
             state: GzState::Start,
         }
@@ -446,12 +449,20 @@ impl GzipBufWriter {
             tuple((tag(b"\x1f\x8b\x08"), le_u8, le_i32, le_u8, le_u8))(data)?;
         Ok((rest, flags))
     }
+
+    /// Parses a 16 bit field, the first byte of which may have been seen already.
+    fn parse_u16<'a>(half: &mut Option<u8>, data: &'a [u8]) -> nom::IResult<&'a [u8], u16> {
+        if let (Some(low), Some(high)) = (*half, data.first()) {
+            *half = None;
+            return Ok((&data[1..], u16::from_le_bytes([low, *high])));
+        }
+        nom::number::streaming::le_u16(data)
+    }
 }
 
 impl Write for GzipBufWriter {
     fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
         use nom::bytes::streaming::{tag, take_until};
-        use nom::number::streaming::le_u16;
         use nom::sequence::tuple;
 
         const FHCRC: u8 = 1 << 1;
@@ -489,12 +500,16 @@ impl Write for GzipBufWriter {
                 },
                 GzState::Xlen => {
                     if self.flags & FEXTRA != 0 {
-                        match le_u16::<&[u8], nom::error::Error<&[u8]>>(parse) {
+                        match GzipBufWriter::parse_u16(&mut self.half, parse) {
                             Ok((rest, xlen)) => {
                                 parse = rest;
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() == data.len() {
+                                    self.half = parse.first().copied().or(self.half);
+                                    return Ok(data.len());
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
@@ -565,11 +580,15 @@ impl Write for GzipBufWriter {
                 }
                 GzState::Crc => {
                     if self.flags & FHCRC != 0 {
-                        match le_u16::<&[u8], nom::error::Error<&[u8]>>(parse) {
+                        match GzipBufWriter::parse_u16(&mut self.half, parse) {
                             Ok((rest, _)) => {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() == data.len() {
+                                    self.half = parse.first().copied().or(self.half);
+                                    return Ok(data.len());
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
-- 
2.43.0


From fe148e7e14595dc69c44519a2a8837bab2c09a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:41 +0000
Subject: [PATCH 08/43] fix: request lzma layer limit counting layers of other
 codings

---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index b595a73..1af2cc4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1159,6 +1159,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1201,9 +1202,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From a3cc858462b15caf59d60efa2c213e324c518c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:26 +0000
Subject: [PATCH 09/43] fix: start of a zlib body lost when it arrives before
 the coding is recognised

---
 src/decompressors.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index f3685b5..7ab2bb2 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -713,6 +713,9 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
+    /// Data given to the writer so far, kept while it has produced no output so that
+    /// a restart can begin with the first byte of the stream.
+    history: Option<Vec<u8>>,
     /// Options for decompression
     options: Options,
 }
@@ -768,6 +771,11 @@ impl InnerDecompressor {
             writer: Some(writer),
             passthrough,
             restarts: 0,
+            history: if encoding == HtpContentEncoding::LZMA {
+                None
+            } else {
+                Some(Vec::new())
+            },
             options,
         })
     }
@@ -800,6 +808,9 @@ impl InnerDecompressor {
                 // Flush all of the bytes the writer has written to our temporary
                 // buffer of fixed size.
                 if let Some(cursor) = writer.get_mut() {
+                    if cursor.position() > 0 {
+                        self.history = None;
+                    }
                     inner.write_all(&cursor.get_ref()[0..cursor.position() as usize])?;
                     cursor.set_position(0);
                 }
@@ -855,6 +866,12 @@ impl Write for InnerDecompressor {
                     } else {
                         Ok(consumed)
                     };
+                    if let Some(mut history) = self.history.take() {
+                        if history.len() + consumed <= ENCODING_CHUNK_SIZE {
+                            history.extend_from_slice(&data[..consumed]);
+                            self.history = Some(history);
+                        }
+                    }
                     self.writer.replace(writer);
                     result
                 }
@@ -870,11 +887,17 @@ impl Write for InnerDecompressor {
                         _ => {
                             // try to restart, any data in the temp buffer will be
                             // discarded
+                            let history = self.history.replace(Vec::new()).unwrap_or_default();
                             if self.restart().is_err() {
+                                self.set_passthrough(true);
+                                if let Some(inner) = &mut self.inner {
+                                    inner.write_all(&history)?;
+                                }
                                 self.try_passthrough(data)
                             } else {
                                 // Recursion: restart will fail after a small
                                 // number of attempts
+                                self.write_all(&history)?;
                                 self.write(data)
                             }
                         }
-- 
2.43.0


From efe25f212c0872514c801d07f582d4d5b2bf5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:41 +0000
Subject: [PATCH 10/43] fix: whole data chunk taken for the end of a buffered
 response line

---
 src/response.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4386d24..617e6b5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1391,18 +1391,11 @@ impl ConnectionParser {
             if response_next_byte.is_none() {
                 return self.state_response_complete(input);
             }
-            let lf = response_next_byte
-                .map(|byte| *byte == b'\n')
-                .unwrap_or(false);
-            if !lf {
-                if let Ok((_, line)) = take_till_lf(work) {
-                    self.response_data_consume(input, line.len());
-                    work = line;
-                } else {
-                    return self.handle_response_absent_lf(input);
-                }
+            if let Ok((_, line)) = take_till_lf(work) {
+                self.response_data_consume(input, line.len());
+                work = line;
             } else {
-                self.response_data_consume(input, work.len());
+                return self.handle_response_absent_lf(input);
             }
         }
         if !self.response_buf.is_empty() {
-- 
2.43.0


From dffada38fb01ec1b009260c01a8e8921a9ace9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:15 +0000
Subject: [PATCH 11/43] fix: transaction of a refused CONNECT completed twice,
 or never

---
 src/connection_parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..8f1e2ce 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -912,12 +912,13 @@ impl ConnectionParser {
             self.response_receiver_finalize_clear(input)?;
         }
         // Check if we want to signal the caller to send request data
-        self.request_parser_check_waiting()?;
-        // Otherwise finalize the transaction
+        let waiting = self.request_parser_check_waiting();
+        // Finalize the transaction, now: if the caller is signalled it may be a
+        // long time before there is more response data, or there may be none.
         self.finalize(response_index)?;
         self.response_next();
         self.response_state = State::IDLE;
-        Ok(())
+        waiting
     }
 
     /// Check if we had previously signalled the caller to give us response
-- 
2.43.0


From 3c11d0b796ed31807ddf3904333cc7591cdb2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:21 +0000
Subject: [PATCH 12/43] fix: response parser does not yield to a request parser
 that waits for it

request_parser_check_waiting looked at the status of the response stream
instead of the request stream, so that the response following the one to a
CONNECT could be parsed before the deferred request data it answers.
---
 src/connection_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 8f1e2ce..d97d9d4 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -937,7 +937,7 @@ impl ConnectionParser {
         // It is not enough to check only in_status here. Because of pipelining, it's possible
         // that many inbound transactions have been processed, and that the parser is
         // waiting on a response that we have not seen yet.
-        if self.response_status == HtpStreamState::DATA_OTHER
+        if self.request_status == HtpStreamState::DATA_OTHER
             && self.response_index() == self.request_index()
         {
             return Err(HtpStatus::DATA_OTHER);
-- 
2.43.0


From 3226ca80c006277be0e6724b5cffc2c4d14bf3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:30 +0000
Subject: [PATCH 13/43] fix: response parser does not yield to the request
 parser after a 407 to CONNECT

Any other refusal stops the response parser at the end of the transaction, so
that request data deferred by the CONNECT is parsed before the response that
answers it; a 407 did not.
---
 src/response.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 617e6b5..86439b1 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -373,14 +373,9 @@ impl ConnectionParser {
                 self.response_state = State::FINALIZE;
                 // we may have response headers
                 return self.state_response_headers(input);
-            } else if response_tx.response_status_number.eq_num(407) {
-                // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
-                    self.request_status = HtpStreamState::DATA
-                }
             } else {
-                // This is a failed CONNECT stream, which means that
-                // we can unblock request parsing
+                // This is a failed CONNECT stream (or a proxy telling us
+                // to auth), which means that we can unblock request parsing
                 if self.request_status != HtpStreamState::ERROR {
                     self.request_status = HtpStreamState::DATA
                 }
-- 
2.43.0


From 15df20071e037ab5cebf199d08a054c1460d2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:16 +0000
Subject: [PATCH 14/43] fix: response headers of an accepted CONNECT lost when
 tunnel data is already waiting

The request parser decided about the tunnel as soon as it had the status line
of the response; the response stream was then switched to tunnel mode before
its header block was parsed.
---
 src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 1af2cc4..ddabfc9 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -297,8 +297,8 @@ impl ConnectionParser {
         }
         let req = req.unwrap();
 
-        // Check that we saw the response line of the current inbound transaction.
-        if req.response_progress <= HtpResponseProgress::LINE {
+        // Check that we saw the response headers of the current inbound transaction.
+        if req.response_progress <= HtpResponseProgress::HEADERS {
             return Err(HtpStatus::DATA_OTHER);
         }
         // A 2xx response means a tunnel was established. Anything
-- 
2.43.0


From 0e570736129359c86cc9a3023dec0000a6f4b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:47 +0000
Subject: [PATCH 15/43] fix: lost bytes of a close-delimited response body not
 counted

Unlike in a body of known length, a gap was neither added to the message length
nor reported as consumed.
---
 src/response.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 86439b1..c320902 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -330,13 +330,19 @@ impl ConnectionParser {
     /// when more data is needed.
     pub fn response_body_identity_stream_close(&mut self, data: &ParserData) -> Result<()> {
         if data.is_gap() {
-            // Send the gap to the data hooks
+            let gap_len = data.len();
             let resp = self.response_mut();
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let mut tx_data = Data::new(resp.unwrap(), data);
+            let resp = resp.unwrap();
+
+            resp.response_message_len = resp.response_message_len.wrapping_add(gap_len as u64);
+            // Send the gap to the data hooks
+            let mut tx_data = Data::new(resp, data);
             self.response_run_hook_body_data(&mut tx_data)?;
+            // Adjust the counters.
+            self.response_data_consume(data, gap_len);
         } else if !data.is_empty() {
             // Consume all data from the input buffer.
             self.response_body_data(data.data())?;
-- 
2.43.0


From 422452cdc278406f629a38b6af591fbcf1a3af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:54 +0000
Subject: [PATCH 16/43] fix: a stopped or failed stream direction revived by
 the other direction's CONNECT or 101 response

---
 src/request.rs  | 6 +++++-
 src/response.rs | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index ddabfc9..ebd71f8 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,11 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if self.response_status != HtpStreamState::ERROR
+                    && self.response_status != HtpStreamState::STOP
+                {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index c320902..c344462 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -382,7 +382,7 @@ impl ConnectionParser {
             } else {
                 // This is a failed CONNECT stream (or a proxy telling us
                 // to auth), which means that we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status == HtpStreamState::DATA_OTHER {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -417,7 +417,9 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if self.request_status != HtpStreamState::ERROR
+                    && self.request_status != HtpStreamState::STOP
+                {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From 41673c3294a9690515db64b2dfb0fe5f1929bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:07 +0000
Subject: [PATCH 17/43] fix: decompressor callbacks use a stale address after
 the parser was moved

---
 src/connection_parser.rs | 4 ++++
 src/request.rs           | 7 +++++--
 src/response.rs          | 7 +++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index d97d9d4..20fa09e 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -291,6 +291,9 @@ pub struct ConnectionParser {
     /// that the response parsing code should stop at the end of the current request
     /// in order to allow more requests to be produced.
     pub response_data_other_at_tx_end: bool,
+    /// Where this parser is right now. Shared with the decompressor callbacks and
+    /// refreshed before they can run, because the parser may be moved between calls.
+    pub(crate) address: Rc<Cell<*mut ConnectionParser>>,
     /// The time when the last request data chunk was received.
     pub request_timestamp: OffsetDateTime,
     /// How many bytes from the last input chunk have we consumed
@@ -380,6 +383,7 @@ impl ConnectionParser {
             request_status: HtpStreamState::NEW,
             response_status: HtpStreamState::NEW,
             response_data_other_at_tx_end: false,
+            address: Rc::new(Cell::new(std::ptr::null_mut())),
             request_timestamp: OffsetDateTime::from(SystemTime::now()),
             request_bytes_consumed: 0,
             request_chunk_count: 0,
diff --git a/src/request.rs b/src/request.rs
index ebd71f8..27fe853 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -22,6 +22,7 @@ use nom::sequence::tuple;
 use std::{
     cmp::{min, Ordering},
     mem::take,
+    rc::Rc,
 };
 use time::OffsetDateTime;
 
@@ -1013,6 +1014,8 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn request_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        let address: *mut ConnectionParser = self;
+        self.address.set(address);
         // None data is used to indicate the end of request body.
         // Keep track of body size before decompression.
         let req = self.request_mut();
@@ -1265,12 +1268,12 @@ impl ConnectionParser {
                 // the chain of writers
 
                 // TODO: fix lifetime error and remove this line!
-                let connp_ptr: *mut ConnectionParser = self as *mut ConnectionParser;
+                let connp_ptr = Rc::clone(&self.address);
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).request_decompressor_callback(data)
+                            (*connp_ptr.get()).request_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
diff --git a/src/response.rs b/src/response.rs
index c344462..c7c977c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -23,6 +23,7 @@ use nom::{bytes::streaming::take_till as streaming_take_till, error::ErrorKind,
 use std::{
     cmp::{min, Ordering},
     mem::take,
+    rc::Rc,
 };
 use time::OffsetDateTime;
 
@@ -1055,6 +1056,8 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn response_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        let address: *mut ConnectionParser = self;
+        self.address.set(address);
         // None data is used to indicate the end of response body.
         // Keep track of body size before decompression.
         let resp = self.response_mut();
@@ -1364,12 +1367,12 @@ impl ConnectionParser {
                 // the chain of writers
 
                 // TODO: fix lifetime error and remove this line!
-                let connp_ptr = self as *mut Self;
+                let connp_ptr = Rc::clone(&self.address);
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).response_decompressor_callback(data)
+                            (*connp_ptr.get()).response_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
-- 
2.43.0


From d2227b733336218fa4b93dc537b37fdec59651db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:48 +0000
Subject: [PATCH 18/43] fix: arithmetic overflow on %u escapes with non-hex
 digits when invalid encodings are processed

---
 src/urlencoded.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..8784c58 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -164,16 +164,16 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
     let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
+        (c1 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c1 - b'0'
+        c1.wrapping_sub(b'0')
     };
     decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
+    decoded_byte = decoded_byte.wrapping_add(if c2 >= b'A' {
+        (c2 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c2 - b'0'
-    };
+        c2.wrapping_sub(b'0')
+    });
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From 3c03e73a3213cc680e878f2a6ccf9835674775f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:03 +0000
Subject: [PATCH 19/43] fix: an empty media type in Content-Type ended the
 parsing of the request stream

---
 src/parsers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..2f7e506 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, tag_no_case, take_until, take_while},
+    bytes::complete::{is_not, tag, tag_no_case, take_till, take_until, take_while},
     combinator::{map, not, opt, peek},
     error::ErrorKind,
     multi::many0,
@@ -26,7 +26,10 @@ use nom::{
 fn content_type() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         map(
-            tuple((take_ascii_whitespace(), is_not(";, "))),
+            tuple((
+                take_ascii_whitespace(),
+                take_till(|c| c == b';' || c == b',' || c == b' '),
+            )),
             |(_, content_type)| content_type,
         )(input)
     }
-- 
2.43.0


From bdeaa5f8385bf1f857960fa84fdc5d4746594d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:03 +0000
Subject: [PATCH 20/43] fix: a folded Content-Length was not flagged as request
 smuggling

---
 src/request.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 27fe853..7cbc068 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -781,6 +781,9 @@ impl ConnectionParser {
             for h in headers {
                 let mut flags = 0;
                 let name_flags = h.name.flags;
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 // Ignore LWS after field-name.
                 if name_flags.is_set(HeaderFlags::NAME_TRAILING_WHITESPACE) {
                     // Log only once per transaction.
-- 
2.43.0


From a4d1408de71b53cc5e22156960a5f8180f7c26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:03 +0000
Subject: [PATCH 21/43] fix: a response without a request moved an unfinished
 request into another transaction

---
 src/connection_parser.rs |  5 +++++
 src/response.rs          |  2 +-
 src/transactions.rs      | 15 ++++++++++++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 20fa09e..008ba21 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -440,6 +440,11 @@ impl ConnectionParser {
         self.transactions.request_next()
     }
 
+    /// Keep requests out of the current response transaction, which has no request
+    pub fn response_unsolicited(&mut self) {
+        self.transactions.response_unsolicited()
+    }
+
     /// Advance to the next response
     /// Returns the next response transaction id
     pub fn response_next(&mut self) -> usize {
diff --git a/src/response.rs b/src/response.rs
index c7c977c..74a25a4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1471,7 +1471,7 @@ impl ConnectionParser {
             tx.request_uri = uri.path.clone();
             tx.parsed_uri = Some(uri);
             tx.request_progress = HtpRequestProgress::COMPLETE;
-            self.request_next();
+            self.response_unsolicited();
         }
         self.response_content_length = None;
         self.response_body_data_left = None;
diff --git a/src/transactions.rs b/src/transactions.rs
index 45a8893..d7f20c8 100644
--- a/src/transactions.rs
+++ b/src/transactions.rs
@@ -11,6 +11,8 @@ pub struct Transactions {
     logger: Logger,
     request: usize,
     response: usize,
+    /// First index after the responses that came without a request
+    unsolicited: usize,
     transactions: BTreeMap<usize, Transaction>,
 }
 
@@ -22,6 +24,7 @@ impl Transactions {
             logger: logger.clone(),
             request: 0,
             response: 0,
+            unsolicited: 0,
             transactions: BTreeMap::default(),
         }
     }
@@ -108,10 +111,20 @@ impl Transactions {
     /// Returns the new request transaction index
     pub fn request_next(&mut self) -> usize {
         self.check_free(self.request);
-        self.request = self.request.wrapping_add(1);
+        self.request = self.request.wrapping_add(1).max(self.unsolicited);
         self.request
     }
 
+    /// Keep requests out of the current response transaction, which has no request of
+    /// its own. A request that is still being parsed keeps its transaction.
+    pub fn response_unsolicited(&mut self) {
+        if self.request == self.response {
+            self.request_next();
+        } else {
+            self.unsolicited = self.response.wrapping_add(1);
+        }
+    }
+
     /// Increment the response transaction number.
     /// May cause the previous transaction to be freed if configured to auto-destroy.
     /// Returns the new response transaction index
-- 
2.43.0


From 313df172cc510913710b655659ca75377391a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:55 +0000
Subject: [PATCH 22/43] fix: the status a server is expected to answer was
 forgotten at the next url-encoded field

---
 src/urlencoded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 8784c58..130687b 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
-- 
2.43.0


From 668bab5a5bfb6cc0b96b2da5651f3a41467385ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:00 +0000
Subject: [PATCH 23/43] fix: the status a server is expected to answer to a
 path or request line was forgotten at the next byte

---
 src/urlencoded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 130687b..bc06cb3 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -504,7 +504,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -523,7 +525,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From 842dd652385dd9ec32e36ee394e6513542c3c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:26 +0000
Subject: [PATCH 24/43] fix: malformed escapes and NUL bytes in a path did not
 give the expected server status

---
 src/urlencoded.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index bc06cb3..258197f 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -324,10 +324,12 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
                 return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
@@ -341,7 +343,10 @@ fn path_decode_valid_hex(
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -360,7 +365,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -370,7 +375,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -438,11 +446,18 @@ fn path_parse_other(
         let (remaining_input, byte) = be_u8(i)?;
         // One non-encoded byte.
         // Did we get a raw NUL byte?
-        if byte == 0 && cfg.nul_raw_terminates {
-            // Terminate the path at the encoded NUL byte.
-            return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
+        let mut expected_status_code = HtpUnwanted::IGNORE;
+        if byte == 0 {
+            expected_status_code = cfg.nul_raw_unwanted;
+            if cfg.nul_raw_terminates {
+                // Terminate the path at the encoded NUL byte.
+                return Ok((b"", (byte, expected_status_code, 0, false)));
+            }
+        }
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
-- 
2.43.0


From b109232669138147628dcc39fd78f718c58b5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:17 +0000
Subject: [PATCH 25/43] fix: the end of a body whose decompression failed was
 not signalled

---
 src/decompressors.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 7ab2bb2..950ab0e 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -822,8 +822,8 @@ impl InnerDecompressor {
                     match e.kind() {
                         std::io::ErrorKind::WriteZero => {}
                         _ => {
-                            self.restart()?;
-                            break;
+                            self.inner.replace(inner);
+                            return self.restart();
                         }
                     }
                 } else {
@@ -967,21 +967,22 @@ impl Decompress for InnerDecompressor {
 
     // Tell all decompressors that there is no more data to receive.
     fn finish(&mut self) -> std::io::Result<()> {
-        let output = if let Some(mut writer) = self.writer.take() {
-            self.flush_writer(&mut writer)?;
-            Some(writer.finish()?)
-        } else {
-            None
+        let output = match self.writer.take() {
+            Some(mut writer) => self
+                .flush_writer(&mut writer)
+                .and_then(|_| writer.finish())
+                .map(Some),
+            None => Ok(None),
         };
 
+        // The end of a damaged body is signalled too.
         if let Some(mut inner) = self.inner.take() {
-            if let Some(output) = output {
+            if let Ok(Some(output)) = &output {
                 inner.write_all(&output.get_ref()[..output.position() as usize])?;
             }
-            inner.finish()
-        } else {
-            Ok(())
+            inner.finish()?;
         }
+        output.map(|_| ())
     }
 }
 
-- 
2.43.0


From 6e517c81162c68784a37e52727c4929fd41915ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:15 +0000
Subject: [PATCH 26/43] fix: keep the last response header when the stream
 closes after the CR of the empty line

---
 src/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 5ecdda4..5648813 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -160,7 +160,14 @@ impl Parser {
                     map(
                         tuple((
                             complete_tag("\r\n\r"),
-                            take_while1(|c| c == b'\r' || c == b' ' || c == b'\t'),
+                            |i| {
+                                let ws = |c| c == b'\r' || c == b' ' || c == b'\t';
+                                if self.complete {
+                                    complete(take_while1(ws))(i)
+                                } else {
+                                    take_while1(ws)(i)
+                                }
+                            },
                             opt(complete_tag("\n")),
                             not(alt((complete_tag("\n"), complete_tag("\r\n")))),
                         )),
-- 
2.43.0


From 731407aa37121835ed57afa9cfbd4932135ff9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 27/43] fix: an at sign after the authority of a request URI
 does not end credentials

The search for credentials ran to the first '@' anywhere in the URI, so that
http://a.example/?x=@b.example/ was reported with user a.example/?x= and host
b.example. The authority ends at the first '/', '?' or '#'.
---
 src/parsers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 2f7e506..fa3923e 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -141,7 +141,14 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
         let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+            tuple((
+                tag("//"),
+                peek(not(tag("/"))),
+                // The authority ends with a slash, question mark or hash character, an
+                // at sign after that is not a delimiter.
+                take_till(|c| c == b'@' || c == b'/' || c == b'?' || c == b'#'),
+                tag("@"),
+            ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From c962d093fab7075309da98ee1820854a79a544d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 28/43] fix: an empty query does not hide the fragment of a
 request URI

The query parser failed on a '?' followed by '#' or nothing, after which the
rest of the URI was dropped: /p?#f was reported without query and fragment.
---
 src/parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index fa3923e..585d00a 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -265,7 +265,9 @@ pub fn path() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
 pub fn query() -> impl Fn(&[u8]) -> IResult<&[u8], &[u8]> {
     move |input| {
         // Skip the starting '?'
-        map(tuple((tag("?"), is_not("#"))), |(_, query)| query)(input)
+        map(tuple((tag("?"), take_till(|c| c == b'#'))), |(_, query)| {
+            query
+        })(input)
     }
 }
 
-- 
2.43.0


From bdaec42d6e4f39ef6593e0806e947e650d148dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 29/43] fix: the colon of an empty port is not part of the path
 of a request URI

http://a.example:/p was reported with path ':/p'.
---
 src/uri.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..d3a4355 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,13 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{
+    bytes::complete::tag,
+    combinator::{map, opt},
+    multi::many0,
+    sequence::tuple,
+    IResult,
+};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +190,7 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                opt(tuple((hostname(), opt(port()), opt(empty_port)))),
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +214,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
@@ -366,6 +372,12 @@ impl Uri {
     }
 }
 
+/// Takes the colon of an empty port (e.g. "http://www.example.com:/path"), which is neither
+/// part of the hostname nor of the path.
+fn empty_port(input: &[u8]) -> IResult<&[u8], ()> {
+    map(tuple((tag(":"), many0(tag(" ")))), |_| ())(input)
+}
+
 /// Normalize URI path in place. This function implements the remove dot segments algorithm
 /// specified in RFC 3986, section 5.2.4.
 fn normalize_uri_path_inplace(s: &mut Bstr) {
-- 
2.43.0


From 2055c589078c8659d540e1c5532faa5672e9f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 30/43] fix: the complete normalized URI includes the port

Transaction::normalize_parsed_uri() left out the port string, which
generate_normalized_uri() and htp_uri_port() read, so that it was missing from
both for every request, against their documentation.
---
 src/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transaction.rs b/src/transaction.rs
index 070c1d4..d94b93d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -1017,6 +1017,7 @@ impl Transaction {
             uri.username = incomplete.normalized_username(&mut self.flags);
             uri.password = incomplete.normalized_password(&mut self.flags);
             uri.hostname = incomplete.normalized_hostname(&mut self.flags);
+            uri.port = incomplete.port.clone();
             uri.port_number = incomplete.normalized_port(&mut self.flags);
             uri.query = incomplete.query.clone();
             uri.fragment = incomplete.normalized_fragment(&mut self.flags);
-- 
2.43.0


From ff4de1b0181ad2884eaacfa23cbe1caf6bedf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:07 +0000
Subject: [PATCH 31/43] fix: a port with a plus sign is invalid

convert_port() accepted '+80', so that the host of such a request was not
flagged as invalid.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..3eda6d2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,8 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    // from_str would accept a plus sign.
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 18edad2b782e5ce164f0950529fe36685beff1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 32/43] fix: a header whose folded name is known but whose
 value is still incomplete was read as a line without colon

---
 src/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 5648813..cef554a 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -468,7 +468,7 @@ impl Parser {
 
     /// Parses a header name and value with, or without a colon separator
     fn header(&self) -> impl Fn(&[u8]) -> IResult<&[u8], Header> + '_ {
-        move |input| alt((complete(self.header_with_colon()), self.header_sans_colon()))(input)
+        move |input| alt((self.header_with_colon(), self.header_sans_colon()))(input)
     }
 
     /// Parse multiple headers and indicate if end of headers or null was found
-- 
2.43.0


From 28b56b632d4e877101abb240b76b5a95b66bdd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 33/43] fix: a deformed end of line in request headers depended
 on how the stream was cut

---
 src/headers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index cef554a..c52168f 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -317,6 +317,13 @@ impl Parser {
                 value = &value[..value.len() - 1];
                 remaining = &input[value.len()..];
             }
+            // In a request LF CR may yet turn out to be a deformed end of line
+            if self.side == Side::Request
+                && !self.complete
+                && (remaining == b"\n\r" || remaining == b"\n\r\r")
+            {
+                return Err(Incomplete(Needed::new(1)));
+            }
             let (remaining, result) = self.folding_or_terminator()(remaining)?;
             Ok((remaining, (value, result)))
         }
-- 
2.43.0


From f5a6943aee118dfbadb70f0905d5d7e1748e462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:01 +0000
Subject: [PATCH 34/43] fix: whitespace after a deformed end of line stopped
 the parsing of response headers

---
 src/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index c52168f..742ae47 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -292,6 +292,8 @@ impl Parser {
                     ((end, flags), Some(fold))
                 }),
                 map(self.null_or_eol(), |end| (end, None)),
+                // A deformed end of line in front of whitespace
+                map(self.complete_null_or_eol(), |end| (end, None)),
             ))(input)
         }
     }
-- 
2.43.0


From 74cc2eb93c0a7721a124bf8130ea1af738524c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:44 +0000
Subject: [PATCH 35/43] fix: a header with an empty name was reported as a line
 without colon

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 7cbc068..38eac95 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -823,7 +823,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index 74a25a4..668f048 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -854,7 +854,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From c062acc90d6cd733c27a59a91f896e0d2f8d162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 36/43] fix: log an invalid request chunk length that is no
 number

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 38eac95..8cb2d10 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -410,7 +410,7 @@ impl ConnectionParser {
                 let req = self.request_mut().unwrap();
                 req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&data).unwrap_or((None, false));
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
-- 
2.43.0


From d426db265bb33bab1bb2b37bca7bceff4df61ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 37/43] fix: keep the beginning of a line that is no chunk
 length in the response body

---
 src/response.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 668f048..0e35de4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -205,14 +205,14 @@ impl ConnectionParser {
                         data = remaining;
                         continue;
                     }
-                    let mut data = buffered;
+                    let mut data = buffered.clone();
                     data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
                     match parse_chunked_length(&data) {
                         Ok((len, ext)) => {
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_add(data.len() as u64);
                             self.response_chunked_length = len;
                             if ext {
                                 htp_warn!(
@@ -251,6 +251,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // The beginning of the line is part of the body, too.
+                            if !buffered.is_empty() {
+                                self.response_body_data(Some(buffered.as_slice()))?;
+                            }
                         }
                     }
 
@@ -270,6 +274,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        // The beginning of the line is part of the body, too.
+                        let buffered = take(&mut self.response_buf);
+                        if !buffered.is_empty() {
+                            self.response_body_data(Some(buffered.as_slice()))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 75f034f17f13cbbd11dfd5cd341244ebbdb0fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 38/43] fix: keep buffered response data that follows a status
 line ending in a bare CR

---
 src/response.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 0e35de4..010cdcd 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -667,7 +667,17 @@ impl ConnectionParser {
                 // and the buffered data.
                 self.response_buf.clear();
                 self.response_data_consume(input, line.len().saturating_sub(buffered));
-                self.response_line_complete(line, input)
+                self.response_line_complete(line, input)?;
+                // The buffered data can go on after the line ending.
+                if line.len() < buffered {
+                    let rest = Bstr::from(&data[line.len()..buffered]);
+                    if self.response_state == State::HEADERS {
+                        self.response_header.replace(rest);
+                    } else {
+                        self.response_buf = rest;
+                    }
+                }
+                Ok(())
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-- 
2.43.0


From 073560671107fdb61008e2783a2b4fb91de19854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 39/43] fix: flag a Host header without a hostname as invalid

---
 src/transaction.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index d94b93d..cf91a8d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -875,10 +875,13 @@ impl Transaction {
                         }
                     }
                 }
-            } else if self.request_hostname.is_some() {
+            } else {
                 // Invalid host information in the headers.
-                // Raise the flag, even though the host information in the headers is invalid.
-                self.flags.set(HtpFlags::HOST_AMBIGUOUS)
+                self.flags.set(HtpFlags::HOSTH_INVALID);
+                if self.request_hostname.is_some() {
+                    // Raise the flag, even though the host information in the headers is invalid.
+                    self.flags.set(HtpFlags::HOST_AMBIGUOUS)
+                }
             }
         } else {
             // No host information in the headers.
-- 
2.43.0


From d7b38d7aebe2f13789b8e4c8326717ea4d026ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 40/43] fix: flag data behind the port of a Host header as
 invalid

---
 src/parsers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 585d00a..ef1d9ea 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -301,8 +301,10 @@ type parsed_hostport<'a> = (&'a [u8], parsed_port<'a>, bool);
 pub fn parse_hostport(input: &[u8]) -> IResult<&[u8], parsed_hostport> {
     let (input, host) = hostname()(input)?;
     let mut valid = validate_hostname(host);
-    if let Ok((_, p)) = port()(input) {
+    if let Ok((rest, p)) = port()(input) {
         if let Some(port) = convert_port(p) {
+            // Trailing data after the port is invalid, too, e.g. www.example.com:80/path
+            valid &= rest.is_empty();
             return Ok((input, (host, Some((p, Some(port))), valid)));
         } else {
             return Ok((input, (host, Some((p, None)), false)));
-- 
2.43.0


From 26030a90e61dd41239f536574c92395ddcc8525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 41/43] fix: refuse a request beyond the transaction limit
 before parsing it

---
 src/request.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 8cb2d10..1d5c73b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1445,6 +1445,10 @@ impl ConnectionParser {
                 return Err(HtpStatus::DATA);
             }
         }
+        if self.request().is_none() {
+            // There are too many transactions already.
+            return Err(HtpStatus::ERROR);
+        }
         self.request_reset();
         // Change state to TRANSACTION_START
         // Ignore the result.
-- 
2.43.0


From 16baead5cb2e8f8767351f915af4ccd7718a344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 42/43] fix: honour the content encoding processing chosen in a
 headers callback

---
 src/connection_parser.rs |  8 ++++++--
 src/request.rs           | 17 +++++++++++++++++
 src/response.rs          | 17 +++++++++++++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 008ba21..7c7db7a 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -706,12 +706,14 @@ impl ConnectionParser {
                 req.flags.set(HtpFlags::MULTI_PACKET_HEAD)
             }
             req.process_request_headers()?;
+            self.request_initialize_decompressors()?;
+            let encoding = self.request().unwrap().request_content_encoding_processing;
             // Run hook REQUEST_HEADERS.
             self.cfg
                 .hook_request_headers
                 .clone()
                 .run_all(self, self.request_index())?;
-            self.request_initialize_decompressors()?;
+            self.request_override_decompressors(encoding)?;
 
             // We still proceed if the request is invalid.
             self.request_state = State::CONNECT_CHECK;
@@ -868,12 +870,14 @@ impl ConnectionParser {
     pub fn state_response_headers(&mut self, input: &mut ParserData) -> Result<()> {
         // Finalize sending raw header data.
         self.response_receiver_finalize_clear(input)?;
+        self.response_initialize_decompressors()?;
+        let encoding = self.response().unwrap().response_content_encoding_processing;
         // Run hook RESPONSE_HEADERS.
         self.cfg
             .hook_response_headers
             .clone()
             .run_all(self, self.response_index())?;
-        self.response_initialize_decompressors()
+        self.response_override_decompressors(encoding)
     }
 
     /// Change transaction state to RESPONSE_LINE and invoke registered callbacks.
diff --git a/src/request.rs b/src/request.rs
index 1d5c73b..f6894a4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1254,6 +1254,23 @@ impl ConnectionParser {
         Ok(())
     }
 
+    /// Follow a REQUEST_HEADERS callback that asked for another processing of the body than
+    /// the one that was initialized according to the headers.
+    pub fn request_override_decompressors(&mut self, initial: HtpContentEncoding) -> Result<()> {
+        let req = self.request_mut();
+        if req.is_none() {
+            return Err(HtpStatus::ERROR);
+        }
+        let req = req.unwrap();
+
+        let encoding = req.request_content_encoding_processing;
+        if encoding != initial {
+            req.request_decompressor = None;
+            self.request_prepend_decompressor(encoding)?;
+        }
+        Ok(())
+    }
+
     /// Prepend a decompressor to the request
     fn request_prepend_decompressor(&mut self, encoding: HtpContentEncoding) -> Result<()> {
         let compression_options = self.cfg.compression_options;
diff --git a/src/response.rs b/src/response.rs
index 010cdcd..d464ae0 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1307,6 +1307,23 @@ impl ConnectionParser {
         Ok(())
     }
 
+    /// Follow a RESPONSE_HEADERS callback that asked for another processing of the body than
+    /// the one that was initialized according to the headers.
+    pub fn response_override_decompressors(&mut self, initial: HtpContentEncoding) -> Result<()> {
+        let resp = self.response_mut();
+        if resp.is_none() {
+            return Err(HtpStatus::ERROR);
+        }
+        let resp = resp.unwrap();
+
+        let encoding = resp.response_content_encoding_processing;
+        if encoding != initial {
+            resp.response_decompressor = None;
+            self.response_prepend_decompressor(encoding)?;
+        }
+        Ok(())
+    }
+
     fn response_decompressor_callback(&mut self, data: Option<&[u8]>) -> std::io::Result<usize> {
         // If no data is passed, call the hooks with NULL to signify the end of the
         // response body.
-- 
2.43.0


From 4007a27560adea28e45d85967abeeb2e92a54fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:32 +0000
Subject: [PATCH 43/43] fix: compare the Expect header value without regard to
 case

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index d464ae0..d75f117 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -485,7 +485,7 @@ impl ConnectionParser {
         {
             let response_tx = self.response_mut().unwrap();
             if let Some(expect) = response_tx.request_headers.get_nocase("expect") {
-                if expect.value.eq_slice("100-continue") {
+                if expect.value.eq_nocase("100-continue") {
                     self.request_state = State::FINALIZE;
                 }
             }
-- 
2.43.0

