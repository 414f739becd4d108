From 80c891359f34a42686cf3fb0a72491bf77d86d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:34 +0000
Subject: [PATCH 01/23] fix: deliver the leading bytes of a method starting
 with 'H' when the stream is split

---
 src/http1/parser.rs | 52 +++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..63e5253 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -558,7 +558,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -572,11 +572,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request, so deliver what has been consumed so far as the start of the method
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"H",
                 RequestMethod,
                 request_method
             );
@@ -586,7 +591,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -600,11 +605,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request, so deliver what has been consumed so far as the start of the method
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HT",
                 RequestMethod,
                 request_method
             );
@@ -614,7 +624,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -628,11 +638,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request, so deliver what has been consumed so far as the start of the method
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTT",
                 RequestMethod,
                 request_method
             );
@@ -642,7 +657,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -656,11 +671,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
+        // this is a request, so deliver what has been consumed so far as the start of the method
+        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
+            bs_replay!(context);
+
+            callback_transition!(
                 self,
+                handler,
                 context,
+                on_method,
+                b"HTTP",
                 RequestMethod,
                 request_method
             );
-- 
2.43.0


From 0d528e549e5244ed92eeb33fe747ba0cccdc26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 02/23] fix: do not read past the end of an empty stream when
 detecting the message type

---
 src/http1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 63e5253..a1b410c 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
@@ -540,7 +542,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             }
         }
 
-        exit_if_eos!(self, context);
         bs_next!(context);
 
         // make sure we have an upper-cased alphabetical character
-- 
2.43.0


From 0fa35e9f1433397993c17e59f31eacb62b1c63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:57 +0000
Subject: [PATCH 03/23] fix: treat a zero-length chunk with extensions as the
 last chunk

---
 src/http1/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index a1b410c..1ddf302 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2440,7 +2440,12 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn chunk_extensions_finished(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        set_state!(self, ChunkLengthLf, chunk_length_lf);
+        if self.length == 0 {
+            // last chunk, which is followed by the trailer instead of data
+            set_state!(self, HeaderLf1, header_lf1);
+        } else {
+            set_state!(self, ChunkLengthLf, chunk_length_lf);
+        }
 
         if handler.on_chunk_extensions_finished() {
             transition!(
-- 
2.43.0


From 505695c353dca47ed247553f4adff0ce63b98705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 04/23] fix: find a multipart boundary that directly follows a
 partial boundary match

---
 src/http1/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 1ddf302..99127bf 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2548,13 +2548,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing, starting with the
+            // current byte because it could be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2578,13 +2581,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing, starting with the
+            // current byte because it could be the start of the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2869,12 +2875,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // the current byte could be the start of the boundary
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From 9be227ae6124e13a6eca90e33fe32d8186ed4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 05/23] fix: report the byte that does not match the multipart
 boundary regardless of stream splits

---
 src/http1/parser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 99127bf..eda3982 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2660,14 +2660,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 );
             }
 
-            // we're parsing the initial boundary, and it's invalid
-            //
-            // there is one caveat to this error:
-            //     it will always report the first byte being invalid, even if
-            //     it's another byte that did not match, because we're using
-            //     bs_starts_with!() vs an individual byte check
+            // we're parsing the initial boundary, and it's invalid, so locate the invalid byte
+            let boundary = self.boundary.unwrap();
+            let mut index = get_upper14!(self) as usize;
+
             bs_next!(context);
 
+            while context.byte == boundary[index] {
+                index += 1;
+
+                bs_next!(context);
+            }
+
             exit_error!(MultipartBoundary, context.byte);
         } else if finished {
             // boundary comparison finished
-- 
2.43.0


From dd6e494f5c6cb62ef161d97812d9aa04b312fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 06/23] fix: do not count the final URL encoded bytes twice

---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index eda3982..d20ec09 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -295,6 +295,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             match self.parse(&mut handler, &mut context) {
                 Ok(Success::Eos(length)) => {
                     if self.length - length == 0 {
+                        // these bytes are counted again when parsing resumes with the same context
+                        self.byte_count -= length;
+
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
-- 
2.43.0


From b583fe0941443b2e7a02416666cc1f1facac128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 07/23] fix: reject a URL encoded body that ends within a hex
 sequence

---
 src/http1/parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index d20ec09..5352a02 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -295,6 +295,26 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             match self.parse(&mut handler, &mut context) {
                 Ok(Success::Eos(length)) => {
                     if self.length - length == 0 {
+                        // the body cannot end within a hex sequence
+                        let error = match self.state {
+                            ParserState::UrlEncodedNameHex1
+                            | ParserState::UrlEncodedNameHex2 => {
+                                Some(ParserError::UrlEncodedName(b'%'))
+                            },
+                            ParserState::UrlEncodedValueHex1
+                            | ParserState::UrlEncodedValueHex2 => {
+                                Some(ParserError::UrlEncodedValue(b'%'))
+                            },
+                            _ => None
+                        };
+
+                        if let Some(error) = error {
+                            self.state          = ParserState::Dead;
+                            self.state_function = Parser::dead;
+
+                            return Err(error);
+                        }
+
                         // these bytes are counted again when parsing resumes with the same context
                         self.byte_count -= length;
 
-- 
2.43.0


From 7fb97096063ed1ef048aebc58e3d51cf8c0c271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 08/23] fix: do not panic on byte 255 in header fields, tokens,
 and quoted values

---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From 6441d7da55b7d5bf460ae069f377c77f10d0b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 09/23] fix: reject a header line with an empty name

---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 5352a02..f3a1945 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1625,8 +1625,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        // make sure we have a token to collect in next state
+        if is_token(context.byte) {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From e24332f65420f67da9c899d4f456d5cf93604196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 10/23] fix: keep the upper stream identifier bits when a
 HTTP/2 frame header is split

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 40fd857db7c29faf08cdbb3cf11b28a408dec8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 11/23] fix: read the last GOAWAY stream identifier byte when
 the stream is split

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From 56ef8c0891059e512961275f0199d612e98dbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 12/23] fix: read the last SETTINGS value byte when the stream
 is split

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From b1d5aa0c1b81caf6e8a6634771bd1e2ad9e42652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 13/23] fix: do not read a setting from an empty SETTINGS frame

---
 src/http2/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..5f16f38 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -491,7 +491,12 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    // settings acknowledgement
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From caf00ed858a12cbab8375465146e5d83b25052c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 14/23] fix: ignore the reserved bit of PUSH_PROMISE and
 WINDOW_UPDATE payloads

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5f16f38..5e3c2be 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1179,7 +1179,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1513,7 +1513,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From 2b0635949e4f3d7dcfc8b3ae4a79a718e560fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 15/23] fix: deliver empty HTTP/2 payloads and PUSH_PROMISE
 without waiting for the next frame

---
 src/http2/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5e3c2be..f267bb5 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -88,6 +88,10 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -596,8 +600,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -781,8 +783,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -947,8 +947,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -964,8 +962,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1174,8 +1170,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1554,8 +1548,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From d8cb545018f06baf09fa022e2de22a9254ccb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 16/23] fix: refuse HTTP/2 frames that are too short for their
 fields or padding

---
 src/http2/parser.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index f267bb5..96699d0 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -47,6 +47,15 @@ macro_rules! actual_length {
     });
 }
 
+/// Exit with an error if the pad length and `$length` required bytes exceed the payload length.
+macro_rules! check_pad_length {
+    ($parser:expr, $length:expr) => ({
+        if pad_length!($parser) + $length > payload_length!($parser) {
+            exit_error!(Dead);
+        }
+    });
+}
+
 /// Decrease payload length.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
@@ -458,6 +467,26 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn frame_format_end(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        let pad_length = if has_flag!(self, FL_PADDED) { 1 } else { 0 };
+
+        // determine the least amount of payload bytes required by the frame type
+        let required_length = match (self.bit_data32a & 0xFF) as u8 {
+            FR_HEADERS => {
+                pad_length + if has_flag!(self, FL_PRIORITY) { 5 } else { 0 }
+            },
+            FR_PRIORITY => 5,
+            FR_RST_STREAM | FR_WINDOW_UPDATE => 4,
+            FR_SETTINGS => if payload_length!(self) > 0 { 6 } else { 0 },
+            FR_PUSH_PROMISE => pad_length + 4,
+            FR_GO_AWAY => 8,
+            FR_PING | FR_CONTINUATION => 0,
+            _ => pad_length
+        };
+
+        if payload_length!(self) < required_length {
+            exit_error!(Dead);
+        }
+
         // match frame type
         match (self.bit_data32a & 0xFF) as u8 {
             FR_DATA => {
@@ -588,6 +617,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data32a |= get_u8!(context) as u32;
 
         dec_payload_length!(self, 1);
+        check_pad_length!(self, 0);
 
         transition!(
             self,
@@ -803,6 +833,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data32a |= get_u8!(context) as u32;
 
         dec_payload_length!(self, 1);
+        check_pad_length!(self, 5);
 
         transition!(
             self,
@@ -820,6 +851,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data32a |= get_u8!(context) as u32;
 
         dec_payload_length!(self, 1);
+        check_pad_length!(self, 0);
 
         transition!(
             self,
@@ -1085,6 +1117,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data32a |= get_u8!(context) as u32;
 
         dec_payload_length!(self, 1);
+        check_pad_length!(self, 4);
 
         transition!(
             self,
@@ -1536,6 +1569,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         self.bit_data32a |= get_u8!(context) as u32;
 
         dec_payload_length!(self, 1);
+        check_pad_length!(self, 0);
 
         transition!(
             self,
-- 
2.43.0


From d0433fa3404d5319bdb2164c9b0bcc72ce8076c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:02 +0000
Subject: [PATCH 17/23] fix: accept hex sequences in query names

---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From d435839369f292bb286b02c12b63f1f69b66421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:19 +0000
Subject: [PATCH 18/23] fix: end query iteration after an invalid hex sequence

---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From 7d357a37d9c0c2e342eb33e9b1eb2af8c0a76db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 19/23] fix: keep a field name that ends with a slash or an
 upper-cased byte

---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..dc4ec01 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From 4cf866c02b278f81511804a1531a768468bd29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 20/23] fix: accept a delimiter directly after a quoted field
 value

---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index dc4ec01..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From bc5e417c0b1181b2db3bed2d38a1184bf75d4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:24 +0000
Subject: [PATCH 21/23] fix: report an incomplete escape in a quoted field
 value as a value error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From 53ed8235d536a325e29eb4c002f912d92ffcb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 22/23] fix: never build strings from bytes that are not valid
 UTF-8

---
 src/util/decode.rs | 17 +++++++++----
 src/util/field.rs  | 22 ++++++++++------
 src/util/mod.rs    | 62 ++++++++++++++++++++--------------------------
 src/util/query.rs  |  9 ++++---
 4 files changed, 58 insertions(+), 52 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..c60bf1b 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -96,13 +96,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
-        });
+        ($string:expr, $slice:expr) => (
+            $string.extend_from_slice($slice);
+        );
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut string  = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -120,7 +120,14 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
                     submit!(string, bs_slice!(context));
                 }
 
-                return Ok(string);
+                return match String::from_utf8(string) {
+                    Ok(string) => Ok(string),
+                    Err(error) => {
+                        let index = error.utf8_error().valid_up_to();
+
+                        Err(DecodeError::Byte(error.into_bytes()[index]))
+                    }
+                };
             }
         );
 
diff --git a/src/util/field.rs b/src/util/field.rs
index ba3027d..faf2d8d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -18,6 +18,7 @@ use byte::{ is_header_field, is_quoted_header_field, is_token };
 
 use byte_slice::ByteStream;
 use std::fmt;
+use std::str;
 
 /// Field errors.
 pub enum FieldError {
@@ -198,7 +199,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.name.extend_from_slice(bs_slice!(self.context));
                     }
 
-                    submit_name!(self);
+                    submit_name!(self, FieldError::Name);
                 }
             );
 
@@ -210,7 +211,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.context,
 
                         // on end-of-stream
-                        submit_name!(self)
+                        submit_name!(self, FieldError::Name)
                     );
 
                     if self.context.byte == b'"' {
@@ -234,11 +235,11 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.context,
 
                                     // on end-of-stream
-                                    submit_name_value!(self)
+                                    submit_name_value!(self, FieldError::Name, FieldError::Value)
                                 );
 
                                 if self.context.byte == self.delimiter {
-                                    submit_name_value!(self);
+                                    submit_name_value!(self, FieldError::Name, FieldError::Value);
                                 }
 
                                 // expected a semicolon to end the value
@@ -279,17 +280,22 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.value.extend_from_slice(bs_slice!(self.context));
                                 }
 
-                                submit_name_value!(self);
+                                submit_name_value!(self, FieldError::Name, FieldError::Value);
                             }
                         );
 
                         if bs_slice_length!(self.context) == 0 {
                             // name without a value
-                            submit_name!(self);
+                            submit_name!(self, FieldError::Name);
                         }
 
                         if self.context.byte == self.delimiter {
-                            submit_name_value!(self.name, bs_slice_ignore!(self.context));
+                            submit_name_value!(
+                                self,
+                                bs_slice_ignore!(self.context),
+                                FieldError::Name,
+                                FieldError::Value
+                            );
                         } else {
                             bs_jump!(self.context, bs_available!(self.context));
 
@@ -305,7 +311,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                 },
                 byte if byte == self.delimiter => {
                     // name without a value
-                    submit_name!(self);
+                    submit_name!(self, FieldError::Name);
                 },
                 byte if byte > 0x40 && byte < 0x5B => {
                     // upper-cased byte, let's lower-case it
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..a476bfd 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -26,52 +26,44 @@ macro_rules! submit_error {
     });
 }
 
+/// Convert a slice into a `String`. Submit an error with the invalid byte if it isn't valid UTF-8.
+macro_rules! into_string {
+    ($iter:expr, $slice:expr, $error:expr) => ({
+        let result = match str::from_utf8($slice) {
+            Ok(string) => Ok(string.to_string()),
+            Err(error) => Err($slice[error.valid_up_to()])
+        };
+
+        match result {
+            Ok(string) => string,
+            Err(byte) => {
+                $iter.context.byte = byte;
+
+                submit_error!($iter, $error);
+            }
+        }
+    });
+}
+
 macro_rules! submit_name {
-    ($iter:expr) => ({
+    ($iter:expr, $name_error:expr) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
+            into_string!($iter, &$iter.name, $name_error),
             None
         ));
     });
 }
+
 macro_rules! submit_name_value {
-    ($name:expr, $value:expr) => ({
+    ($iter:expr, $value:expr, $name_error:expr, $value_error:expr) => ({
         return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
-
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
-
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
-            }
+            into_string!($iter, &$iter.name, $name_error),
+            Some(into_string!($iter, $value, $value_error))
         ));
     });
 
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
-            }
-        ));
+    ($iter:expr, $name_error:expr, $value_error:expr) => ({
+        submit_name_value!($iter, &$iter.value, $name_error, $value_error);
     });
 }
 
diff --git a/src/util/query.rs b/src/util/query.rs
index c6f7bc9..febac9e 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -16,6 +16,7 @@
 
 use byte_slice::ByteStream;
 use std::fmt;
+use std::str;
 
 /// Query errors.
 pub enum QueryError {
@@ -184,7 +185,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.name.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name!(self);
+                        submit_name!(self, QueryError::Name);
                     }
                 );
 
@@ -226,7 +227,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name without a value
-                        submit_name!(self);
+                        submit_name!(self, QueryError::Name);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
@@ -257,7 +258,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.value.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError::Name, QueryError::Value);
                     }
                 );
 
@@ -287,7 +288,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name with a value
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError::Name, QueryError::Value);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
-- 
2.43.0


From 988ab06b648a2bd236e46a17c2b8e7aa270b2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 23/23] fix: do not take a leading blank line as the value of a
 header without a name

---
 src/http1/parser.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index f3a1945..c4bbb32 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -37,6 +37,9 @@ const FLAG_MASK: u32 = 0xF;
 /// State flag shift.
 const FLAG_SHIFT: u8 = 0;
 
+/// State flag that indicates the current block of headers contains at least one header.
+const FLAG_HEADER: u32 = 1;
+
 /// Lower 14 bits mask.
 const LOWER14_MASK: u32 = 0x3FFF;
 
@@ -67,6 +70,13 @@ macro_rules! get_upper14 {
     });
 }
 
+/// Check a state flag.
+macro_rules! has_flag {
+    ($parser:expr, $flag:expr) => ({
+        ($parser.bit_data >> FLAG_SHIFT) & FLAG_MASK & $flag != 0
+    });
+}
+
 /// Convert hex byte to a numeric value.
 ///
 /// This assumes the byte is 0-9, A-F, or a-f.
@@ -105,6 +115,13 @@ macro_rules! inc_upper14 {
     });
 }
 
+/// Set a state flag.
+macro_rules! set_flag {
+    ($parser:expr, $flag:expr) => ({
+        $parser.bit_data |= ($flag & FLAG_MASK) << FLAG_SHIFT;
+    });
+}
+
 /// Set the lower 14 bits.
 macro_rules! set_lower14 {
     ($parser:expr, $bits:expr) => ({
@@ -125,6 +142,13 @@ macro_rules! set_upper14 {
     });
 }
 
+/// Unset a state flag.
+macro_rules! unset_flag {
+    ($parser:expr, $flag:expr) => ({
+        $parser.bit_data &= !(($flag & FLAG_MASK) << FLAG_SHIFT);
+    });
+}
+
 // -------------------------------------------------------------------------------------------------
 
 /// HTTP 1.x parser.
@@ -1516,7 +1540,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        if context.byte == b' ' || context.byte == b'\t' {
+        if has_flag!(self, FLAG_HEADER)
+        && (context.byte == b' ' || context.byte == b'\t') {
             // multiline value
             transition!(
                 self,
@@ -1526,6 +1551,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // from here on a line can continue the value of a previous header
+        set_flag!(self, FLAG_HEADER);
+
         bs_replay!(context);
 
         transition!(
@@ -1927,6 +1955,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn header_end(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        unset_flag!(self, FLAG_HEADER);
+
         if let ParserType::Chunked = self.parser_type {
             set_state!(self, BodyFinished, body_finished);
         } else if let ParserType::Multipart = self.parser_type {
-- 
2.43.0

