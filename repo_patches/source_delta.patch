From 8a1c1be006bef2c4e0655e1a850df6807d888805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 01/21] fix: byte class tables cover byte 0xFF

The tables had 255 entries, so is_token(), is_header_field() and
is_quoted_header_field() panicked with an index out of bounds on 0xFF.
---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..fbf65f7 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true, true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true, true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From f68a9ff7633da3bc261ce2fb8c8e985eb92d8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 02/21] fix: keep the bytes compared while detecting a response
 when the head is a request

When fewer than 9 bytes were available, a leading H, HT, HTT or HTTP was
dropped from the method delivered to on_method().
---
 src/http1/parser.rs | 92 +++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..719737f 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -558,7 +558,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -572,21 +572,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes compared up to this point are part of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"H",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -600,21 +601,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes compared up to this point are part of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -628,21 +630,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes compared up to this point are part of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -656,17 +659,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes compared up to this point are part of the method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTTP",
+            RequestMethod,
+            request_method
+        );
     }
 
     // ---------------------------------------------------------------------------------------------
-- 
2.43.0


From dd12e21f60337f0065e737a58999e106cd36c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:15 +0000
Subject: [PATCH 03/21] fix: last chunk with extensions terminates the chunked
 body

After 0;ext CRLF the parser went back to chunk data and never finished.
---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 719737f..b5d8ba3 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2168,6 +2168,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // last chunk
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From 7bbec4b867fa428c8fa0db5b4d41761d68431ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 04/21] fix: multipart boundary is found when the data before
 it ends in CR or CRLF

The byte that ended a partial CRLF-- match was delivered as data without
checking whether it starts the real boundary.
---
 src/http1/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b5d8ba3..f09ebe3 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2537,12 +2537,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2567,12 +2569,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
             // so let's send the data to the callback and get back to parsing
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2857,12 +2861,14 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From 101c2076e170f6f26abff5ee8278798155465eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 05/21] fix: do not count the final url encoded bytes twice in
 byte_count()

---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index f09ebe3..b6cfa53 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // the same context is parsed again, and will count these bytes again
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From 1880cf05e07ea10022a9ada4ac45867a95dbdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 06/21] fix: reject an empty header name

The value of a header line starting with a colon was delivered without a
name, so it looked like a continuation of the previous header value.
---
 src/http1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b6cfa53..369009b 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -1588,8 +1588,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         exit_if_eos!(self, context);
         bs_next!(context);
 
-        // make sure we have something visible to collect in next state
-        if is_visible_7bit!(context.byte) {
+        // make sure we have a token to collect in next state, because a name cannot be empty
+        if is_token(context.byte) {
             bs_replay!(context);
 
             transition!(
-- 
2.43.0


From 4624c02cf0024d142e6e66d69d66302a4036b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 07/21] fix: resume() on an empty stream does not read past its
 end while detecting the head

---
 src/http1/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 369009b..6d80deb 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -485,6 +485,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
-- 
2.43.0


From 739144c1d4e871d33cc5a096ac178d27fd44e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:03 +0000
Subject: [PATCH 08/21] fix: FrameFormat::new and Setting::new do not need an
 existing value

---
 src/http2/frame_format.rs | 2 +-
 src/http2/setting.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/frame_format.rs b/src/http2/frame_format.rs
index 2b407b1..c365311 100644
--- a/src/http2/frame_format.rs
+++ b/src/http2/frame_format.rs
@@ -29,7 +29,7 @@ pub struct FrameFormat {
 
 impl FrameFormat {
     /// Create a new `FrameFormat`.
-    pub fn new(&mut self, payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
+    pub fn new(payload_length: u32, frame_type: u8, flags: u8, stream_id: u32)
     -> FrameFormat {
         FrameFormat{
             flags:                     flags,
diff --git a/src/http2/setting.rs b/src/http2/setting.rs
index 7c86b9a..4cc0533 100644
--- a/src/http2/setting.rs
+++ b/src/http2/setting.rs
@@ -60,7 +60,7 @@ pub enum Setting {
 
 impl Setting {
     /// Create a new `Setting`.
-    pub fn new(&mut self, id: u16, value: u32) -> Setting {
+    pub fn new(id: u16, value: u32) -> Setting {
         match id {
             S_HEADER_TABLE_SIZE      => Setting::HeaderTableSize(value),
             S_ENABLE_PUSH            => Setting::EnablePush(value),
-- 
2.43.0


From 02b2e440804144081b2232556e392b20fe77441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 09/21] fix: stream identifier cut into several slices keeps
 all of its bytes

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 8e883d2f91a639c191e88bbd3da60199328c0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 10/21] fix: go away stream id and settings value cut into
 several slices are read to their last byte

---
 src/http2/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From 8b8605e0dbb0f23fc03dd41658f5b4e393db3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 11/21] fix: reserved bit is not part of the promised stream id
 and the window size increment

---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..18fa6d3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1174,7 +1174,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1508,7 +1508,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From 578058907bb46866efb86fa3298a0d736ddd6095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 12/21] fix: empty settings frame does not take its setting
 from the next frame

---
 src/http2/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 18fa6d3..3bf2735 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -491,7 +491,11 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From 7af87cc3442f18ef00f91d67575709dbc1c76f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 13/21] fix: reject frames that are too short for their fields
 and padding instead of underflowing

---
 src/http2/parser.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 3bf2735..d602e38 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -85,6 +85,15 @@ macro_rules! payload_length {
     });
 }
 
+/// Exit with an error when the frame payload does not have room for `$length` bytes and the padding.
+macro_rules! exit_if_short {
+    ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < $length + pad_length!($parser) {
+            exit_error!(Dead);
+        }
+    });
+}
+
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
@@ -454,6 +463,23 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn frame_format_end(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
+        // fixed fields have to fit into the payload
+        let padded  = if has_flag!(self, FL_PADDED) { 1 } else { 0 };
+        let minimum = match (self.bit_data32a & 0xFF) as u8 {
+            FR_HEADERS if has_flag!(self, FL_PRIORITY)  => padded + 5,
+            FR_PRIORITY                                 => 5,
+            FR_RST_STREAM | FR_WINDOW_UPDATE            => 4,
+            FR_SETTINGS if payload_length!(self) > 0    => 6,
+            FR_PUSH_PROMISE                             => padded + 4,
+            FR_GO_AWAY                                  => 8,
+            FR_SETTINGS | FR_PING | FR_CONTINUATION     => 0,
+            _                                           => padded
+        };
+
+        if payload_length!(self) < minimum {
+            exit_error!(Dead);
+        }
+
         // match frame type
         match (self.bit_data32a & 0xFF) as u8 {
             FR_DATA => {
@@ -584,6 +610,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         dec_payload_length!(self, 1);
 
+        exit_if_short!(self, 0);
+
         transition!(
             self,
             context,
@@ -803,6 +831,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         dec_payload_length!(self, 1);
 
+        exit_if_short!(self, 5);
+
         transition!(
             self,
             context,
@@ -820,6 +850,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         dec_payload_length!(self, 1);
 
+        exit_if_short!(self, 0);
+
         transition!(
             self,
             context,
@@ -1089,6 +1121,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         dec_payload_length!(self, 1);
 
+        exit_if_short!(self, 4);
+
         transition!(
             self,
             context,
@@ -1542,6 +1576,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
 
         dec_payload_length!(self, 1);
 
+        exit_if_short!(self, 0);
+
         transition!(
             self,
             context,
-- 
2.43.0


From 4b918bdfd0e348e0f31c2d4f95da95dafbf72685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 14/21] fix: empty payload is reported when its frame ends and
 not when the next frame starts

---
 src/http2/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index d602e38..43502a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -97,6 +97,10 @@ macro_rules! exit_if_short {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -623,8 +627,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -808,8 +810,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -978,8 +978,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -995,8 +993,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1207,8 +1203,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1589,8 +1583,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From 5fb6be0ad40937e0f5f44e24140afc92ea13c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 15/21] fix: reject window update frames with bytes behind the
 increment

---
 src/http2/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 43502a7..d8ab842 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -484,6 +484,11 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             exit_error!(Dead);
         }
 
+        // bytes behind the increment would be taken for the next frame
+        if (self.bit_data32a & 0xFF) as u8 == FR_WINDOW_UPDATE && payload_length!(self) > 4 {
+            exit_error!(Dead);
+        }
+
         // match frame type
         match (self.bit_data32a & 0xFF) as u8 {
             FR_DATA => {
-- 
2.43.0


From 15a77dd60d4b8e77b20d5536bf8096bc3d712487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:34 +0000
Subject: [PATCH 16/21] fix: QueryIterator accepts percent escapes in names

The name loop reported an error after every escape, also a valid one.
---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From b7f73e06d30466abdbb48abc31124ce159dff5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 17/21] fix: a malformed percent escape ends the QueryIterator

The bytes after it were handed out as further fields when next() was called again.
---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From 58d04fcdc1a6de8ff0256c16f582d8a670580936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 18/21] fix: FieldIterator finds the delimiter after a quoted
 value

consume_linear_space!() has already read the byte after the quote: reading one more
reported an error for every field after a quoted value, and accepted any last byte.
---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..94e799b 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From e9878d5b68493fe4eb3c86fc4132d911c7b821f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 19/21] fix: FieldIterator keeps a name that ends in an
 upper-case byte

White space was skipped before every piece of a name instead of before the name, so that
the end of the field after a normalized byte or a slash dropped the name.
---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 94e799b..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From d8a9640dca04e5e7fe2196c239a75f603bb5ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:54 +0000
Subject: [PATCH 20/21] fix: FieldIterator reports a value that ends in a
 backslash as a value error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0


From 7fbf1617f0b5789792e67959176463a18177700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:59 +0000
Subject: [PATCH 21/21] fix: strings handed out by the utilities are valid
 UTF-8

decode(), QueryIterator and FieldIterator filled Strings with arbitrary bytes (%e9, obs-text).
Bytes that are not UTF-8 are now an error that names the first of them.
---
 src/util/decode.rs | 22 ++++++++-------
 src/util/field.rs  | 17 ++++++------
 src/util/mod.rs    | 67 +++++++++++++++++++---------------------------
 src/util/query.rs  |  9 ++++---
 4 files changed, 54 insertions(+), 61 deletions(-)

diff --git a/src/util/decode.rs b/src/util/decode.rs
index e7b8fc1..0768b1c 100644
--- a/src/util/decode.rs
+++ b/src/util/decode.rs
@@ -17,6 +17,7 @@
 use byte_slice::ByteStream;
 
 use std::fmt;
+use std::str;
 
 /// Decoding errors.
 pub enum DecodeError {
@@ -96,13 +97,13 @@ impl fmt::Display for DecodeError {
 /// ```
 pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
     macro_rules! submit {
-        ($string:expr, $slice:expr) => (unsafe {
-            $string.as_mut_vec().extend_from_slice($slice);
-        });
+        ($bytes:expr, $slice:expr) => (
+            $bytes.extend_from_slice($slice);
+        );
     }
 
     let mut context = ByteStream::new(encoded);
-    let mut string  = String::new();
+    let mut bytes   = Vec::new();
 
     loop {
         bs_mark!(context);
@@ -117,22 +118,25 @@ pub fn decode(encoded: &[u8]) -> Result<String, DecodeError> {
             // on end-of-stream
             {
                 if context.mark_index < context.stream_index {
-                    submit!(string, bs_slice!(context));
+                    submit!(bytes, bs_slice!(context));
                 }
 
-                return Ok(string);
+                return match str::from_utf8(&bytes) {
+                    Ok(string) => Ok(string.to_string()),
+                    Err(error) => Err(DecodeError::Byte(bytes[error.valid_up_to()]))
+                };
             }
         );
 
         if bs_slice_length!(context) > 1 {
-            submit!(string, bs_slice_ignore!(context));
+            submit!(bytes, bs_slice_ignore!(context));
         }
 
         if context.byte == b'+' {
-            submit!(string, b" ");
+            submit!(bytes, b" ");
         } else if context.byte == b'%' {
             if bs_has_bytes!(context, 2) {
-                submit!(string, &[
+                submit!(bytes, &[
                     collect_hex8!(context, DecodeError::HexSequence)
                 ]);
             } else {
diff --git a/src/util/field.rs b/src/util/field.rs
index ba3027d..86fc3d5 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -18,6 +18,7 @@ use byte::{ is_header_field, is_quoted_header_field, is_token };
 
 use byte_slice::ByteStream;
 use std::fmt;
+use std::str;
 
 /// Field errors.
 pub enum FieldError {
@@ -198,7 +199,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.name.extend_from_slice(bs_slice!(self.context));
                     }
 
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 }
             );
 
@@ -210,7 +211,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                         self.context,
 
                         // on end-of-stream
-                        submit_name!(self)
+                        submit_name!(self, FieldError)
                     );
 
                     if self.context.byte == b'"' {
@@ -234,11 +235,11 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.context,
 
                                     // on end-of-stream
-                                    submit_name_value!(self)
+                                    submit_name_value!(self, FieldError)
                                 );
 
                                 if self.context.byte == self.delimiter {
-                                    submit_name_value!(self);
+                                    submit_name_value!(self, FieldError);
                                 }
 
                                 // expected a semicolon to end the value
@@ -279,17 +280,17 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     self.value.extend_from_slice(bs_slice!(self.context));
                                 }
 
-                                submit_name_value!(self);
+                                submit_name_value!(self, FieldError);
                             }
                         );
 
                         if bs_slice_length!(self.context) == 0 {
                             // name without a value
-                            submit_name!(self);
+                            submit_name!(self, FieldError);
                         }
 
                         if self.context.byte == self.delimiter {
-                            submit_name_value!(self.name, bs_slice_ignore!(self.context));
+                            submit_name_value!(self, FieldError, bs_slice_ignore!(self.context));
                         } else {
                             bs_jump!(self.context, bs_available!(self.context));
 
@@ -305,7 +306,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                 },
                 byte if byte == self.delimiter => {
                     // name without a value
-                    submit_name!(self);
+                    submit_name!(self, FieldError);
                 },
                 byte if byte > 0x40 && byte < 0x5B => {
                     // upper-cased byte, let's lower-case it
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ca22235..99973e2 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -26,52 +26,39 @@ macro_rules! submit_error {
     });
 }
 
-macro_rules! submit_name {
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
-
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            None
-        ));
+macro_rules! submit_string {
+    ($iter:expr, $bytes:expr, $error:expr) => ({
+        match str::from_utf8($bytes) {
+            Ok(s) => s.to_string(),
+            Err(error) => {
+                let byte = $bytes[error.valid_up_to()];
+
+                bs_jump!($iter.context, bs_available!($iter.context));
+
+                (*$iter.on_error)($error(byte));
+
+                return None;
+            }
+        }
     });
 }
-macro_rules! submit_name_value {
-    ($name:expr, $value:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($name.len());
-
-                s.as_mut_vec().extend_from_slice(&$name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($value.len());
-
-                s.as_mut_vec().extend_from_slice(&$value);
-                Some(s)
-            }
-        ));
+
+macro_rules! submit_name {
+    ($iter:expr, $error:ident) => ({
+        return Some((submit_string!($iter, &$iter.name, $error::Name), None));
     });
+}
 
-    ($iter:expr) => ({
-        return Some((
-            unsafe {
-                let mut s = String::with_capacity($iter.name.len());
+macro_rules! submit_name_value {
+    ($iter:expr, $error:ident, $value:expr) => ({
+        let name  = submit_string!($iter, &$iter.name, $error::Name);
+        let value = submit_string!($iter, $value, $error::Value);
 
-                s.as_mut_vec().extend_from_slice(&$iter.name);
-                s
-            },
-            unsafe {
-                let mut s = String::with_capacity($iter.value.len());
+        return Some((name, Some(value)));
+    });
 
-                s.as_mut_vec().extend_from_slice(&$iter.value);
-                Some(s)
-            }
-        ));
+    ($iter:expr, $error:ident) => ({
+        submit_name_value!($iter, $error, &$iter.value);
     });
 }
 
diff --git a/src/util/query.rs b/src/util/query.rs
index c6f7bc9..2de3ca0 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -16,6 +16,7 @@
 
 use byte_slice::ByteStream;
 use std::fmt;
+use std::str;
 
 /// Query errors.
 pub enum QueryError {
@@ -184,7 +185,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.name.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     }
                 );
 
@@ -226,7 +227,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name without a value
-                        submit_name!(self);
+                        submit_name!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
@@ -257,7 +258,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                             self.value.extend_from_slice(bs_slice!(self.context));
                         }
 
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     }
                 );
 
@@ -287,7 +288,7 @@ impl<'a> Iterator for QueryIterator<'a> {
                       b'&'
                     | b';' => {
                         // name with a value
-                        submit_name_value!(self);
+                        submit_name_value!(self, QueryError);
                     },
                     _ => {
                         bs_jump!(self.context, bs_available!(self.context));
-- 
2.43.0

