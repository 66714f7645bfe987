From df5360386bf4e7ac65eb0455ebb3676ac717f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 01/34] fix: strip the CR of a CRLF line by byte position in
 the SSE parser

line_end is a byte offset but was used as a character index, so a CR before
the line feed was missed (or a slice could split a character) as soon as the
buffered line contained a multi-byte character.
---
 src/shared/sse_parser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 5a38d7f..34e7976 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -171,11 +171,8 @@ impl SseParser {
         let mut events = Vec::new();
 
         while let Some(line_end) = self.buffer.find('\n') {
-            let line = if line_end > 0 && self.buffer.chars().nth(line_end - 1) == Some('\r') {
-                self.buffer[..line_end - 1].to_string()
-            } else {
-                self.buffer[..line_end].to_string()
-            };
+            let line = &self.buffer[..line_end];
+            let line = line.strip_suffix('\r').unwrap_or(line).to_string();
 
             if let Some(event) = self.process_line(&line) {
                 events.push(event);
-- 
2.43.0


From 536c47b332d26411724d1718e0e4e226b0b310f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 02/34] fix: keep empty data lines of an SSE event

A leading empty data line was lost and an event whose only data line is empty
was not dispatched, so payloads starting with a line feed changed in transit.
---
 src/shared/sse_parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 34e7976..1dfd369 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -214,12 +214,10 @@ impl SseParser {
                 self.current_event.event = Some(value.to_string());
             },
             "data" => {
-                if self.current_event.data.is_empty() {
-                    self.current_event.data = value.to_string();
-                } else {
-                    self.current_event.data.push('\n');
-                    self.current_event.data.push_str(value);
-                }
+                // Every data line is followed by a line feed; the last one is
+                // removed again when the event is dispatched.
+                self.current_event.data.push_str(value);
+                self.current_event.data.push('\n');
             },
             "id" => {
                 if !value.contains('\0') {
@@ -248,6 +246,9 @@ impl SseParser {
             return None;
         }
 
+        // Remove the line feed that follows the last data line
+        self.current_event.data.pop();
+
         let event = SseEvent {
             id: self
                 .current_event
-- 
2.43.0


From b6a0c02f92819c481e9a93e24b6230d2b764564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 03/34] fix: write every line of an SSE event's data, also
 empty ones

str::lines drops the empty last line and yields nothing for empty data, so a
payload ending in a line feed lost it and an empty payload was not sent.
---
 src/shared/sse_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/sse_parser.rs b/src/shared/sse_parser.rs
index 1dfd369..ea4c6df 100644
--- a/src/shared/sse_parser.rs
+++ b/src/shared/sse_parser.rs
@@ -103,7 +103,7 @@ impl fmt::Display for SseEvent {
         }
 
         // Split data by newlines and write each line
-        for line in self.data.lines() {
+        for line in self.data.split('\n') {
             writeln!(f, "data: {}", line)?;
         }
 
-- 
2.43.0


From c9e0cc7a7baeef209fa8bea9ddfd949cb6ab66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 04/34] fix: answer a timed out batch request under its own id

---
 src/utils/parallel_batch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parallel_batch.rs b/src/utils/parallel_batch.rs
index 8422dc2..cf03980 100644
--- a/src/utils/parallel_batch.rs
+++ b/src/utils/parallel_batch.rs
@@ -147,6 +147,7 @@ where
                 let _permit = semaphore.acquire().await.unwrap();
 
                 // Create the handler future
+                let request_id = request.id.clone();
                 let handler_future = handler(request);
 
                 // Apply timeout if configured
@@ -162,7 +163,7 @@ where
                             // Create timeout error response
                             JSONRPCResponse {
                                 jsonrpc: "2.0".to_string(),
-                                id: crate::types::RequestId::from("null"),
+                                id: request_id,
                                 payload: crate::types::jsonrpc::ResponsePayload::Error(
                                     crate::types::jsonrpc::JSONRPCError {
                                         code: -32603,
-- 
2.43.0


From dba7246ca7fc034e4b3766ead918e0aa05571d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 05/34] fix: send elicitation requests under the method name
 they are parsed by

---
 src/shared/protocol_helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/protocol_helpers.rs b/src/shared/protocol_helpers.rs
index 36ed2b9..33e7069 100644
--- a/src/shared/protocol_helpers.rs
+++ b/src/shared/protocol_helpers.rs
@@ -195,7 +195,7 @@ fn server_request_to_jsonrpc(req: ServerRequest) -> (String, Option<Value>) {
         ),
         ServerRequest::ListRoots => ("roots/list".to_string(), None),
         ServerRequest::ElicitInput(params) => (
-            "elicitation/input".to_string(),
+            "elicitation/elicitInput".to_string(),
             Some(serde_json::to_value(params).unwrap()),
         ),
     }
-- 
2.43.0


From 6f07ca60759a3ea0fad86ac5eb5b786eefaf3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 06/34] fix: session middleware no longer hands an expired
 session to the handler

---
 src/shared/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/session.rs b/src/shared/session.rs
index 180f3c5..b5e4a17 100644
--- a/src/shared/session.rs
+++ b/src/shared/session.rs
@@ -352,7 +352,7 @@ impl SessionMiddleware {
         F: FnOnce(Option<Session>) -> R,
     {
         let session = if let Some(session_id) = extract_session_id(headers) {
-            self.manager.get_session(&session_id)
+            self.manager.validate_session(&session_id).ok()
         } else {
             None
         };
-- 
2.43.0


From ac837bca922dccd2446c6db75205cfcd124fecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:44 +0000
Subject: [PATCH 07/34] fix: let create_message pass the capability check when
 the server offers sampling

assert_capability had no arm for "sampling", so create_message was refused
even by a client whose server declared the sampling capability.
---
 src/client/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/mod.rs b/src/client/mod.rs
index 6fb240e..dff097b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -1298,6 +1298,10 @@ impl<T: Transport> Client<T> {
                 .server_capabilities
                 .as_ref()
                 .is_some_and(|c| c.completions.is_some()),
+            "sampling" => self
+                .server_capabilities
+                .as_ref()
+                .is_some_and(|c| c.sampling.is_some()),
             _ => false,
         };
 
-- 
2.43.0


From ed9b8567920464e675df5add7b7b2eb239968eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 08/34] fix: replay only the session's own events on SSE
 resumption

---
 src/server/streamable_http_server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index d0232fa..8184ee4 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -741,8 +741,12 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
             if let Some(event_store) = &state.config.event_store {
                 // Replay events after the last event ID
                 if let Ok(events) = event_store.replay_events_after(last_id).await {
-                    for (_event_id, msg) in events {
-                        let _ = tx.send(msg);
+                    for (event_id, msg) in events {
+                        // Only messages of this session's own stream may be replayed to it
+                        let stream = event_store.get_stream_for_event(&event_id).await;
+                        if matches!(stream, Ok(Some(ref sid)) if *sid == session_id) {
+                            let _ = tx.send(msg);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 5e1845786b13e82ba50fc6c90859a8cd02bf8356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 09/34] fix: a closed SSE stream neither blocks reconnecting
 nor swallows answers

---
 src/server/streamable_http_server.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 8184ee4..0ddf8ea 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -471,8 +471,9 @@ fn build_response(
     } else {
         // SSE streaming mode
         if let Some(sid) = session_id {
-            if let Some(sender) = state.sse_streams.read().get(sid) {
-                // Send to existing SSE stream
+            let streams = state.sse_streams.read();
+            if let Some(sender) = streams.get(sid).filter(|sender| !sender.is_closed()) {
+                // Send to the open SSE stream
                 let _ = sender.send(response);
                 StatusCode::ACCEPTED.into_response()
             } else {
@@ -719,8 +720,14 @@ async fn handle_get_sse(State(state): State<ServerState>, headers: HeaderMap) ->
         );
     };
 
-    // Check if stream already exists for this session
-    if state.sse_streams.read().contains_key(&session_id) {
+    // Check if an open stream already exists for this session (a stream whose client
+    // has gone away does not count)
+    if state
+        .sse_streams
+        .read()
+        .get(&session_id)
+        .is_some_and(|sender| !sender.is_closed())
+    {
         return create_error_response(
             StatusCode::CONFLICT,
             -32600,
-- 
2.43.0


From c4b1b3880b2491bb5046f3dac788e43b69211891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 10/34] fix: initialize under an unknown session id is refused

---
 src/server/streamable_http_server.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/server/streamable_http_server.rs b/src/server/streamable_http_server.rs
index 0ddf8ea..b30f9a4 100644
--- a/src/server/streamable_http_server.rs
+++ b/src/server/streamable_http_server.rs
@@ -360,15 +360,24 @@ fn process_init_session(
         // Stateful mode
         if let Some(sid) = session_id {
             // Check if session already exists and is initialized
-            if let Some(session_info) = state.sessions.read().get(&sid) {
-                if session_info.initialized {
+            match state.sessions.read().get(&sid) {
+                Some(session_info) if session_info.initialized => {
                     // Session already initialized - reject re-initialization
                     return Err(create_error_response(
                         StatusCode::BAD_REQUEST,
                         -32600,
                         "Session already initialized",
                     ));
-                }
+                },
+                Some(_) => {},
+                None => {
+                    // Unknown session ID
+                    return Err(create_error_response(
+                        StatusCode::NOT_FOUND,
+                        -32600,
+                        "Unknown session ID",
+                    ));
+                },
             }
             // Use existing session ID
             Ok((Some(sid), false))
-- 
2.43.0


From 33470e4ddc37929b5c38a79b10ab1ae2a4fd85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:17 +0000
Subject: [PATCH 11/34] fix: an absurd Content-Length no longer panics the
 stdio transport

---
 src/shared/stdio.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/shared/stdio.rs b/src/shared/stdio.rs
index 72fdc56..032d151 100644
--- a/src/shared/stdio.rs
+++ b/src/shared/stdio.rs
@@ -205,12 +205,18 @@ impl StdioTransport {
     /// Read message body with specified content length.
     async fn read_message_body(&self, content_length: usize) -> Result<Vec<u8>> {
         let mut stdin = self.stdin.lock().await;
-        let mut buffer = vec![0u8; content_length];
-        stdin
-            .read_exact(&mut buffer)
+        // The length comes from the peer: let the buffer grow with what arrives
+        let mut buffer = Vec::new();
+        (&mut *stdin)
+            .take(content_length as u64)
+            .read_to_end(&mut buffer)
             .await
             .map_err(TransportError::from)?;
         drop(stdin);
+        if buffer.len() < content_length {
+            let eof = std::io::Error::from(std::io::ErrorKind::UnexpectedEof);
+            return Err(TransportError::from(eof).into());
+        }
         Ok(buffer)
     }
 
-- 
2.43.0


From 6b34fc8d5ecb5914bc3f344e63d4e4d02c89330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 12/34] fix: initialize answers with the protocol version the
 client requested

---
 src/server/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index fb83de4..7e67d5e 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -519,8 +519,17 @@ impl Server {
                 *self.client_capabilities.write().await = Some(init_req.capabilities.clone());
                 *self.initialized.write().await = true;
 
+                // Answer with the requested version if it is supported
+                let protocol_version = if crate::SUPPORTED_PROTOCOL_VERSIONS
+                    .contains(&init_req.protocol_version.as_str())
+                {
+                    init_req.protocol_version.clone()
+                } else {
+                    crate::DEFAULT_PROTOCOL_VERSION.to_string()
+                };
+
                 let result = InitializeResult {
-                    protocol_version: ProtocolVersion("2024-11-05".to_string()),
+                    protocol_version: ProtocolVersion(protocol_version),
                     capabilities: self.capabilities.clone(),
                     server_info: self.info.clone(),
                     instructions: None,
-- 
2.43.0


From 413089141a5912160cc337df71af02b960b15c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 13/34] fix: reserved and fragment URI template expansion
 encodes what is not allowed in a URI

---
 src/shared/uri_template.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 3a6d111..122d115 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -328,19 +328,20 @@ impl UriTemplate {
     /// Expand multiple variables with an operator
     fn expand_multiple(op: Operator, specs: &[VarSpec], vars: &HashMap<String, String>) -> String {
         let mut parts = Vec::new();
+        let allow_reserved = matches!(op, Operator::Reserved | Operator::Fragment);
 
         for spec in specs {
             if let Some(value) = vars.get(&spec.name) {
                 let encoded = match spec.modifier {
                     Some(Modifier::Prefix(len)) => {
                         let truncated = value.chars().take(len).collect::<String>();
-                        Self::encode_value(&truncated, op == Operator::Reserved)
+                        Self::encode_value(&truncated, allow_reserved)
                     },
                     Some(Modifier::Explode) => {
                         // For simplicity, treat explode as normal expansion
-                        Self::encode_value(value, op == Operator::Reserved)
+                        Self::encode_value(value, allow_reserved)
                     },
-                    None => Self::encode_value(value, op == Operator::Reserved),
+                    None => Self::encode_value(value, allow_reserved),
                 };
 
                 match op {
@@ -392,8 +393,28 @@ impl UriTemplate {
     /// Encode a value for URI inclusion
     fn encode_value(value: &str, allow_reserved: bool) -> String {
         if allow_reserved {
-            // Allow reserved characters
-            value.to_string()
+            // Keep unreserved and reserved characters and percent-encoded triplets
+            let bytes = value.as_bytes();
+            let mut encoded = String::with_capacity(value.len());
+            for (i, &byte) in bytes.iter().enumerate() {
+                let keep = match byte {
+                    b'%' => {
+                        i + 2 < bytes.len()
+                            && bytes[i + 1].is_ascii_hexdigit()
+                            && bytes[i + 2].is_ascii_hexdigit()
+                    },
+                    b'-' | b'.' | b'_' | b'~' | b':' | b'/' | b'?' | b'#' | b'[' | b']' | b'@'
+                    | b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';'
+                    | b'=' => true,
+                    _ => byte.is_ascii_alphanumeric(),
+                };
+                if keep {
+                    encoded.push(char::from(byte));
+                } else {
+                    write!(encoded, "%{:02X}", byte).unwrap();
+                }
+            }
+            encoded
         } else {
             // Percent-encode reserved characters
             urlencoding::encode(value).into_owned()
-- 
2.43.0


From 3e9a687cbca2b7f481b6d3f47ebda45a562b31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 14/34] fix: an empty path-style URI template parameter is
 written without '='

---
 src/shared/uri_template.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index 122d115..a264cf5 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -354,6 +354,9 @@ impl UriTemplate {
                     Operator::PathSegment => {
                         parts.push(encoded);
                     },
+                    Operator::PathParameter if encoded.is_empty() => {
+                        parts.push(spec.name.clone());
+                    },
                     Operator::PathParameter | Operator::Query | Operator::QueryContinuation => {
                         parts.push(format!("{}={}", spec.name, encoded));
                     },
-- 
2.43.0


From f8e0e6c59f4ebd18ddb71b9bf9621027fa367ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 15/34] fix: SIMD scans end when the last byte of a block
 matches

---
 src/simd/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 7261e61..56fc0de 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -63,7 +63,7 @@ pub mod json {
             let mask = _mm256_movemask_epi8(ws_mask);
 
             // Find positions of set bits
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -275,7 +275,7 @@ pub mod json {
 
             let mask = _mm256_movemask_epi8(escape_mask);
 
-            let mut m = mask;
+            let mut m = mask as u32;
             let mut bit_pos = 0;
             while m != 0 {
                 if m & 1 != 0 {
@@ -467,7 +467,7 @@ pub mod compression {
 
             if mask != 0 {
                 // Found potential matches, check each one
-                let mut m = mask;
+                let mut m = mask as u32;
                 let mut bit_pos = 0;
                 while m != 0 {
                     if m & 1 != 0 {
-- 
2.43.0


From caae663ec67588a6f120c60244dc4b413d43c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 16/34] fix: SIMD UTF-8 validation accepts exactly well-formed
 UTF-8

---
 src/simd/mod.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 56fc0de..106d4e0 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -99,11 +99,11 @@ pub mod json {
             false // Invalid continuation byte
         } else if first_byte < 0xE0 {
             // 2-byte sequence
-            validate_2byte_sequence(input, start, len)
+            first_byte >= 0xC2 && validate_2byte_sequence(input, start, len)
         } else if first_byte < 0xF0 {
             // 3-byte sequence
             validate_3byte_sequence(input, start, len)
-        } else if first_byte < 0xF8 {
+        } else if first_byte < 0xF5 {
             // 4-byte sequence
             validate_4byte_sequence(input, start, len)
         } else {
@@ -123,6 +123,11 @@ pub mod json {
         start + 2 < len
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
+            && match input[start] {
+                0xE0 => input[start + 1] >= 0xA0, // not overlong
+                0xED => input[start + 1] < 0xA0,  // not a surrogate
+                _ => true,
+            }
     }
 
     /// Validates a 4-byte UTF-8 sequence
@@ -132,20 +137,24 @@ pub mod json {
             && is_valid_continuation_byte(input[start + 1])
             && is_valid_continuation_byte(input[start + 2])
             && is_valid_continuation_byte(input[start + 3])
+            && match input[start] {
+                0xF0 => input[start + 1] >= 0x90, // not overlong
+                0xF4 => input[start + 1] < 0x90,  // at most U+10FFFF
+                _ => true,
+            }
     }
 
     /// Processes a 32-byte chunk with SIMD, falling back to scalar for non-ASCII
     #[cfg(target_arch = "x86_64")]
     #[target_feature(enable = "avx2")]
-    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> bool {
+    unsafe fn process_simd_chunk(input: &[u8], offset: usize) -> Option<usize> {
         let data = _mm256_loadu_si256(input.as_ptr().add(offset) as *const __m256i);
 
-        // Check for ASCII bytes (< 0x80) - fast path
-        let ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
-        let is_ascii = _mm256_movemask_epi8(ascii_mask);
+        // Check for non-ASCII bytes (>= 0x80, negative as i8) - fast path
+        let non_ascii_mask = _mm256_cmpgt_epi8(_mm256_setzero_si256(), data);
 
-        if is_ascii == -1 {
-            return true; // All bytes are ASCII
+        if _mm256_movemask_epi8(non_ascii_mask) == 0 {
+            return Some(offset + 32); // All bytes are ASCII
         }
 
         // Fall back to scalar validation for non-ASCII bytes
@@ -153,7 +162,7 @@ pub mod json {
     }
 
     /// Validates a chunk using scalar processing
-    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> bool {
+    fn validate_chunk_scalar(input: &[u8], start: usize, chunk_size: usize) -> Option<usize> {
         let len = input.len();
         let end = std::cmp::min(start + chunk_size, len);
 
@@ -167,14 +176,14 @@ pub mod json {
 
             // Multi-byte sequence - validate and advance
             if !validate_multibyte_sequence(input, i, byte) {
-                return false;
+                return None;
             }
 
             // Advance by the correct number of bytes for this sequence
             i += get_utf8_sequence_length(byte);
         }
 
-        true
+        Some(i)
     }
 
     /// Gets the length of a UTF-8 sequence from its first byte
@@ -219,10 +228,10 @@ pub mod json {
 
         // Process 32 bytes at a time with SIMD
         while i + 32 <= len {
-            if !process_simd_chunk(input, i) {
-                return false;
+            match process_simd_chunk(input, i) {
+                Some(next) => i = next,
+                None => return false,
             }
-            i += 32;
         }
 
         // Process remaining bytes with scalar validation
-- 
2.43.0


From f302c2eede50e79e74ab1e3089a8bc9a13ba2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 17/34] fix: SIMD length validation is inclusive and unsigned
 like the scalar one

---
 src/simd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simd/mod.rs b/src/simd/mod.rs
index 106d4e0..faecee8 100644
--- a/src/simd/mod.rs
+++ b/src/simd/mod.rs
@@ -518,7 +518,7 @@ pub mod batch {
         for i in 0..chunks {
             let offset = i * 8;
             let data = _mm256_loadu_si256(lengths.as_ptr().add(offset) as *const __m256i);
-            let cmp = _mm256_cmpgt_epi32(max_vec, data);
+            let cmp = _mm256_cmpeq_epi32(_mm256_max_epu32(data, max_vec), max_vec);
 
             // Extract comparison results
             let mask = _mm256_movemask_ps(_mm256_castsi256_ps(cmp));
-- 
2.43.0


From 3002181cc97a8919bde503af58b8f5cb27f89b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 18/34] fix: fast JSON parsing keeps separate tokens separate

---
 src/utils/json_simd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b03cbe8..b5987d8 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -53,7 +53,10 @@ pub fn parse_json_fast<T: for<'de> Deserialize<'de>>(input: &[u8]) -> Result<T,
                 }
 
                 if !in_string && ws_positions.binary_search(&i).is_ok() {
-                    // Skip whitespace outside strings
+                    // Collapse whitespace outside strings (dropping it could join two tokens)
+                    if cleaned.last() != Some(&b' ') {
+                        cleaned.push(b' ');
+                    }
                     continue;
                 }
 
-- 
2.43.0


From 1f1464ad0056ed7baf7be88bfc2a4bce433f8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:03 +0000
Subject: [PATCH 19/34] fix: fast pretty printing keeps non-ASCII text intact

---
 src/utils/json_simd.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils/json_simd.rs b/src/utils/json_simd.rs
index b5987d8..c57e1cd 100644
--- a/src/utils/json_simd.rs
+++ b/src/utils/json_simd.rs
@@ -123,7 +123,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             let escapes = unsafe { crate::simd::json::find_escapes_simd(&compact) };
 
             // Allocate with estimated size
-            let mut result = String::with_capacity(compact.len() * 2);
+            let mut result = Vec::with_capacity(compact.len() * 2);
             let mut indent = 0;
             let mut in_string = false;
             let mut escape_next = false;
@@ -131,7 +131,7 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
             for (i, &byte) in compact.iter().enumerate() {
                 if escape_next {
                     escape_next = false;
-                    result.push(byte as char);
+                    result.push(byte);
                     continue;
                 }
 
@@ -146,38 +146,38 @@ pub fn pretty_print_fast(value: &Value) -> Result<String, JsonError> {
                 if !in_string {
                     match byte {
                         b'{' | b'[' => {
-                            result.push(byte as char);
+                            result.push(byte);
                             indent += 2;
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b'}' | b']' => {
                             indent = indent.saturating_sub(2);
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
-                            result.push(byte as char);
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
+                            result.push(byte);
                         },
                         b',' => {
-                            result.push(',');
-                            result.push('\n');
-                            result.push_str(&" ".repeat(indent));
+                            result.push(b',');
+                            result.push(b'\n');
+                            result.extend_from_slice(" ".repeat(indent).as_bytes());
                         },
                         b':' => {
-                            result.push_str(": ");
+                            result.extend_from_slice(b": ");
                         },
                         b' ' | b'\t' | b'\n' | b'\r' => {
                             // Skip whitespace
                         },
                         _ => {
-                            result.push(byte as char);
+                            result.push(byte);
                         },
                     }
                 } else {
-                    result.push(byte as char);
+                    result.push(byte);
                 }
             }
 
-            return Ok(result);
+            return String::from_utf8(result).map_err(serde::ser::Error::custom);
         }
     }
 
-- 
2.43.0


From 0bb5d285641d193476404bbba419c62da3bb5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 20/34] fix: trace context headers of any length or text do not
 panic

---
 src/shared/context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index c7a53bb..3f0696e 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -212,7 +212,8 @@ impl RequestContext {
         // Standard trace context headers
         // Trace ID should be 32 hex chars, Span ID should be 16 hex chars
         let trace_id_hex = self.trace_id.replace('-', "");
-        let span_id_hex = self.span_id.replace('-', "")[..16].to_string();
+        let span_id_hex = self.span_id.replace('-', "");
+        let span_id_hex = span_id_hex.get(..16).unwrap_or(&span_id_hex);
         headers.insert(
             "traceparent".to_string(),
             format!("00-{}-{}-01", trace_id_hex, span_id_hex),
@@ -245,7 +246,7 @@ impl RequestContext {
             if parts.len() >= 4 {
                 // Restore UUIDs from hex format
                 let trace_id_hex = parts[1];
-                let trace_id = if trace_id_hex.len() == 32 {
+                let trace_id = if trace_id_hex.len() == 32 && trace_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &trace_id_hex[0..8],
@@ -259,7 +260,7 @@ impl RequestContext {
                 };
 
                 let span_id_hex = parts[2];
-                let span_id = if span_id_hex.len() == 16 {
+                let span_id = if span_id_hex.len() == 16 && span_id_hex.is_ascii() {
                     format!(
                         "{}-{}-{}-{}-{}",
                         &span_id_hex[0..8],
-- 
2.43.0


From c59002c66bbf1c0ffaf58ea9160e116bddde4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 21/34] fix: a textual request id survives the trace context
 headers

---
 src/shared/context.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/context.rs b/src/shared/context.rs
index 3f0696e..02198b2 100644
--- a/src/shared/context.rs
+++ b/src/shared/context.rs
@@ -273,13 +273,13 @@ impl RequestContext {
                     span_id_hex.to_string()
                 };
 
-                let request_id = headers
-                    .get("x-request-id")
-                    .and_then(|id| id.parse::<i64>().ok())
-                    .map_or_else(
-                        || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
-                        RequestId::from,
-                    );
+                let request_id = headers.get("x-request-id").map_or_else(
+                    || RequestId::from(uuid::Uuid::new_v4().as_u128() as i64),
+                    |id| {
+                        id.parse::<i64>()
+                            .map_or_else(|_| RequestId::from(id.clone()), RequestId::from)
+                    },
+                );
 
                 let mut context = Self::new(request_id);
                 context.trace_id = trace_id;
-- 
2.43.0


From b70af2b21c436012f6aac680146e3c3c5cf59b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 22/34] fix: the HTTP transport sends its configured headers

---
 src/shared/http.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 8e0a3a7..1361307 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -104,11 +104,15 @@ impl HttpTransport {
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
             info!("Connecting to SSE endpoint: {}", sse_url);
 
-            let req = Request::builder()
+            let mut builder = Request::builder()
                 .method(Method::GET)
                 .uri(sse_url.as_str())
                 .header("Accept", "text/event-stream")
-                .header("Cache-Control", "no-cache")
+                .header("Cache-Control", "no-cache");
+            for (name, value) in &self.config.headers {
+                builder = builder.header(name, value);
+            }
+            let req = builder
                 .body(Full::new(Bytes::new()))
                 .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
@@ -188,10 +192,14 @@ impl HttpTransport {
             )))
         })?;
 
-        let req = Request::builder()
+        let mut builder = Request::builder()
             .method(Method::POST)
             .uri(self.config.base_url.as_str())
-            .header("Content-Type", "application/json")
+            .header("Content-Type", "application/json");
+        for (name, value) in &self.config.headers {
+            builder = builder.header(name, value);
+        }
+        let req = builder
             .body(Full::new(Bytes::from(json)))
             .map_err(|e| crate::error::TransportError::InvalidMessage(e.to_string()))?;
 
-- 
2.43.0


From 1a47d2db296de68a42099ac549e1ba9f763f01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 23/34] fix: the HTTP transport's event stream keeps characters
 that span chunks

---
 src/shared/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index 1361307..d075c68 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -140,12 +140,21 @@ impl HttpTransport {
 
                 let mut body = response.into_body();
                 let mut sse_parser = SseParser::new();
+                // What was received of the line that is not complete yet
+                let mut pending: Vec<u8> = Vec::new();
 
                 while let Some(chunk) = body.frame().await {
                     match chunk {
                         Ok(frame) => {
                             if let Some(data) = frame.data_ref() {
-                                let text = String::from_utf8_lossy(data);
+                                // A chunk may end inside a multi-byte character, a line cannot
+                                pending.extend_from_slice(data);
+                                let Some(end) = pending.iter().rposition(|b| *b == b'\n') else {
+                                    continue;
+                                };
+                                let rest = pending.split_off(end + 1);
+                                let text = String::from_utf8_lossy(&pending).into_owned();
+                                pending = rest;
                                 let events = sse_parser.feed(&text);
 
                                 for event in events {
-- 
2.43.0


From 2aca8f71d4ecb4018e11f5c8e1d027f3648a7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 24/34] fix: an HTTP timeout reports the milliseconds that were
 waited

---
 src/shared/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/http.rs b/src/shared/http.rs
index d075c68..1266219 100644
--- a/src/shared/http.rs
+++ b/src/shared/http.rs
@@ -214,7 +214,7 @@ impl HttpTransport {
 
         let response = timeout(self.config.timeout, self.client.request(req))
             .await
-            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_secs() * 1000))?
+            .map_err(|_| crate::error::Error::Timeout(self.config.timeout.as_millis() as u64))?
             .map_err(|e| {
                 crate::error::Error::Transport(crate::error::TransportError::InvalidMessage(
                     e.to_string(),
-- 
2.43.0


From 99b35e49ef2cfbc55f7c904c2ee7dd762e2810d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:21 +0000
Subject: [PATCH 25/34] fix: a message batcher without a wait has a working
 timer

---
 src/utils/batching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index bca427a..4d23db6 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -161,7 +161,8 @@ impl MessageBatcher {
         let max_wait = self.config.max_wait_time;
 
         tokio::spawn(async move {
-            let mut ticker = interval(max_wait);
+            // A timer needs a period: without a wait, whatever is pending is sent at once
+            let mut ticker = interval(max_wait.max(Duration::from_millis(1)));
             loop {
                 ticker.tick().await;
 
-- 
2.43.0


From 2ee04bb7da94f8354024e7d0c666644bd50e7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:21 +0000
Subject: [PATCH 26/34] fix: flushing a message debouncer does not lose what
 waits for room in the queue

---
 src/utils/batching.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/batching.rs b/src/utils/batching.rs
index 4d23db6..b6dc774 100644
--- a/src/utils/batching.rs
+++ b/src/utils/batching.rs
@@ -357,6 +357,12 @@ impl MessageDebouncer {
         let handle = tokio::spawn(async move {
             sleep(wait_time).await;
 
+            // Wait for room in the queue while the notification is still pending:
+            // this task may be aborted at any await, and must not lose it then
+            let Ok(permit) = tx.reserve().await else {
+                return;
+            };
+
             // Send the notification
             let notification = {
                 let mut pending = pending.lock().await;
@@ -365,7 +371,7 @@ impl MessageDebouncer {
 
             if let Some(notification) = notification {
                 debug!("Sending debounced notification: {}", key_clone);
-                let _ = tx.send(notification).await;
+                permit.send(notification);
             }
 
             // Remove timer handle
-- 
2.43.0


From e18023920ccf487158bc08da49d17c2541a4a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 27/34] fix: log messages and roots changes are not debounced
 under one key

---
 src/server/notification_debouncer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 0133a34..988db8d 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -229,8 +229,8 @@ fn notification_key(notification: &ServerNotification) -> String {
         ServerNotification::ResourcesChanged => "resource_list_changed".to_string(),
         ServerNotification::ToolsChanged => "tool_list_changed".to_string(),
         ServerNotification::PromptsChanged => "prompt_list_changed".to_string(),
-        #[allow(unreachable_patterns)]
-        _ => "unknown".to_string(),
+        ServerNotification::RootsListChanged => "root_list_changed".to_string(),
+        ServerNotification::LogMessage(_) => "log".to_string(),
     }
 }
 
-- 
2.43.0


From 7794a16d3d5c787260418b16fb7e67f8febe56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 28/34] fix: the debouncer uses the intervals configured per
 notification type

---
 src/server/notification_debouncer.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 988db8d..687ad07 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -234,6 +234,19 @@ fn notification_key(notification: &ServerNotification) -> String {
     }
 }
 
+/// The type of a notification, as named in `NotificationDebouncerConfig::type_intervals`
+fn notification_type(notification: &ServerNotification) -> &'static str {
+    match notification {
+        ServerNotification::Progress(_) => "progress",
+        ServerNotification::ResourceUpdated(_) => "resources/updated",
+        ServerNotification::ResourcesChanged => "resources/list_changed",
+        ServerNotification::ToolsChanged => "tools/list_changed",
+        ServerNotification::PromptsChanged => "prompts/list_changed",
+        ServerNotification::RootsListChanged => "roots/list_changed",
+        ServerNotification::LogMessage(_) => "log",
+    }
+}
+
 /// Flush pending notifications that are ready
 #[allow(clippy::cognitive_complexity)]
 async fn flush_pending(
@@ -252,6 +265,11 @@ async fn flush_pending(
             let interval = config
                 .type_intervals
                 .get(key)
+                .or_else(|| {
+                    config
+                        .type_intervals
+                        .get(notification_type(&pending_notif.notification))
+                })
                 .copied()
                 .unwrap_or(config.default_interval);
 
-- 
2.43.0


From 6afc33aaa3e5bed78e6e02ef2016c50a01c93279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 29/34] fix: flushing the notification debouncer sends what is
 pending once

---
 src/server/notification_debouncer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/notification_debouncer.rs b/src/server/notification_debouncer.rs
index 687ad07..f98c888 100644
--- a/src/server/notification_debouncer.rs
+++ b/src/server/notification_debouncer.rs
@@ -314,15 +314,15 @@ async fn flush_all(
     pending: &Arc<RwLock<HashMap<String, PendingNotification>>>,
     output_tx: &mpsc::Sender<ServerNotification>,
 ) {
-    let pending_map = pending.write().await;
+    let mut pending_map = pending.write().await;
 
-    for (_, pending_notif) in pending_map.iter() {
+    for (_, pending_notif) in pending_map.drain() {
         // Send the main notification
-        let _ = output_tx.send(pending_notif.notification.clone()).await;
+        let _ = output_tx.send(pending_notif.notification).await;
 
         // Send any merged notifications
-        for merged in &pending_notif.mergeable {
-            let _ = output_tx.send(merged.clone()).await;
+        for merged in pending_notif.mergeable {
+            let _ = output_tx.send(merged).await;
         }
     }
 }
-- 
2.43.0


From bc92884b28ff54b17e95528c04a483e459c77fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 30/34] fix: OIDC discovery without retries still makes its one
 attempt

---
 src/client/auth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index fbe7450..110aca2 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -142,12 +142,12 @@ impl OidcDiscoveryClient {
         let mut attempts = 0;
         let mut last_error = None;
 
-        while attempts < self.max_retries {
+        while attempts <= self.max_retries {
             match self.fetch_discovery(&discovery_url).await {
                 Ok(metadata) => return Ok(metadata),
                 Err(e) => {
                     // Check if this is a CORS error or network error that should be retried
-                    if self.should_retry(&e) && attempts + 1 < self.max_retries {
+                    if self.should_retry(&e) && attempts < self.max_retries {
                         attempts += 1;
                         tokio::time::sleep(self.retry_delay).await;
                         continue;
-- 
2.43.0


From 3ed0c8b036a090cb8f5fde96a5a8e5d3e5a94fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 31/34] fix: OIDC discovery retries requests that got no answer

---
 src/client/auth.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/auth.rs b/src/client/auth.rs
index 110aca2..447197a 100644
--- a/src/client/auth.rs
+++ b/src/client/auth.rs
@@ -175,9 +175,14 @@ impl OidcDiscoveryClient {
             .send()
             .await
             .map_err(|e| {
+                let reason = if e.is_request() || e.is_timeout() {
+                    "network error: "
+                } else {
+                    ""
+                };
                 Error::protocol(
                     ErrorCode::INTERNAL_ERROR,
-                    format!("Failed to fetch discovery document: {}", e),
+                    format!("Failed to fetch discovery document: {}{}", reason, e),
                 )
             })?;
 
-- 
2.43.0


From ebe06deb657c1bb882eee14c1035a5852e56ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:31 +0000
Subject: [PATCH 32/34] fix: a watcher at its resource limit still updates a
 resource it already lists

---
 src/server/resource_watcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/resource_watcher.rs b/src/server/resource_watcher.rs
index 7866e79..3693df5 100644
--- a/src/server/resource_watcher.rs
+++ b/src/server/resource_watcher.rs
@@ -249,7 +249,7 @@ impl ResourceWatcher {
     pub async fn add_resource(&self, uri: String, info: ResourceInfo) -> Result<()> {
         let mut resources = self.resources.write().await;
 
-        if resources.len() >= self.config.max_resources {
+        if resources.len() >= self.config.max_resources && !resources.contains_key(&uri) {
             warn!("Resource limit reached, not adding {}", uri);
             return Ok(());
         }
-- 
2.43.0


From e8ffee80a64f044ed75ab82c429f98298449cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:00 +0000
Subject: [PATCH 33/34] fix: the WebSocket server applies its configured
 message and frame limits

---
 src/server/transport/websocket.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/server/transport/websocket.rs b/src/server/transport/websocket.rs
index 1f5b1b7..1e8ab87 100644
--- a/src/server/transport/websocket.rs
+++ b/src/server/transport/websocket.rs
@@ -8,7 +8,10 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::net::TcpListener;
 use tokio::sync::{mpsc, Mutex};
-use tokio_tungstenite::{accept_async, tungstenite::protocol::Message};
+use tokio_tungstenite::{
+    accept_async_with_config,
+    tungstenite::protocol::{self, Message},
+};
 use tracing::{error, info, warn};
 
 /// Configuration for WebSocket server transport.
@@ -91,8 +94,12 @@ impl WebSocketServerTransport {
             .map_err(|e| Error::internal(format!("Failed to accept connection: {}", e)))?;
         info!("Accepting WebSocket connection from {}", peer_addr);
 
-        // Accept the WebSocket handshake
-        let ws_stream = accept_async(tcp_stream)
+        // Accept the WebSocket handshake, with the configured limits
+        let ws_config = protocol::WebSocketConfig::default()
+            .max_message_size(self.config.max_message_size)
+            .max_frame_size(self.config.max_frame_size)
+            .accept_unmasked_frames(self.config.accept_unmasked_frames);
+        let ws_stream = accept_async_with_config(tcp_stream, Some(ws_config))
             .await
             .map_err(|e| Error::internal(format!("WebSocket handshake failed: {}", e)))?;
 
-- 
2.43.0


From 9f73b440c3038a3b0fc0c02e229653094c798324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:16 +0000
Subject: [PATCH 34/34] fix: matching a URI counts the capture group of every
 expression

---
 src/shared/uri_template.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/uri_template.rs b/src/shared/uri_template.rs
index a264cf5..3761c85 100644
--- a/src/shared/uri_template.rs
+++ b/src/shared/uri_template.rs
@@ -450,6 +450,9 @@ impl UriTemplate {
                 if let Some(value) = captures.get(capture_index) {
                     vars.insert(var_name, value.as_str().to_string());
                 }
+            }
+            // Every expression has its own capture group, named or not
+            if !matches!(expr, Expression::Literal(_)) {
                 capture_index += 1;
             }
         }
-- 
2.43.0

