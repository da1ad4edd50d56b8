From 9c5db2782eac8a2be32656b049aae40b491952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 01/16] fix: read exactly one WebSocket frame from the stream

Frame::parse wrapped the stream in a fresh BufReader for every frame, so bytes
of following frames were read and thrown away; it treated a short read as
missing data; and it left the masking key of an empty masked frame unread.
---
 puck/src/ws/frame.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..22660e4 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,14 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    ///
+    /// This reads exactly one frame: nothing which follows it on the stream is consumed.
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream
+                .read_exact(&mut buffer)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +51,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -60,15 +60,18 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
-            let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+        // the masking key is present whenever the mask bit is set, even if the payload is empty
+        let mut masking_key = [0_u8; 4];
+        if masked {
+            stream
+                .read_exact(&mut masking_key)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
+        }
 
+        let decoded = if payload_length > 0 {
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
-- 
2.43.0


From 26fad2aff9aec269954289e56a6f7ba1ca89cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 02/16] fix: do not trust the announced WebSocket payload
 length

The announced length was used as an allocation size (panic or huge allocation
before any payload arrived) and truncated to usize on 32 bit targets.
---
 puck/src/ws/frame.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 22660e4..0969abb 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -69,17 +69,17 @@ impl Frame {
         }
 
         let decoded = if payload_length > 0 {
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
-            if n != payload_length as usize {
+            if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
                 }
                 return Err(ParseFrameError::IoError);
             }
 
-            let mut decoded = vec![0_u8; payload_length as usize];
+            let mut decoded = vec![0_u8; encoded.len()];
             for i in 0..encoded.len() {
                 decoded[i] = encoded[i] ^ masking_key[i % 4];
             }
-- 
2.43.0


From 30c52d613801739e0a30d7c8c5ba034909078cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 03/16] fix: encode payloads of 65535 bytes with the 16 bit
 length form

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 0969abb..2a26991 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -134,7 +134,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -146,7 +146,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From b1f613828b3a39fdf73ab188cebcbbcb27bba6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 04/16] fix: write and recognise the HEAD method

Method::Head was written as "HEAD /" and a parsed HEAD request had the method
OtherMethod("HEAD").
---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..eb4cb50 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -223,6 +223,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -232,7 +233,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 653827d0cc9ceeb65a85f4e34f25cc4347da53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 05/16] fix: keep the query string when writing a request

---
 puck/src/request/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index eb4cb50..fa94f79 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,8 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
-        write!(write, "HTTP/1.1\r\n")?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
         }
-- 
2.43.0


From f25a99f8585b09a1828083e4f035cf7ef06190fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 06/16] fix: take the length of a response body from
 Content-Length

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From c227dead4a2961641f646f435f837b8deb0c6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 07/16] fix: report malformed response heads instead of
 ignoring the parse error

---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..272fdb5 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -140,6 +140,8 @@ impl Response {
 /// An error encountered when parsing a `Response`.
 #[allow(missing_docs)]
 pub enum ParseResponseError {
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("io error")]
     IoError(io::Error),
     #[error("the status code was not supplied")]
@@ -155,3 +157,9 @@ impl From<io::Error> for ParseResponseError {
         Self::IoError(error)
     }
 }
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
-- 
2.43.0


From 4e9ccec3ef5fd25ba576f75090bd8f509a71ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 08/16] fix: match the WebSocket handshake headers
 case-insensitively

---
 puck/src/ws/upgrade.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..6ad129d 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -6,16 +6,21 @@ use sha1::{Digest, Sha1};
 
 use crate::{err_400, write_response, Response};
 
+/// Looks up a header; header names are not case-sensitive.
+fn find_header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    find_header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
+        && find_header(req, "Connection")
             .map(|val| val.to_ascii_lowercase().contains("upgrade"))
             .unwrap_or_default()
 }
@@ -28,7 +33,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match find_header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From 2d0805adc76aa5849ccc9d3526eb2d6220851cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 09/16] fix: answer malformed requests with 400 in serve_router
 instead of panicking

---
 puck/src/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..05cbf28 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
-- 
2.43.0


From b27169bf022bb31f5ef58c30476ed49c9549d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 10/16] fix: answer malformed requests with 400 in for_each
 instead of panicking

---
 puck/src/core/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 05cbf28..7ecb725 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -98,7 +98,9 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                let stream = Stream::new(stream, false);
+                                // can't do much if this fails
+                                let _ = stream.respond(crate::err_400());
                             }
                         }
                     },
-- 
2.43.0


From 944fd95907bb924760de8d515ed7575d9f032376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 11/16] fix: do not allocate the announced Content-Length up
 front

---
 puck/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..b755881 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,7 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From 07d587a9ab6a2bd29d7c51503a1f377c86e5f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 12/16] fix: do not overflow the count of body bytes read

---
 puck/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index b755881..90653b9 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -106,7 +106,7 @@ impl Read for Body {
             }
         };
         let bytes = self.reader.read(buf)?;
-        self.bytes_read += bytes;
+        self.bytes_read = self.bytes_read.saturating_add(bytes);
         Ok(bytes)
     }
 }
-- 
2.43.0


From 358891e3e2754b9b7bba9db56b3e10764dc81d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 13/16] fix: keep the tag names of select and noscript nodes

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0


From 26949acc36736a649668bd1fc8637011160dab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 14/16] fix: end a live component's processes when its
 connection ends

---
 puck_liveview/src/component/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..73a38ca 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -69,10 +69,14 @@ where
             Process::spawn(
                 (stream, process.clone()),
                 |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                    let msg = websocket.next();
+                    if let Some(msg) = msg {
+                        // nothing can be read after an error: the connection is closed, or no
+                        // longer usable
+                        let finished = msg.is_err();
+                        process.send(WsOrInput::Ws(msg));
+                        if finished {
+                            return;
                         }
                     }
                 },
@@ -164,9 +168,7 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                     };
                 } else if let Err(e) = msg {
                     match e {
-                        // todo: what should we do here?
-                        NextMessageError::ClientError => {}
-                        NextMessageError::ConnectionClosed => {
+                        NextMessageError::ClientError | NextMessageError::ConnectionClosed => {
                             drop(component);
                             return;
                         }
-- 
2.43.0


From 882017d240d294c09bd339ea5b0efc1fcbe8ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:35 +0000
Subject: [PATCH 15/16] fix: write attribute names without quotes when
 rendering an element as HTML

---
 puck_liveview/src/dom/element/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck_liveview/src/dom/element/render.rs b/puck_liveview/src/dom/element/render.rs
index 02fda96..b0e8871 100644
--- a/puck_liveview/src/dom/element/render.rs
+++ b/puck_liveview/src/dom/element/render.rs
@@ -34,7 +34,7 @@ impl Element {
     fn write_attributes(&self) -> String {
         self.attributes
             .iter()
-            .map(|(key, value)| "\"".to_string() + key + "\"=" + "\"" + value + "\" ")
+            .map(|(key, value)| key.to_string() + "=" + "\"" + value + "\" ")
             .collect::<String>()
     }
 }
-- 
2.43.0


From 2cf115e5417d335c357ff5fbc147e0ab249e8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:35 +0000
Subject: [PATCH 16/16] fix: escape texts and attribute values when rendering
 an element as HTML

---
 puck_liveview/src/dom/element/render.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/src/dom/element/render.rs b/puck_liveview/src/dom/element/render.rs
index b0e8871..db85925 100644
--- a/puck_liveview/src/dom/element/render.rs
+++ b/puck_liveview/src/dom/element/render.rs
@@ -5,10 +5,10 @@ impl Element {
     #[allow(unused)]
     pub(crate) fn render(&self) -> String {
         self.write_opening_tag()
-            + if let Some(ref text) = self.text {
-                text
+            + &if let Some(ref text) = self.text {
+                escape(text)
             } else {
-                ""
+                String::new()
             }
             + &self
                 .children
@@ -34,11 +34,27 @@ impl Element {
     fn write_attributes(&self) -> String {
         self.attributes
             .iter()
-            .map(|(key, value)| key.to_string() + "=" + "\"" + value + "\" ")
+            .map(|(key, value)| key.to_string() + "=" + "\"" + &escape(value) + "\" ")
             .collect::<String>()
     }
 }
 
+/// Writes the characters that have a meaning in HTML as character references, so that the text is
+/// read as text.
+fn escape(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for character in text.chars() {
+        match character {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            _ => escaped.push(character),
+        }
+    }
+    escaped
+}
+
 #[cfg(test)]
 mod test_render {
     use scraper::{Html, Selector};
-- 
2.43.0

