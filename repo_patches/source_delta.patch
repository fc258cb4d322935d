From f6adc19000eafd396858e712abc2130a6362f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 01/41] fix: parse and write the HEAD method

---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..eb4cb50 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -223,6 +223,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -232,7 +233,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 2f621f63e7bfbb407db46d0cf79e51c747e19dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 02/41] fix: write the query of a request URL

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index eb4cb50..0c830b9 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,7 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " ")?;
         write!(write, "HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
-- 
2.43.0


From 27196f1e6438f45b74cd9e5284b5db7ef8267183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 03/41] fix: reject requests which repeat Host or
 Content-Length

---
 puck/src/request/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 0c830b9..9aebd95 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -73,6 +73,15 @@ impl Request {
         let headers = {
             let mut map = HashMap::new();
             for header in req.headers.iter() {
+                let framing = header.name.eq_ignore_ascii_case("host")
+                    || header.name.eq_ignore_ascii_case("content-length");
+                if framing
+                    && map
+                        .keys()
+                        .any(|name: &String| name.eq_ignore_ascii_case(header.name))
+                {
+                    return Err(RequestParseError::InvalidHeader(header.name.to_string()));
+                }
                 map.insert(
                     header.name.to_string(),
                     std::str::from_utf8(header.value)?.to_string(),
@@ -188,6 +197,9 @@ pub enum RequestParseError {
     /// A header is missing.
     #[error("the `{0}` header is missing")]
     MissingHeader(String),
+    /// A header is not valid (or is only allowed once, and was repeated.)
+    #[error("the `{0}` header is invalid")]
+    InvalidHeader(String),
     /// The request method is missing.
     #[error("missing method")]
     MissingMethod,
-- 
2.43.0


From 6fa471a7670760388afe84d73e7c22bc6b1851f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 04/41] fix: reject requests whose Host is not an authority

---
 puck/src/request/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 9aebd95..27c4038 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -92,6 +92,11 @@ impl Request {
 
         let url =
             if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+                if host.is_empty()
+                    || host.contains(|c: char| "/?#@\\".contains(c) || c.is_whitespace())
+                {
+                    return Err(RequestParseError::InvalidHeader("Host".to_string()));
+                }
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
-- 
2.43.0


From debe17eb127b30e25063bf390f28bc529b80ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 05/41] fix: reject requests whose Content-Length is not a
 number

---
 puck/src/request/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 27c4038..4f00f49 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -112,13 +112,19 @@ impl Request {
                 return Err(RequestParseError::MissingHeader("Host".to_string()));
             };
 
-        let body = Body::from_reader(
-            reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
-        );
+        let content_length = match headers
+            .iter()
+            .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
+        {
+            Some((name, len)) => Some(
+                len.parse::<usize>()
+                    .ok()
+                    .filter(|_| len.bytes().all(|byte| byte.is_ascii_digit()))
+                    .ok_or_else(|| RequestParseError::InvalidHeader(name.to_string()))?,
+            ),
+            None => None,
+        };
+        let body = Body::from_reader(reader, content_length);
 
         Ok(Some(Self {
             headers,
-- 
2.43.0


From 461588f2a209dccb69ef618116bebdd84f74efed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 06/41] fix: do not allocate the declared length of a body up
 front

---
 puck/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..b755881 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,7 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From c729d8a4776d99f3e926ea5424c376a9439b1ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 07/41] fix: take the length of a response body from
 Content-Length

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From 27b63811a70fe4b7103b9575828e27ae52cb1e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 08/41] fix: reject malformed responses

---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..beead2d 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -148,6 +148,14 @@ pub enum ParseResponseError {
     MissingReason,
     #[error("utf8 error")]
     Utf8Error,
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
+}
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
 }
 
 impl From<io::Error> for ParseResponseError {
-- 
2.43.0


From 5882f1e8a5cd8e5dfc359948f581574f6c898d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 09/41] fix: refuse to write line breaks in headers, reasons
 and methods

---
 puck/src/lib.rs              | 17 ++++++++++++++++-
 puck/src/request/mod.rs      |  9 +++++++++
 puck/src/response/encoder.rs |  7 +++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/puck/src/lib.rs b/puck/src/lib.rs
index 0d693cb..20edb46 100644
--- a/puck/src/lib.rs
+++ b/puck/src/lib.rs
@@ -2,7 +2,10 @@
 
 #![deny(missing_debug_implementations, unused_must_use, missing_docs)]
 
-use std::{collections::HashMap, io::Write};
+use std::{
+    collections::HashMap,
+    io::{self, Write},
+};
 
 #[cfg(test)]
 mod regressions;
@@ -55,3 +58,15 @@ pub fn write_response(res: Response, stream: impl Write) {
     let mut encoder = Encoder::new(res);
     encoder.write_tcp_stream(stream).unwrap();
 }
+
+/// Refuse to write text containing a line break as a part of the head of a message (where it could
+/// be used to add headers, or another message.)
+pub(crate) fn reject_line_breaks<'a>(parts: impl IntoIterator<Item = &'a str>) -> io::Result<()> {
+    if parts.into_iter().any(|part| part.contains(['\r', '\n'])) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "line break in the head of a message",
+        ));
+    }
+    Ok(())
+}
diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 4f00f49..0571cc8 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -137,6 +137,15 @@ impl Request {
     /// Write this `Request` into the provided writer. Note that this will modify the `Request`
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
+        crate::reject_line_breaks(
+            self.headers
+                .iter()
+                .flat_map(|(header, value)| [header.as_str(), value.as_str()])
+                .chain(match &self.method {
+                    Method::OtherMethod(name) => Some(name.as_str()),
+                    _ => None,
+                }),
+        )?;
         self.method.write(write)?;
         write!(write, " {}", self.url.path())?;
         if let Some(query) = self.url.query() {
diff --git a/puck/src/response/encoder.rs b/puck/src/response/encoder.rs
index 3598763..2021709 100644
--- a/puck/src/response/encoder.rs
+++ b/puck/src/response/encoder.rs
@@ -18,6 +18,13 @@ impl Encoder {
 
     /// Write the current response to the given stream.
     pub fn write_tcp_stream(&mut self, mut stream: impl Write) -> std::io::Result<()> {
+        crate::reject_line_breaks(
+            self.response
+                .headers
+                .iter()
+                .flat_map(|(header, value)| [header.as_str(), value.as_str()])
+                .chain([self.response.reason.as_str()]),
+        )?;
         write!(
             stream,
             "HTTP/1.1 {} {}\r\n",
-- 
2.43.0


From df6bf5711745d21261f158e42dc5a3cb4076db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 10/41] fix: respond to malformed requests in serve_router

---
 puck/src/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..05cbf28 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
-- 
2.43.0


From fd36ba36caaa16d88e354a3c0dab5b8fb668551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 11/41] fix: respond to malformed requests in for_each

---
 puck/src/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 05cbf28..41aad26 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -98,7 +98,8 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                let stream = Stream::new(stream, false);
+                                let _ = stream.respond(crate::err_400());
                             }
                         }
                     },
-- 
2.43.0


From 35cf99c08f944bcdb8aad78d9f164b3a2332f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 12/41] fix: respond to malformed requests in Router::run

---
 puck/src/core/router/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..49ff418 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,8 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From 07f2d6d26b867b3e3b18ccfc7b9046f9dc6d38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 13/41] fix: read WebSocket frames without losing bytes of the
 next one

---
 puck/src/ws/frame.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..9b33c04 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,13 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    ///
+    /// This reads exactly the bytes of the frame, so that the next frame can be parsed from the
+    /// same stream.
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            read_exact(&mut stream, &mut buffer)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +50,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -62,13 +61,11 @@ impl Frame {
 
         let decoded = if payload_length > 0 {
             let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            read_exact(&mut stream, &mut masking_key)?;
 
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
@@ -151,6 +148,14 @@ impl Frame {
     }
 }
 
+/// Fill the buffer from the stream (however many reads that takes.)
+fn read_exact(stream: &mut impl Read, buffer: &mut [u8]) -> Result<(), ParseFrameError> {
+    stream.read_exact(buffer).map_err(|e| match e.kind() {
+        ErrorKind::UnexpectedEof => ParseFrameError::InsufficientData,
+        _ => ParseFrameError::IoError,
+    })
+}
+
 #[derive(Debug, Copy, Clone, Eq, PartialEq)]
 /// The operation code (from the specification) of this frame.
 #[allow(missing_docs)]
-- 
2.43.0


From 9e9d5dd1c26fe1f542666e431ca6dd7bc1a051d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 14/41] fix: consume the masking key of empty WebSocket frames

---
 puck/src/ws/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 9b33c04..e673b17 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -59,7 +59,7 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
+        let decoded = if masked {
             let mut masking_key = [0_u8; 4];
             read_exact(&mut stream, &mut masking_key)?;
 
-- 
2.43.0


From 317facd45924ee0636c69ab0cf0106193c32f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 15/41] fix: do not allocate the declared length of a WebSocket
 frame up front

---
 puck/src/ws/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index e673b17..63c9dab 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -63,7 +63,7 @@ impl Frame {
             let mut masking_key = [0_u8; 4];
             read_exact(&mut stream, &mut masking_key)?;
 
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
-- 
2.43.0


From e9a9102644d5bcdce67bc02e32c5ca13170a0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 16/41] fix: use the shortest length encoding for frames of
 65535 bytes

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 63c9dab..59e23ea 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -128,7 +128,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -140,7 +140,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From 5e1649aaed968ac20972124cc6832d7e9422dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 17/41] fix: reject WebSocket frames which the protocol does
 not allow

---
 puck/src/ws/frame.rs   | 18 ++++++++++++++++++
 puck/src/ws/message.rs |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 59e23ea..bb33524 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -93,6 +93,22 @@ impl Frame {
         })
     }
 
+    /// Check the rules of the protocol which concern a single frame: the reserved bits are not set,
+    /// and control frames are neither fragmented nor longer than 125 bytes.
+    pub(crate) fn check(&self) -> Result<(), ParseFrameError> {
+        let control = matches!(
+            self.op_code,
+            OpCode::Terminate | OpCode::Ping | OpCode::Pong
+        );
+        if self.rsv1 || self.rsv2 || self.rsv3 || self.op_code == OpCode::Reserved {
+            return Err(ParseFrameError::ProtocolViolation);
+        }
+        if control && (!self.fin || self.decoded.len() > 125) {
+            return Err(ParseFrameError::ProtocolViolation);
+        }
+        Ok(())
+    }
+
     /// Get a reference to the frame's fin.
     pub fn fin(&self) -> &bool {
         &self.fin
@@ -195,6 +211,8 @@ pub enum ParseFrameError {
     InvalidOpCode,
     #[error("not enough data supplied")]
     InsufficientData,
+    #[error("the frame is not allowed by the protocol")]
+    ProtocolViolation,
     #[error("wait for next frame")]
     WaitForNextFrame(u64),
 }
diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..57e84bc 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -25,6 +25,7 @@ impl Message {
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
         let first = Frame::parse(stream.clone())?;
+        first.check()?;
 
         if first.op_code() == &OpCode::Terminate {
             trace!("Client asked to close connection");
@@ -64,6 +65,7 @@ impl Message {
 
         loop {
             let msg = Frame::parse(stream.clone())?;
+            msg.check()?;
 
             if msg.op_code() == &OpCode::Terminate {
                 trace!("Client asked to close connection");
-- 
2.43.0


From 5610b826098f54a10a9662a8e1455838963f0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 18/41] fix: reject continuation frames which continue nothing

---
 puck/src/ws/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 57e84bc..12d2874 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -61,6 +61,10 @@ impl Message {
 
         let op_code = *first.op_code();
 
+        if op_code == OpCode::Continue {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
         let mut payload = first.take_decoded();
 
         loop {
-- 
2.43.0


From 753ec33cb14e50381977431eaf4425c0446efbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 19/41] fix: do not send WebSocket messages after the close
 frame

---
 puck/src/ws/send.rs      | 3 +++
 puck/src/ws/websocket.rs | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..538cdff 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -22,6 +22,9 @@ pub enum SendFrameError {
     #[error("error encoding the frame")]
     /// Indicates that the frame in question could not be encoded.
     EncodeFrameError,
+    #[error("the connection is closed")]
+    /// Indicates that the connection has been closed, so that nothing can be sent any more.
+    ConnectionClosed,
     #[error("io error")]
     /// Indicates that there was an IO error when trying to handle this frame.
     IoError,
diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..f69fdc3 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -42,7 +42,10 @@ impl WebSocket {
 
     /// Send a message to the other party.
     pub fn send(&self, message: Message) -> Result<(), SendFrameError> {
-        send::send(self.clone_stream(), message)
+        match self.state {
+            WebSocketState::Open => send::send(self.clone_stream(), message),
+            WebSocketState::Closed => Err(SendFrameError::ConnectionClosed),
+        }
     }
 
     /// Send a message to a stream.
-- 
2.43.0


From c8e6a57a8b62cab0e82e8e7495061d8161652103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 20/41] fix: report failures to send WebSocket control frames

---
 puck/src/ws/websocket.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index f69fdc3..78c0e40 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -62,7 +62,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -90,7 +90,7 @@ impl Iterator for WebSocket {
             WebSocketState::Open => match Message::next(self.stream.clone()) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        let sent = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -100,8 +100,11 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
+                        if sent.is_err() {
+                            self.state = WebSocketState::Closed;
+                            return Some(Err(NextMessageError::ConnectionClosed));
+                        }
                     }
                     Ok(msg)
                 }
@@ -111,7 +114,7 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -132,7 +135,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -145,5 +148,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 6b2addfd2baacaedca39a7337610efd1b8e336d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 21/41] fix: fail the WebSocket connection after a protocol
 violation

---
 puck/src/ws/websocket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 78c0e40..8e770d6 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -110,6 +110,9 @@ impl Iterator for WebSocket {
                 }
                 Err(e) => match e {
                     super::message::DecodeMessageError::ClientProtocolViolationError => {
+                        // the start of the next frame (if there is one) is not known
+                        self.state = WebSocketState::Closed;
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ClientError)
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
-- 
2.43.0


From 71926ed7e4cc9dc6ebdae72b8c964043e94c17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 22/41] fix: look up the headers of a WebSocket upgrade
 whatever their case

---
 puck/src/ws/upgrade.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..6b518ad 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -8,18 +8,23 @@ use crate::{err_400, write_response, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    get_header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
+        && get_header(req, "Connection")
             .map(|val| val.to_ascii_lowercase().contains("upgrade"))
             .unwrap_or_default()
 }
 
+/// Header names are not case sensitive.
+fn get_header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, val)| val)
+}
+
 /// The 'magic string' used to upgrade WebSocket connections.
 const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 
@@ -28,7 +33,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match get_header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From a04a1f6c1cd342556172a3d624fecbffa6bfc80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 23/41] fix: do not panic if the client leaves during a
 WebSocket upgrade

---
 puck/src/core/mod.rs   |  4 +++-
 puck/src/ws/upgrade.rs | 13 ++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 41aad26..c207d09 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -138,7 +138,9 @@ impl Stream {
         self.keep_alive = false;
 
         if !ws::should_upgrade(req) {
-            return Err(self.respond(crate::err_400()).unwrap());
+            return Err(self
+                .respond(crate::err_400())
+                .unwrap_or_else(|_| UsedStream::empty()));
         }
 
         if !ws::perform_upgrade(req, self.stream.clone()) {
diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 6b518ad..8a4a77d 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -4,7 +4,7 @@ use base64::encode;
 use log::trace;
 use sha1::{Digest, Sha1};
 
-use crate::{err_400, write_response, Response};
+use crate::{err_400, response::encoder::Encoder, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
@@ -37,24 +37,23 @@ pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-            write_response(err_400(), stream);
+            let _ = Encoder::new(err_400()).write_tcp_stream(stream);
             return false;
         }
     };
 
     let result = compute_accept_header(key.clone());
 
-    write_response(
+    Encoder::new(
         Response::build()
             .header("Sec-WebSocket-Accept", result)
             .header("Upgrade", "websocket")
             .header("Connection", "Upgrade")
             .status(101, "Web Socket Protocol Handshake")
             .build(),
-        stream,
-    );
-
-    true
+    )
+    .write_tcp_stream(stream)
+    .is_ok()
 }
 
 fn compute_accept_header(key: String) -> String {
-- 
2.43.0


From 67f6f31a31065d3828b9c22d5903ec5ed12ab006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 24/41] fix: reject messages whose head ends before the blank
 line

---
 puck/src/request/mod.rs  | 6 +++++-
 puck/src/response/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 0571cc8..81d8add 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -68,7 +68,11 @@ impl Request {
             }
         }
 
-        let _ = req.parse(&buf)?;
+        match req.parse(&buf)? {
+            httparse::Status::Complete(length) if length == buf.len() => {}
+            // the rest of what was read would be lost
+            _ => return Err(From::from(httparse::Error::NewLine)),
+        }
         let method = Method::new_from_str(req.method.ok_or(RequestParseError::MissingMethod)?);
         let headers = {
             let mut map = HashMap::new();
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index beead2d..f43bde5 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,11 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf)?;
+        match res.parse(&buf)? {
+            httparse::Status::Complete(length) if length == buf.len() => {}
+            // the rest of what was read would be lost
+            _ => return Err(From::from(httparse::Error::NewLine)),
+        }
 
         let headers = {
             let mut map = HashMap::new();
-- 
2.43.0


From 5684ec46719f8f4c9fa7f86b568232f9511bacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 25/41] fix: write WebSocket frames as a whole

---
 puck/src/ws/send.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index 538cdff..9552c53 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,12 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // written as a whole, so that frames which several processes send at once (pongs, for example)
+    // do not end up inside one another
+    let mut encoded = Vec::new();
+    frame.format(&mut encoded)?;
+    encoded.extend_from_slice(frame.decoded());
+    stream.write_all(&encoded)?;
 
     Ok(())
 }
-- 
2.43.0


From f92d5910634b9232e98606baa40d6925302ec003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 26/41] fix: stop reading from a LiveView connection once it is
 closed

---
 puck_liveview/src/component/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..5cd89fd 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -68,11 +68,13 @@ where
 
             Process::spawn(
                 (stream, process.clone()),
-                |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                |(websocket, process), _: Mailbox<()>| {
+                    for msg in websocket {
+                        let closed = matches!(msg, Err(NextMessageError::ConnectionClosed));
+                        process.send(WsOrInput::Ws(msg));
+                        if closed {
+                            // there is nothing left to read
+                            break;
                         }
                     }
                 },
-- 
2.43.0


From acb7b03c9ca83b63d6cc1823b9cea2875901fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 27/41] fix: do not panic if the client leaves before the first
 paint

---
 puck_liveview/src/component/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 5cd89fd..4a442ab 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -112,7 +112,10 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    if stream.send(Message::Text(payload)).is_err() {
+        // the client has already left
+        return;
+    }
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From 9236e659788311d0ce16538c50ca7f1df3697800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 28/41] fix: address tag name and listener updates to the id
 the element has

---
 puck_liveview/src/dom/element/diff/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..e1ce67e 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -57,7 +57,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -184,19 +184,21 @@ impl Element {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            // the element keeps its id until the end of the update
+            c.ops.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners which should be attached to a given `Element` (which the DOM
+    /// knows by the id provided.)
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
-- 
2.43.0


From 746bc4fb9ac86719b6ce98e8bb0d9e6ff83f8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 29/41] fix: rename, create and order elements without clashes

---
 .../src/dom/element/diff/changeset/apply.rs   |  76 ++----
 .../src/dom/element/diff/changeset/mod.rs     |   3 +
 puck_liveview/src/dom/element/diff/mod.rs     | 220 ++++++++++++------
 3 files changed, 167 insertions(+), 132 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/changeset/apply.rs b/puck_liveview/src/dom/element/diff/changeset/apply.rs
index b2a0e4e..339c8c1 100644
--- a/puck_liveview/src/dom/element/diff/changeset/apply.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/apply.rs
@@ -26,64 +26,10 @@ impl<'a> Changeset<'a> {
                     })
                 }
                 super::Instruction::InsertAfter { after_id } => {
-                    let el = Self::find_el_with_id(el_id, element).expect("failed to find element");
-
-                    assert!(!el.children.is_empty());
-
-                    let after_id = Self::parse(after_id);
-
-                    let index = el
-                        .children
-                        .iter()
-                        .enumerate()
-                        .find_map(
-                            |(index, el)| {
-                                if el.id == after_id {
-                                    Some(index)
-                                } else {
-                                    None
-                                }
-                            },
-                        )
-                        .expect("`InsertAfter` - specified node to insert after was not found in children");
-
-                    el.children.insert(
-                        index + 1,
-                        Element {
-                            id: after_id,
-                            ..Default::default()
-                        },
-                    );
+                    Self::move_el(element, el_id, Self::parse(after_id), 1)
                 }
                 super::Instruction::InsertBefore { before_id } => {
-                    let el = Self::find_el_with_id(el_id, element).expect("failed to find element");
-
-                    assert!(!el.children.is_empty());
-
-                    let before_id = Self::parse(before_id);
-
-                    let index = el
-                        .children
-                        .iter()
-                        .enumerate()
-                        .find_map(
-                            |(index, el)| {
-                                if el.id == before_id {
-                                    Some(index)
-                                } else {
-                                    None
-                                }
-                            },
-                        )
-                        .expect("`InsertAfter` - specified node to insert after was not found in children");
-
-                    el.children.insert(
-                        index,
-                        Element {
-                            id: before_id,
-                            ..Default::default()
-                        },
-                    );
+                    Self::move_el(element, el_id, Self::parse(before_id), 0)
                 }
                 super::Instruction::SetAttribute { key, value } => {
                     let el = Self::find_el_with_id(el_id.clone(), element)
@@ -158,6 +104,24 @@ impl<'a> Changeset<'a> {
         }
     }
 
+    /// Moves an element next to another one (`offset` is 0 for before and 1 for after.)
+    fn move_el(element: &mut Element, id: usize, next_to: usize, offset: usize) {
+        let parent_id = Self::find_parent_id(element, id).unwrap();
+        let parent = Self::find_el_with_id(parent_id, element).unwrap();
+        let position = parent.children.iter().position(|el| el.id == id).unwrap();
+        let el = parent.children.remove(position);
+
+        let parent_id = Self::find_parent_id(element, next_to)
+            .expect("the specified node to insert next to was not found");
+        let parent = Self::find_el_with_id(parent_id, element).unwrap();
+        let position = parent
+            .children
+            .iter()
+            .position(|el| el.id == next_to)
+            .unwrap();
+        parent.children.insert(position + offset, el);
+    }
+
     fn find_parent_id(el: &Element, id: usize) -> Option<usize> {
         for child in &el.children {
             if child.id().parse::<usize>().unwrap() == id {
diff --git a/puck_liveview/src/dom/element/diff/changeset/mod.rs b/puck_liveview/src/dom/element/diff/changeset/mod.rs
index e3d3c12..7f0df5d 100644
--- a/puck_liveview/src/dom/element/diff/changeset/mod.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/mod.rs
@@ -51,9 +51,12 @@ pub(crate) enum Instruction<'a> {
     InsertChild {
         new_child_id: String,
     },
+    /// Move the element so that it directly follows another element.
+    #[allow(unused)]
     InsertAfter {
         after_id: String,
     },
+    /// Move the element so that it directly precedes another element.
     InsertBefore {
         before_id: String,
     },
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index e1ce67e..b10efc8 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -4,7 +4,7 @@ pub(crate) mod changeset;
 #[allow(unused_parens)]
 mod test_diffing;
 
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use self::changeset::{Changeset, Instruction, Op};
 
@@ -18,13 +18,11 @@ impl Element {
 
         if let Some(other) = other {
             // we need to apply all these updates...
-            c.ops.extend(self.diff_name(other));
-            c.ops.extend(self.diff_attributes(other));
-            c.ops.extend(self.diff_text(other));
-            c.ops.extend(self.diff_listeners(other));
-            // ... before we change the id
-            c.ops.extend(self.diff_children(other));
-            c.ops.extend(self.diff_id(other));
+            c.extend(self.diff_in_place(other));
+            // ... before we change the ids, ...
+            c.extend(self.diff_ids(other));
+            // ... and only then are the ids of the new elements free
+            c.extend(self.diff_new_children(other));
         } else {
             c.ops.extend(self.create_from_scratch(None))
         }
@@ -32,6 +30,19 @@ impl Element {
         c
     }
 
+    /// Updates everything but the ids of the elements which stay, and removes those which do not.
+    fn diff_in_place<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut c = Changeset::empty();
+
+        c.ops.extend(self.diff_name(other));
+        c.ops.extend(self.diff_attributes(other));
+        c.ops.extend(self.diff_text(other));
+        c.ops.extend(self.diff_listeners(other));
+        c.ops.extend(self.diff_children(other));
+
+        c
+    }
+
     /// Create a new element from scratch – generally used for the first application paint.
     ///
     /// In the future we should just send this as a serialized HTML string, rather than a series of
@@ -98,16 +109,56 @@ impl Element {
         cs
     }
 
-    /// Compares the ID's of two elements and emits instructions to update the underlying DOM node
-    /// so that it has the new ID.
-    fn diff_id<'a>(&'a self, other: &'a Element) -> Changeset {
-        if self.id != other.id {
-            Changeset::from_op(Op {
-                id: self.id(),
-                instruction: Instruction::SetId { value: other.id() },
-            })
-        } else {
-            Changeset::empty()
+    /// Compares the ID's of the elements which stay and emits instructions to update the underlying
+    /// DOM nodes so that they have the new ID's. At no point do two nodes have the same ID.
+    fn diff_ids<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut cs = Changeset::empty();
+
+        let mut ids = vec![];
+        self.collect_ids(other, &mut ids);
+
+        let mut in_use: HashSet<usize> = ids.iter().map(|(old, _)| *old).collect();
+        let targets: HashSet<usize> = ids.iter().map(|(_, new)| *new).collect();
+        ids.retain(|(old, new)| old != new);
+
+        let mut rename = |from: usize, to: usize, in_use: &mut HashSet<usize>| {
+            in_use.remove(&from);
+            in_use.insert(to);
+            cs.ops.push(Op {
+                id: from.to_string(),
+                instruction: Instruction::SetId {
+                    value: to.to_string(),
+                },
+            });
+        };
+
+        while !ids.is_empty() {
+            let before = ids.len();
+            ids.retain(|(old, new)| {
+                if in_use.contains(new) {
+                    return true;
+                }
+                rename(*old, *new, &mut in_use);
+                false
+            });
+            if ids.len() == before {
+                // only cycles are left: break one of them with an ID that nothing uses
+                let spare = (0..)
+                    .find(|id| !in_use.contains(id) && !targets.contains(id))
+                    .unwrap();
+                rename(ids[0].0, spare, &mut in_use);
+                ids[0].0 = spare;
+            }
+        }
+
+        cs
+    }
+
+    /// Collects the old and new ID's of all the elements which stay.
+    fn collect_ids(&self, other: &Element, ids: &mut Vec<(usize, usize)>) {
+        ids.push((self.id, other.id));
+        for (my_child, their_child) in self.paired_children(other) {
+            my_child.collect_ids(their_child, ids);
         }
     }
 
@@ -216,44 +267,35 @@ impl Element {
             .find(|el| el.key.as_ref().unwrap().eq(key))
     }
 
+    /// Checks whether the children of the two nodes should be matched up by their keys (rather than
+    /// by their positions.)
+    fn matches_by_key(&self, other: &Element) -> bool {
+        self.children_are_all_keyed() && other.children_are_all_keyed()
+    }
+
+    /// Returns the children of this node which stay, together with the children of the other node
+    /// whose form they should assume.
+    fn paired_children<'a>(&'a self, other: &'a Element) -> Vec<(&'a Element, &'a Element)> {
+        if self.matches_by_key(other) {
+            other
+                .children
+                .iter()
+                .filter_map(|their_child| {
+                    self.locate_child_by_key(their_child.key.as_ref().unwrap())
+                        .map(|my_child| (my_child, their_child))
+                })
+                .collect()
+        } else {
+            self.children.iter().zip(&other.children).collect()
+        }
+    }
+
     /// Compares the children of two nodes and emits instructions to update the old children to
-    /// assume the form of the new children.
+    /// assume the form of the new children, and to delete those which have no counterpart.
     fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
-        if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
-                if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
-                {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                } else {
-                    unpaired.push(i);
-                }
-            }
-
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
-                changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
-                })
-            }
-
+        if self.matches_by_key(other) {
             // delete all the nodes that we have that they don't
             for our_child in self.children.iter() {
                 if other
@@ -267,34 +309,60 @@ impl Element {
                 }
             }
         } else {
-            let self_len = self.children.len();
-            let other_len = other.children.len();
+            for el in self.children.iter().skip(other.children.len()) {
+                changeset.ops.push(Op {
+                    id: el.id(),
+                    instruction: Instruction::DeleteEl,
+                })
+            }
+        }
 
-            #[allow(clippy::comparison_chain)]
-            if self_len == other_len {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // we are done
-            } else if self_len > other_len {
-                for el in self.children[other_len..].iter() {
+        for (my_child, their_child) in self.paired_children(other) {
+            changeset.extend(my_child.diff_in_place(their_child));
+        }
+
+        changeset
+    }
+
+    /// Creates the children that they have, but we don't, and puts all of them in order. (By now
+    /// the elements which stay have their new ids.)
+    fn diff_new_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+        let mut changeset = Changeset::empty();
+
+        for (my_child, their_child) in self.paired_children(other) {
+            changeset.extend(my_child.diff_new_children(their_child));
+        }
+
+        if self.matches_by_key(other) {
+            // the order of the children in the DOM, once the new ones have been added at the end
+            let (mut order, new): (Vec<_>, Vec<_>) = other.children.iter().partition(|child| {
+                self.locate_child_by_key(child.key.as_ref().unwrap())
+                    .is_some()
+            });
+            order.sort_by_key(|child| self.children.iter().position(|el| el.key == child.key));
+
+            for child in new.iter() {
+                changeset.extend(child.create_from_scratch(Some(other)));
+            }
+            order.extend(new);
+
+            for (i, child) in other.children.iter().enumerate() {
+                let position = order.iter().position(|el| el.id == child.id).unwrap();
+                if position != i {
                     changeset.ops.push(Op {
-                        id: el.id(),
-                        instruction: Instruction::DeleteEl,
-                    })
-                }
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-            } else {
-                for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
-                }
-                // add all the elements that they have, but we don't
-                for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
+                        id: child.id(),
+                        instruction: Instruction::InsertBefore {
+                            before_id: order[i].id(),
+                        },
+                    });
+                    let moved = order.remove(position);
+                    order.insert(i, moved);
                 }
             }
+        } else {
+            for el in other.children.iter().skip(self.children.len()) {
+                changeset.extend(el.create_from_scratch(Some(other)));
+            }
         }
 
         changeset
-- 
2.43.0


From 89f884d3c15271a1059f7fde2df3c79688e9ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 30/41] fix: keep attribute values and listener names which
 contain a plus sign

---
 puck_liveview/client/index.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..c1ac726 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,7 +16,9 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
+            // the value may contain a "+", too
+            let at = data["payload"].indexOf("+");
+            let split = [data["payload"].slice(0, at), data["payload"].slice(at + 1)];
             console.log(split[1]);
             let el = document.getElementById(data.el);
             el.setAttribute(split[0], split[1]);
@@ -37,7 +39,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the name of the listener may contain a "+", too
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From 118d759429cdb04a00160d8747d64e7561ddd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 31/41] fix: keep the children of an element whose text changes

---
 puck_liveview/client/index.js | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c1ac726..4198d77 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -1,5 +1,15 @@
 let ws = new WebSocket("ws://" + window.location.host + window.location.pathname + "ws");
 
+// The text of an element comes before its children (which stay as they are.)
+function setText(el, text) {
+    let first = el.firstChild;
+    if (first && first.nodeType === Node.TEXT_NODE) {
+        first.nodeValue = text;
+    } else {
+        el.insertBefore(document.createTextNode(text), first);
+    }
+}
+
 ws.onmessage = (msg) => {
     let data = JSON.parse(msg.data);
     data.map((data) => {
@@ -37,7 +47,9 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            setText(document.getElementById(data["el"]), data["payload"]);
+        } else if (data.ty === "removeText") {
+            setText(document.getElementById(data.el), "");
         } else if (data.ty === "attachListener") {
             // the name of the listener may contain a "+", too
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From 87faacff485da6eb555d69b96ed366c042f71261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 32/41] fix: keep the listeners of other elements in the
 browser

---
 puck_liveview/client/index.js | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 4198d77..ec23d1a 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -10,6 +10,16 @@ function setText(el, text) {
     }
 }
 
+// The listeners attached to each element.
+let listeners = new WeakMap();
+
+function listenersOf(el) {
+    if (!listeners.has(el)) {
+        listeners.set(el, []);
+    }
+    return listeners.get(el);
+}
+
 ws.onmessage = (msg) => {
     let data = JSON.parse(msg.data);
     data.map((data) => {
@@ -37,7 +47,13 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
+            for (let [event, listener] of listenersOf(old_tag)) {
+                new_tag.addEventListener(event, listener);
+                listenersOf(new_tag).push([event, listener]);
+            }
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
@@ -54,7 +70,7 @@ ws.onmessage = (msg) => {
             // the name of the listener may contain a "+", too
             let at = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
-            document.getElementById(data.el).addEventListener(split[1], function (e) {
+            let listener = function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -76,11 +92,16 @@ ws.onmessage = (msg) => {
                         }
                     }));
                 }
-            })
+            };
+            let el = document.getElementById(data.el);
+            el.addEventListener(split[1], listener);
+            listenersOf(el).push([split[1], listener]);
         } else if (data.ty === "removeListeners") {
-            let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            let el = document.getElementById(data.el);
+            for (let [event, listener] of listenersOf(el)) {
+                el.removeEventListener(event, listener);
+            }
+            listeners.delete(el);
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From fa34436e0809bb5434589ed9086e191418312793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 33/41] fix: place keyed elements in the browser

---
 puck_liveview/client/index.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index ec23d1a..086936c 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -107,6 +107,12 @@ ws.onmessage = (msg) => {
             console.log("deleting");
             console.log(el);
             el.parentNode.removeChild(el);
+        } else if (data.ty === "insertBefore") {
+            let before = document.getElementById(data.payload);
+            before.parentNode.insertBefore(document.getElementById(data.el), before);
+        } else if (data.ty === "insertAfter") {
+            let after = document.getElementById(data.payload);
+            after.parentNode.insertBefore(document.getElementById(data.el), after.nextSibling);
         } else if (data.ty === "setId") {
             console.log("updating id, from: " + data.el + ", to: " + data.payload);
             document.getElementById(data.el).id = data.payload;
-- 
2.43.0


From afa2d182279975799efb2f425a388a3bc37de0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 34/41] fix: do not leave the page when a form is submitted

---
 puck_liveview/client/index.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 086936c..058e92f 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -80,6 +80,8 @@ ws.onmessage = (msg) => {
                         listener: split[0]
                     }));
                 } else if (split[1] === "submit") {
+                    // the component handles the event: stay on this page
+                    e.preventDefault();
                     ws.send(JSON.stringify({
                         listener: split[0]
                     }));
-- 
2.43.0


From 7ebdb4285b83c9409d757547b65af3047d91b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 35/41] fix: use the names of select and noscript elements

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0


From 68c5ab531034311e42b26073c3fd7c48f4ad8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 36/41] fix: keep the children of headings, labels and links

---
 puck_liveview/src/html/mod.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index 1a31400..ac8fdfb 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -17,15 +17,18 @@ pub struct WrappedBodyNode {
 }
 
 macro_rules! map_heading_to_element {
-    ($self:ident, $id:expr, $h:ident) => {{
+    ($self:ident, $id_gen:ident, $h:ident) => {{
         let $h = $h.into_pub_fields();
         Element {
-            id: $id,
+            id: $id_gen.new_id(),
             name: std::borrow::Cow::Borrowed(stringify!($h)),
             attributes: $h.attrs,
             listeners: $self.listeners,
-            // headings currently can't have children; this will be rectified in the future
-            children: vec![],
+            children: $self
+                .children
+                .into_iter()
+                .map(|child| child.into_element($id_gen))
+                .collect(),
             text: Some($h.text),
             key: None,
         }
@@ -36,22 +39,22 @@ impl WrappedBodyNode {
     pub fn into_element(self, id_gen: &mut IdGen) -> Element {
         match self.node {
             BodyNode::H1(h1) => {
-                map_heading_to_element!(self, id_gen.new_id(), h1)
+                map_heading_to_element!(self, id_gen, h1)
             }
             BodyNode::H2(h2) => {
-                map_heading_to_element!(self, id_gen.new_id(), h2)
+                map_heading_to_element!(self, id_gen, h2)
             }
             BodyNode::H3(h3) => {
-                map_heading_to_element!(self, id_gen.new_id(), h3)
+                map_heading_to_element!(self, id_gen, h3)
             }
             BodyNode::H4(h4) => {
-                map_heading_to_element!(self, id_gen.new_id(), h4)
+                map_heading_to_element!(self, id_gen, h4)
             }
             BodyNode::H5(h5) => {
-                map_heading_to_element!(self, id_gen.new_id(), h5)
+                map_heading_to_element!(self, id_gen, h5)
             }
             BodyNode::H6(h6) => {
-                map_heading_to_element!(self, id_gen.new_id(), h6)
+                map_heading_to_element!(self, id_gen, h6)
             }
             BodyNode::P(p) => {
                 let p = p.into_pub_fields();
@@ -117,7 +120,11 @@ impl WrappedBodyNode {
                     name: std::borrow::Cow::Borrowed("a"),
                     attributes: a.attrs,
                     listeners: self.listeners,
-                    children: vec![],
+                    children: self
+                        .children
+                        .into_iter()
+                        .map(|child| child.into_element(id_gen))
+                        .collect(),
                     text: Some(a.text),
                     key: None,
                 }
@@ -139,7 +146,7 @@ impl WrappedBodyNode {
                 }
             }
             BodyNode::Label(label) => {
-                map_heading_to_element!(self, id_gen.new_id(), label)
+                map_heading_to_element!(self, id_gen, label)
             }
             BodyNode::Select(select) => {
                 let select = select.into_pub_fields();
-- 
2.43.0


From 9300560a535f4c3ceefa776a068bb93044908541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 37/41] fix: keep the listeners of br and noscript elements

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index ac8fdfb..97b6730 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -92,7 +92,7 @@ impl WrappedBodyNode {
                 id: id_gen.new_id(),
                 name: std::borrow::Cow::Borrowed("br"),
                 attributes: HashMap::new(),
-                listeners: vec![],
+                listeners: self.listeners,
                 children: vec![],
                 text: None,
                 key: None,
@@ -171,7 +171,7 @@ impl WrappedBodyNode {
                     id: id_gen.new_id(),
                     name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
-                    listeners: vec![],
+                    listeners: self.listeners,
                     children: vec![],
                     text: Some(noscript.text),
                     key: None,
-- 
2.43.0


From 32930bfd7b34ea8650428bcd29a577690b988892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 38/41] fix: refuse to send control frames the protocol does
 not allow

---
 puck/src/ws/send.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index 9552c53..2841997 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,6 +10,11 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
+    // the payload of a control frame (a ping, say) may be too long for the protocol
+    frame
+        .check()
+        .map_err(|_| SendFrameError::EncodeFrameError)?;
+
     // written as a whole, so that frames which several processes send at once (pongs, for example)
     // do not end up inside one another
     let mut encoded = Vec::new();
-- 
2.43.0


From 088e51cd964111235f68fc0ba859ed42fca2077b Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Fri, 20 Nov 2026 04:42:29 +0000
Subject: [PATCH 39/41] fix: combine the values of repeated headers

---
 puck/src/lib.rs          | 17 +++++++++++++++++
 puck/src/request/mod.rs  |  3 ++-
 puck/src/response/mod.rs |  3 ++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/puck/src/lib.rs b/puck/src/lib.rs
index 20edb46..b3e1ef5 100644
--- a/puck/src/lib.rs
+++ b/puck/src/lib.rs
@@ -59,6 +59,23 @@ pub fn write_response(res: Response, stream: impl Write) {
     encoder.write_tcp_stream(stream).unwrap();
 }
 
+/// Add a header of a message which was read. If a header is repeated, the values are combined (as
+/// described in section 5.3 of RFC 9110), so that none of them is lost.
+pub(crate) fn add_header(headers: &mut HashMap<String, String>, name: String, value: String) {
+    match headers
+        .iter_mut()
+        .find(|(existing, _)| existing.eq_ignore_ascii_case(&name))
+    {
+        Some((_, existing)) => {
+            existing.push_str(", ");
+            existing.push_str(&value);
+        }
+        None => {
+            headers.insert(name, value);
+        }
+    }
+}
+
 /// Refuse to write text containing a line break as a part of the head of a message (where it could
 /// be used to add headers, or another message.)
 pub(crate) fn reject_line_breaks<'a>(parts: impl IntoIterator<Item = &'a str>) -> io::Result<()> {
diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 81d8add..863cd66 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -86,7 +86,8 @@ impl Request {
                 {
                     return Err(RequestParseError::InvalidHeader(header.name.to_string()));
                 }
-                map.insert(
+                crate::add_header(
+                    &mut map,
                     header.name.to_string(),
                     std::str::from_utf8(header.value)?.to_string(),
                 );
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index f43bde5..ac4bdef 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -84,7 +84,8 @@ impl Response {
         let headers = {
             let mut map = HashMap::new();
             for header in res.headers.iter() {
-                map.insert(
+                crate::add_header(
+                    &mut map,
                     header.name.to_string(),
                     match std::str::from_utf8(header.value) {
                         Ok(t) => t,
-- 
2.43.0


From 74d701f4f2e1a7cf864853b2b3ae12228b3b38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 40/41] fix: refuse responses whose declared length is no
 length

---
 puck/src/response/mod.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index ac4bdef..a85397a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -109,13 +109,19 @@ impl Response {
             return Err(ParseResponseError::MissingReason);
         };
 
-        let body = Body::from_reader(
-            reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
-        );
+        let content_length = match headers
+            .iter()
+            .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
+        {
+            Some((name, len)) => Some(
+                len.parse::<usize>()
+                    .ok()
+                    .filter(|_| len.bytes().all(|byte| byte.is_ascii_digit()))
+                    .ok_or_else(|| ParseResponseError::InvalidHeader(name.to_string()))?,
+            ),
+            None => None,
+        };
+        let body = Body::from_reader(reader, content_length);
 
         Ok(Some(Self {
             headers,
@@ -155,6 +161,8 @@ pub enum ParseResponseError {
     Utf8Error,
     #[error("could not parse")]
     CouldNotParse(httparse::Error),
+    #[error("the `{0}` header is invalid")]
+    InvalidHeader(String),
 }
 
 impl From<httparse::Error> for ParseResponseError {
-- 
2.43.0


From 527d3a42e13b1d8b4967fe6643217b6145a84dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:05 +0000
Subject: [PATCH 41/41] fix: look for the upgrade token, not for the word

---
 puck/src/ws/upgrade.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 8a4a77d..918b257 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -13,7 +13,10 @@ pub fn should_upgrade(req: &crate::Request) -> bool {
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
         && get_header(req, "Connection")
-            .map(|val| val.to_ascii_lowercase().contains("upgrade"))
+            .map(|val| {
+                val.split(',')
+                    .any(|token| token.trim().eq_ignore_ascii_case("upgrade"))
+            })
             .unwrap_or_default()
 }
 
-- 
2.43.0

