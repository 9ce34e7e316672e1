From d380202369d6fb446339cd2174f0c9027e54b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/43] fix: a prefix operator after a complete expression no
 longer hangs the parser

---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..731c8cf 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => return Ok(left),
             };
         }
         Ok(left)
-- 
2.43.0


From d3f11c1d6c148b26d99df4c32476cd6c901f5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 02/43] fix: reject expressions nested too deeply instead of
 overflowing the stack

---
 lib/src/parser.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 731c8cf..2961a6a 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -10,9 +10,16 @@ pub struct Source {
     pub tests: HashMap<String, Vec<Expr>>,
 }
 
+/// The deepest expression tree accepted, so that parsing and evaluating it cannot exhaust the stack.
+const MAX_DEPTH: usize = 128;
+
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    // depth of the expr being parsed
+    depth: usize,
+    // depth of the deepest expr below it so far
+    deepest: usize,
 }
 
 impl Parser {
@@ -20,6 +27,8 @@ impl Parser {
         Parser {
             tokens: lexer::segment(text),
             index: usize::MIN,
+            depth: usize::MIN,
+            deepest: usize::MIN,
         }
     }
 
@@ -89,7 +98,26 @@ impl Parser {
         Ok(Source { exprs, requests, tests })
     }
 
-    fn parse_expr(&mut self, mut precedence: u8) -> Result<Expr, String> {
+    fn parse_expr(&mut self, precedence: u8) -> Result<Expr, String> {
+        let (depth, deepest) = (self.depth, self.deepest);
+        self.depth = depth + 1;
+        self.deepest = depth;
+        self.deepen()?;
+        let expr = self.parse_nested_expr(precedence)?;
+        self.depth = depth;
+        self.deepest = self.deepest.max(deepest);
+        Ok(expr)
+    }
+
+    fn deepen(&mut self) -> Result<(), String> {
+        self.deepest += 1;
+        match self.deepest > MAX_DEPTH {
+            true => Err(format!("expr nested deeper than {}", MAX_DEPTH)),
+            false => Ok(()),
+        }
+    }
+
+    fn parse_nested_expr(&mut self, mut precedence: u8) -> Result<Expr, String> {
         let mut left = match self.current_token().kind {
             Kind::Ident => self.parse_ident_expr(),
             Kind::Integer => self.parse_integer_literal()?,
@@ -108,6 +136,7 @@ impl Parser {
             _ => Err(format!("parse expr error: {}", self.current_token()))?,
         };
         while !self.peek_token_is(Kind::Semi) && precedence < self.peek_precedence() {
+            self.deepen()?;
             left = match self.peek_token() {
                 Some(Token { kind: Kind::Add, .. })
                 | Some(Token { kind: Kind::Sub, .. })
-- 
2.43.0


From c2b0fa3a12dfc6e780d350e55b545ff521c6df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 03/43] fix: integer overflow, division by zero and bad shifts
 are errors, not panics

---
 lib/src/value.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..dce63aa 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,10 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +107,10 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_rem(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} % {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +153,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shl(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} << {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +166,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => match u32::try_from(right).ok().and_then(|right| left.checked_shr(right)) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} >> {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From 3b68a7c596a0f1cd0438e590d0d8a9b3001e2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 04/43] fix: negating the smallest integer is an error, not a
 panic

---
 lib/src/evaluator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..f2f649d 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer out of range: -{}", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
-- 
2.43.0


From e7e9ce266ffba04f5c57c959932a55cb57880f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 05/43] fix: end the arrays of headers and asserts in record
 files

---
 lib/src/writer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..33cc07a 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -92,7 +92,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_end(record.request.headers.len(), &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
@@ -102,7 +104,9 @@ impl<W: Write> Writer<W> {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_end(record.response.headers.len(), &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
             encode_long(record.asserts.len() as i64, &mut data);
             for assert in record.asserts.iter() {
@@ -112,6 +116,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_end(record.asserts.len(), &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
@@ -140,6 +145,13 @@ fn encode_bool(b: bool, buffer: &mut Vec<u8>) {
     buffer.push(u8::from(b));
 }
 
+/// Ends an array of this length: an empty array is its own end.
+fn encode_end(len: usize, buffer: &mut Vec<u8>) {
+    if len > 0 {
+        encode_long(0, buffer)
+    }
+}
+
 fn encode_bytes<B: AsRef<[u8]> + ?Sized>(s: &B, buffer: &mut Vec<u8>) {
     let bytes = s.as_ref();
     encode_long(bytes.len() as i64, buffer);
-- 
2.43.0


From 3dacbcc0345ef81a8917c2151b4cafbb2c88ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 06/43] fix: write whole record blocks when the sink accepts
 only part of a write

---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 33cc07a..db57746 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -124,7 +124,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From 3ee61a76fa9c3933147dacbd893a8be53a86721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 07/43] fix: do not write empty record blocks, readers stop at
 them

---
 lib/src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index db57746..5a3028b 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -69,6 +69,10 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write(&mut self, records: &[Record], name: &str, thread: u32, number: u32) {
+        // a block without records ends the file for a reader
+        if records.is_empty() {
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
-- 
2.43.0


From b8372dfcf0d85fb05c8e19bf95aa072107a68cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 08/43] fix: keep a url path that contains "://"

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From 147dd790828a57e30ab068ab48f0d1ae27d4f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 09/43] fix: a url query without a path is not part of the host

---
 lib/src/http/url.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..47a1eee 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -13,17 +13,17 @@ impl std::convert::From<&str> for Url {
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-                let (host, path) = if let Some(i) = str.find('/') {
-                    (&str[..i], &str[i..])
-                } else {
-                    (str, "/")
+                let (host, path) = match str.find(['/', '?', '#']) {
+                    Some(i) if str[i..].starts_with('/') => (&str[..i], str[i..].to_string()),
+                    Some(i) => (&str[..i], format!("/{}", &str[i..])),
+                    None => (str, "/".to_string()),
                 };
                 let (host, port) = if let Some(j) = host.find(':') {
                     (&host[..j], host[j + 1..].parse::<u16>().ok())
                 } else {
                     (host, None)
                 };
-                (host.to_string(), port, path.to_string())
+                (host.to_string(), port, path)
             }
             None => ("localhost".to_string(), None, "/".to_string()),
         };
-- 
2.43.0


From afa78032d29c560c1f0f84c6335a36a4fd4432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 10/43] fix: record the port of a request url

---
 lib/src/http/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 47a1eee..9eeb63a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -60,7 +60,10 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => write!(f, "{}://{}{}", self.scheme, self.host, self.path),
+            _ => write!(f, "{}://{}:{}{}", self.scheme, self.host, self.port, self.path),
+        }
     }
 }
 
-- 
2.43.0


From ba3bd71c7aacf8a493c697889fe71603ad6518ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 11/43] fix: keep every word of the response reason

---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..96a6ec8 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,7 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From bf1be5735baf6f1f559d6d72f8b9683b04831f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 12/43] fix: keep a response whose bytes are not all utf-8

---
 lib/src/http/response.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 96a6ec8..68e4f83 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -32,8 +32,7 @@ impl Response {
         if let Some(mut f) = f {
             f()
         }
-        let mut line = String::from_utf8(buf).unwrap_or_default();
-        reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+        let line = read_line(&mut reader)?;
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
@@ -41,8 +40,7 @@ impl Response {
         // headers
         let mut headers = Headers::default();
         loop {
-            let mut line = String::new();
-            reader.read_line(&mut line).map_err(Error::ReadFailed)?;
+            let line = read_line(&mut reader)?;
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
@@ -52,8 +50,9 @@ impl Response {
                 });
             }
         }
-        let mut body = String::default();
-        reader.read_to_string(&mut body).map_err(Error::ReadFailed)?;
+        let mut body = Vec::new();
+        reader.read_to_end(&mut body).map_err(Error::ReadFailed)?;
+        let body = String::from_utf8_lossy(&body).into_owned();
         Ok(Response {
             version,
             status,
@@ -88,6 +87,13 @@ impl Response {
     }
 }
 
+/// Reads a line, whatever bytes it has.
+fn read_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
+    let mut line = Vec::new();
+    reader.read_until(b'\n', &mut line).map_err(Error::ReadFailed)?;
+    Ok(String::from_utf8_lossy(&line).into_owned())
+}
+
 fn parse<T: std::str::FromStr + std::default::Default>(str: Option<&str>) -> T {
     match str {
         Some(str) => str.parse::<T>().unwrap_or_default(),
-- 
2.43.0


From 3363090f64ba70040364f80d7406e2a75e580cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 13/43] fix: an empty or malformed response is an error

---
 lib/src/http/error.rs    | 1 +
 lib/src/http/response.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/error.rs b/lib/src/http/error.rs
index 2f38076..b384be5 100644
--- a/lib/src/http/error.rs
+++ b/lib/src/http/error.rs
@@ -33,5 +33,6 @@ http_error! {
     NoConnectionAvailable => "no connection available",
     TlsHandshakeFailed => "tls handshake failed",
     WriteFlushFailed => "write flush failed",
+    InvalidResponse => "invalid response",
     SetReadTimeoutFailed => "set read timeout failed",
 }
diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 68e4f83..17447f9 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -35,7 +35,10 @@ impl Response {
         let line = read_line(&mut reader)?;
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
-        let status = parse::<u16>(splits.next());
+        let status = match splits.next().map(str::parse::<u16>) {
+            Some(Ok(status)) => status,
+            _ => return Err(Error::InvalidResponse),
+        };
         let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
-- 
2.43.0


From 1d958a9fd493683307ed0a87f8eba9a507475f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 14/43] fix: a request that got no response does not pass

---
 lib/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/context.rs b/lib/src/context.rs
index 7059e40..4833d9a 100644
--- a/lib/src/context.rs
+++ b/lib/src/context.rs
@@ -101,7 +101,7 @@ impl Display for Assert {
 impl Display for Record {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         writeln!(f, "=== TEST  {}", self.name)?;
-        let mut flag = true;
+        let mut flag = self.error.is_empty();
         for assert in self.asserts.iter() {
             flag &= assert.result;
             writeln!(
-- 
2.43.0


From 5e3a6408970d9102771beabb018be47db03fab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 15/43] fix: decode chunked response bodies

---
 lib/src/http/response.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 17447f9..7daeef1 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -42,11 +42,15 @@ impl Response {
         let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
+        let mut chunked = false;
         loop {
             let line = read_line(&mut reader)?;
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
+                if name.trim().eq_ignore_ascii_case("transfer-encoding") {
+                    chunked = value.trim().to_ascii_lowercase().ends_with("chunked");
+                }
                 headers.insert(Header {
                     name: name.trim().to_string(),
                     value: value.trim().to_string(),
@@ -54,7 +58,10 @@ impl Response {
             }
         }
         let mut body = Vec::new();
-        reader.read_to_end(&mut body).map_err(Error::ReadFailed)?;
+        match chunked {
+            true => read_chunks(&mut reader, &mut body)?,
+            false => reader.read_to_end(&mut body).map_err(Error::ReadFailed).map(|_| ())?,
+        }
         let body = String::from_utf8_lossy(&body).into_owned();
         Ok(Response {
             version,
@@ -97,6 +104,25 @@ fn read_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     Ok(String::from_utf8_lossy(&line).into_owned())
 }
 
+/// Reads a chunked body up to its last chunk and trailers, or the end of the stream.
+fn read_chunks<R: BufRead>(reader: &mut R, body: &mut Vec<u8>) -> Result<(), Error> {
+    loop {
+        let line = read_line(reader)?;
+        if line.is_empty() {
+            return Ok(());
+        }
+        let size = line.split(';').next().unwrap_or_default().trim();
+        let size = u64::from_str_radix(size, 16).map_err(|_e| Error::InvalidResponse)?;
+        if size == 0 {
+            while !read_line(reader)?.trim().is_empty() {}
+            return Ok(());
+        }
+        reader.take(size).read_to_end(body).map_err(Error::ReadFailed)?;
+        // end of chunk data
+        read_line(reader)?;
+    }
+}
+
 fn parse<T: std::str::FromStr + std::default::Default>(str: Option<&str>) -> T {
     match str {
         Some(str) => str.parse::<T>().unwrap_or_default(),
-- 
2.43.0


From 67e3b3da28461906980e5e3641dd6fdceba70a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 16/43] fix: keep the line breaks of a request body

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..7506087 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -79,7 +79,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From 7c744693d75cebc096d8abec2c6ad35fc4e820be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 17/43] fix: trim form names and values like multipart ones

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 7506087..8f4d956 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From f84b95faa37d3d9dd796e08f321fc7c18233acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 18/43] fix: declare the boundary of a multipart request

---
 lib/src/http/content.rs |  9 ++-------
 lib/src/http/header.rs  |  7 +++++++
 lib/src/http/request.rs | 16 ++++++++++++----
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/src/http/content.rs b/lib/src/http/content.rs
index 8a67b98..a87f6ef 100644
--- a/lib/src/http/content.rs
+++ b/lib/src/http/content.rs
@@ -1,21 +1,16 @@
 use super::Error;
 use std::io::Write;
 
-pub enum Content<'a> {
+pub enum Content {
     Empty,
     Byte(Vec<u8>),
-    Multipart(multipart::client::lazy::PreparedFields<'a>),
 }
 
-impl Content<'_> {
+impl Content {
     pub fn write<W: Write>(&mut self, writer: &mut W) -> Result<(), Error> {
         match self {
             Content::Empty => Ok(()),
             Content::Byte(bytes) => Ok(writer.write_all(bytes).map_err(Error::WriteFailed)?),
-            Content::Multipart(ref mut prepared) => {
-                std::io::copy(prepared, writer).map_err(Error::WriteFailed)?;
-                Ok(())
-            }
         }
     }
 }
diff --git a/lib/src/http/header.rs b/lib/src/http/header.rs
index d57bbf6..8c4cbac 100644
--- a/lib/src/http/header.rs
+++ b/lib/src/http/header.rs
@@ -16,6 +16,13 @@ impl Headers {
         self.inner.push(header)
     }
 
+    /// Sets the value of the first header with this name, in any case.
+    pub fn set_value(&mut self, name: &str, value: String) {
+        if let Some(header) = self.inner.iter_mut().find(|header| header.name.eq_ignore_ascii_case(name)) {
+            header.value = value;
+        }
+    }
+
     pub fn iter(&self) -> Iter<'_, Header> {
         self.inner.iter()
     }
diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 8f4d956..83be3f5 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -6,6 +6,7 @@ use super::Method;
 use super::Url;
 use super::Version;
 use std::io::BufWriter;
+use std::io::Read;
 use std::io::Write;
 use std::path::Path;
 
@@ -73,10 +74,17 @@ impl Request {
                             body.push_str(line);
                         }
                     }
-                    match parts.prepare() {
-                        Ok(parts) => content = Content::Multipart(parts),
-                        Err(_) => content = Content::Empty,
-                    }
+                    let mut bytes = Vec::new();
+                    content = match parts.prepare() {
+                        Ok(mut parts) => match parts.read_to_end(&mut bytes) {
+                            Ok(size) if size > 0 => {
+                                headers.set_value("content-type", format!("multipart/form-data; boundary={}", parts.boundary()));
+                                Content::Byte(bytes)
+                            }
+                            _ => Content::Empty,
+                        },
+                        Err(_) => Content::Empty,
+                    };
                 }
                 _ => {
                     body = lines.collect::<Vec<&str>>().join("\n");
-- 
2.43.0


From a8ba84a29703f1bfcdbf9afcd9b4dc324a1bf7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 19/43] fix: send the length of a request body

---
 lib/src/http/request.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 83be3f5..26de425 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -95,6 +95,17 @@ impl Request {
                     }
                 }
             }
+            if let Content::Byte(bytes) = &content {
+                let framed = |header: &Header| {
+                    header.name.eq_ignore_ascii_case("content-length") || header.name.eq_ignore_ascii_case("transfer-encoding")
+                };
+                if !headers.iter().any(framed) {
+                    headers.insert(Header {
+                        name: "Content-Length".to_string(),
+                        value: bytes.len().to_string(),
+                    });
+                }
+            }
             (
                 Request {
                     method,
-- 
2.43.0


From 39a1b30c8160314954437b535eb436f3335712f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 20/43] fix: negative numbers in a json response are not null

---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..70af266 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
+                Value::Integer(integer) => Value::Integer(-integer),
+                Value::Float(float) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From 0654b8c2445e36cf0d6d63ba14ba584d5187a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 21/43] fix: read numbers with an exponent, as json responses
 have

---
 lib/src/lexer.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/lexer.rs b/lib/src/lexer.rs
index ce346a7..6256eee 100644
--- a/lib/src/lexer.rs
+++ b/lib/src/lexer.rs
@@ -125,6 +125,20 @@ pub fn segment(text: &str) -> Vec<Token> {
                             break;
                         }
                     }
+                    // exponent, only when it has digits
+                    if let Some('e' | 'E') = chars.peek() {
+                        let mut ahead = chars.clone();
+                        let mut exponent = String::from_iter(ahead.next());
+                        exponent.extend(ahead.next_if(|peek| matches!(peek, '+' | '-')));
+                        if let Some('0'..='9') = ahead.peek() {
+                            while let Some(digit) = ahead.next_if(char::is_ascii_digit) {
+                                exponent.push(digit);
+                            }
+                            string.push_str(&exponent);
+                            chars = ahead;
+                            has_dot = true;
+                        }
+                    }
                     if has_dot {
                         (Kind::Float, string)
                     } else {
-- 
2.43.0


From b6206f44796a201e80b3dc61a5155fcf14459b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 22/43] fix: run the whole number of iterations when threads do
 not divide it

---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..64ff0f7 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -82,8 +82,9 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        // the first threads share the remainder
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
-- 
2.43.0


From 444b33f021fe71151e4f1a66bbf4e43b88430883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 23/43] fix: refuse zero threads instead of panicking

---
 cmd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..706fc65 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -23,7 +23,7 @@ enum Commands {
         #[command()]
         name: Option<String>,
         /// Threads
-        #[arg(short, long, default_value_t = 1)]
+        #[arg(short, long, default_value_t = 1, value_parser = clap::value_parser!(u32).range(1..))]
         threads: u32,
         /// Duration
         #[arg(short, long, value_parser = parse_duration)]
-- 
2.43.0


From dd8d0d3851dda54b340f0ca06c8c55a6ce0f6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 24/43] fix: refuse a duration that overflows instead of
 panicking

---
 cmd/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 706fc65..8181946 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -77,12 +77,15 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
         Ok(value) => value,
         Err(_) => return Err(format!("Invalid number: {}", chars.as_str())),
     };
-    let duration = match last {
-        Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+    let seconds = match last {
+        Some('s') => Some(value),
+        Some('m') => value.checked_mul(60),
+        Some('h') => value.checked_mul(3600),
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-    Ok(duration)
+    match seconds {
+        Some(seconds) => Ok(Duration::from_secs(seconds)),
+        None => Err(format!("Duration too long: {}", s)),
+    }
 }
-- 
2.43.0


From c0dc4cc64ccff24a88b40b8e7e68e743250fe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 25/43] fix: the repl ends at the end of its input

---
 cmd/src/command.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 64ff0f7..5aa73ab 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -17,14 +17,19 @@ pub fn repl() {
     let mut lines = stdin().lock().lines();
     let mut context = Context::new();
     loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
-            }
-            if text.trim().is_empty() {
-                continue;
+        match lines.next() {
+            Some(Ok(text)) => {
+                if text == "exit" {
+                    break;
+                }
+                if text.trim().is_empty() {
+                    continue;
+                }
+                context = eval(text, Some(context));
             }
-            context = eval(text, Some(context));
+            Some(Err(error)) if error.kind() == std::io::ErrorKind::InvalidData => continue,
+            // end of input
+            _ => break,
         }
     }
 }
-- 
2.43.0


From ccf689c81be20dc4ac95a80f685f3c756138ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 26/43] fix: keep the files of a suite apart when joining them

---
 cmd/src/command.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 5aa73ab..35665fb 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -182,7 +182,9 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        // keep the last token of a file apart from the first of the next
+        text.push('\n');
     }
     Ok(())
 }
-- 
2.43.0


From dc90eb5a2a4f8ffee9c5911e711501a419eae5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 27/43] fix: report the requests made before a test fails to
 evaluate

---
 cmd/src/command.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 35665fb..7c3df9d 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -99,12 +99,9 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
+                                let result = eval_block(test.as_ref(), &mut context);
+                                if let Err(error) = &result {
+                                    println!("{}", error);
                                 }
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
@@ -112,6 +109,9 @@ pub fn test(
                                     writer.write(&records, &name, thread, number)
                                 }
                                 stat.then(|| sender.send(records));
+                                if result.is_err() {
+                                    break;
+                                }
                                 number += 1;
                             }
                         }));
-- 
2.43.0


From 87c76b77e6bafc02cf309850106d4f5ab32c86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 28/43] fix: print the statistics of all tests too

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 7c3df9d..ffbec28 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -131,6 +131,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -145,6 +146,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From 525e0ffbae593034981a08f2d6577b2a09af2cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 29/43] fix: a scheme in upper case does not downgrade https to
 http

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 9eeb63a..5b76c33 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -10,7 +10,7 @@ pub struct Url {
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
         let mut splits = str.splitn(2, "://");
-        let scheme = Scheme::from(splits.next());
+        let scheme = Scheme::from(splits.next().map(str::to_ascii_lowercase).as_deref());
         let (host, port, path) = match splits.next() {
             Some(str) => {
                 let (host, path) = match str.find(['/', '?', '#']) {
-- 
2.43.0


From 77360fc655dadac0fd799ff0b5c87fcf3e74c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 30/43] fix: a response body with nested maps as map keys
 exhausts memory

---
 lib/src/syntax.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 70af266..edb0755 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -39,12 +39,16 @@ impl Expr {
             Expr::Boolean(boolean) => Value::Boolean(*boolean),
             Expr::String(string) => Value::String(string.clone()),
             Expr::Array(items) => Value::Array(items.iter().map(|e| e.eval()).collect::<Vec<Value>>()),
-            Expr::Map(pairs) => Value::Map(
-                pairs
-                    .iter()
-                    .map(|(k, v)| (k.eval().to_string(), v.eval()))
-                    .collect::<HashMap<String, Value>>(),
-            ),
+            // the text of a nested map or array doubles in size with every level it is a key of
+            Expr::Map(pairs) => match pairs.iter().any(|(k, _)| matches!(k, Expr::Map(_) | Expr::Array(_))) {
+                true => Value::Null,
+                false => Value::Map(
+                    pairs
+                        .iter()
+                        .map(|(k, v)| (k.eval().to_string(), v.eval()))
+                        .collect::<HashMap<String, Value>>(),
+                ),
+            },
             Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
                 Value::Integer(integer) => Value::Integer(-integer),
                 Value::Float(float) => Value::Float(-float),
-- 
2.43.0


From f3d51689b48833ae160b0528a896480c969303f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 31/43] fix: the fragment of a URL is sent in the request line

---
 lib/src/http/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 26de425..f545ef9 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -123,7 +123,9 @@ impl Request {
 
     pub fn write<W: Write>(&mut self, writer: W, mut content: Content) -> Result<(), Error> {
         let mut writer = BufWriter::new(writer);
-        write!(writer, "{} {} {}\r\n", self.method, self.url.path, self.version).map_err(Error::WriteFailed)?;
+        // the fragment is not part of the request target
+        let target = self.url.path.split('#').next().unwrap_or_default();
+        write!(writer, "{} {} {}\r\n", self.method, target, self.version).map_err(Error::WriteFailed)?;
         for header in self.headers.iter() {
             write!(writer, "{}: {}\r\n", header.name, header.value).map_err(Error::WriteFailed)?;
         }
-- 
2.43.0


From 030c36081374c0c1549b8c2f079ee6b264ec11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 32/43] fix: a connection closed inside the response head is
 taken for a response

---
 lib/src/http/response.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 7daeef1..6f5209c 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -32,7 +32,7 @@ impl Response {
         if let Some(mut f) = f {
             f()
         }
-        let line = read_line(&mut reader)?;
+        let line = read_head_line(&mut reader)?;
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = match splits.next().map(str::parse::<u16>) {
@@ -44,7 +44,7 @@ impl Response {
         let mut headers = Headers::default();
         let mut chunked = false;
         loop {
-            let line = read_line(&mut reader)?;
+            let line = read_head_line(&mut reader)?;
             if line.trim().is_empty() {
                 break;
             } else if let Some((name, value)) = line.split_once(':') {
@@ -104,6 +104,15 @@ fn read_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     Ok(String::from_utf8_lossy(&line).into_owned())
 }
 
+/// Reads a line before the body, all of it.
+fn read_head_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
+    let line = read_line(reader)?;
+    match line.ends_with('\n') {
+        true => Ok(line),
+        false => Err(Error::InvalidResponse),
+    }
+}
+
 /// Reads a chunked body up to its last chunk and trailers, or the end of the stream.
 fn read_chunks<R: BufRead>(reader: &mut R, body: &mut Vec<u8>) -> Result<(), Error> {
     loop {
-- 
2.43.0


From 7591bc71f4e65e0a9c3e89ff9f211f1581ece8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 33/43] fix: a line that does not start with HTTP/ is taken for
 a response

---
 lib/src/http/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 6f5209c..f924ebb 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -35,6 +35,9 @@ impl Response {
         let line = read_head_line(&mut reader)?;
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
+        if !version.starts_with("HTTP/") {
+            return Err(Error::InvalidResponse);
+        }
         let status = match splits.next().map(str::parse::<u16>) {
             Some(Ok(status)) => status,
             _ => return Err(Error::InvalidResponse),
-- 
2.43.0


From c19932727ef751c4f918d0db482f31bbbd232db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:03 +0000
Subject: [PATCH 34/43] fix: blanks inside a reason phrase are collapsed

---
 lib/src/http/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index f924ebb..2e94b54 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -33,7 +33,7 @@ impl Response {
             f()
         }
         let line = read_head_line(&mut reader)?;
-        let mut splits = line.split_whitespace();
+        let mut splits = line.trim().splitn(3, ' ');
         let version = parse::<String>(splits.next());
         if !version.starts_with("HTTP/") {
             return Err(Error::InvalidResponse);
@@ -42,7 +42,7 @@ impl Response {
             Some(Ok(status)) => status,
             _ => return Err(Error::InvalidResponse),
         };
-        let reason = splits.collect::<Vec<&str>>().join(" ");
+        let reason = parse::<String>(splits.next());
         // headers
         let mut headers = Headers::default();
         let mut chunked = false;
-- 
2.43.0


From 7deb7dd4df45ab14b3a8d21f89a61dcf0e9b0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 35/43] fix: a status that does not have three digits is taken
 for a response

---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e94b54..beaf0f6 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -39,7 +39,7 @@ impl Response {
             return Err(Error::InvalidResponse);
         }
         let status = match splits.next().map(str::parse::<u16>) {
-            Some(Ok(status)) => status,
+            Some(Ok(status)) if (100..1000).contains(&status) => status,
             _ => return Err(Error::InvalidResponse),
         };
         let reason = parse::<String>(splits.next());
-- 
2.43.0


From c9901cbadce34ce1cbbe75116c52ff9779d47816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 36/43] fix: the smallest integer cannot be written

---
 lib/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index 2961a6a..9555edb 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -232,6 +232,11 @@ impl Parser {
             precedence += 2;
         });
         self.next_token();
+        // the smallest integer has no positive counterpart
+        let operand = self.current_token();
+        if token.kind == Kind::Sub && operand.kind == Kind::Integer && operand.literal.parse() == Ok(i64::MIN.unsigned_abs()) {
+            return Ok(Expr::Integer(i64::MIN));
+        }
         let right = self.parse_expr(precedence)?;
         Ok(Expr::Unary(token, Box::new(right)))
     }
-- 
2.43.0


From 9e4bc5db03a02a9078a426fc09c3947f1d48145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 37/43] fix: a chunked body cut off by the end of the
 connection is taken for a complete one

---
 lib/src/http/response.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index beaf0f6..824f044 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -107,7 +107,7 @@ fn read_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     Ok(String::from_utf8_lossy(&line).into_owned())
 }
 
-/// Reads a line before the body, all of it.
+/// Reads a line that does not end the response, all of it.
 fn read_head_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     let line = read_line(reader)?;
     match line.ends_with('\n') {
@@ -116,13 +116,13 @@ fn read_head_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     }
 }
 
-/// Reads a chunked body up to its last chunk and trailers, or the end of the stream.
+/// Reads a chunked body up to its last chunk and trailers; there may be no body at all, as for HEAD.
 fn read_chunks<R: BufRead>(reader: &mut R, body: &mut Vec<u8>) -> Result<(), Error> {
+    if reader.fill_buf().map_err(Error::ReadFailed)?.is_empty() {
+        return Ok(());
+    }
     loop {
-        let line = read_line(reader)?;
-        if line.is_empty() {
-            return Ok(());
-        }
+        let line = read_head_line(reader)?;
         let size = line.split(';').next().unwrap_or_default().trim();
         let size = u64::from_str_radix(size, 16).map_err(|_e| Error::InvalidResponse)?;
         if size == 0 {
-- 
2.43.0


From 8a0fd87d3d632373f8dfd1b0e2410a334468d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 38/43] fix: an unreadable suite file or record directory makes
 the command panic

---
 cmd/src/command.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index ffbec28..1f311aa 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -60,7 +60,7 @@ pub fn test(
     record: Option<PathBuf>,
     stat: bool,
 ) {
-    let text = read_to_string(path.unwrap_or(std::env::current_dir().unwrap()));
+    let text = read_to_string(path.unwrap_or(PathBuf::from(".")));
     let mut context = Context::new();
     let mut tests = match Parser::new(&text).parse() {
         Ok(Source { exprs, requests, tests }) => {
@@ -170,7 +170,10 @@ pub fn test(
 
 fn read_to_string(path: PathBuf) -> String {
     let mut text = String::new();
-    read(path, &mut text).expect("Could not read source file");
+    if let Err(error) = read(path, &mut text) {
+        eprintln!("Could not read source file: {}", error);
+        std::process::exit(1);
+    }
     text
 }
 
@@ -196,7 +199,10 @@ fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<File>> {
         let file = path.join(format!("{}{:06}", std::env::var("POD").unwrap_or_default(), thread));
         let display = file.display();
         let file = match File::create(&file) {
-            Err(error) => panic!("Create file {} error: {:?}", display, error),
+            Err(error) => {
+                eprintln!("Create file {} error: {}", display, error);
+                std::process::exit(1);
+            }
             Ok(file) => file,
         };
         Writer::new(file)
-- 
2.43.0


From 9af9c432d96665c17a4dac99bb2e0a95c4a7c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 39/43] fix: a body negating the smallest integer makes the
 request panic

---
 lib/src/syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index edb0755..781c792 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -50,7 +50,7 @@ impl Expr {
                 ),
             },
             Expr::Unary(token, right) if token.kind == Kind::Sub => match right.eval() {
-                Value::Integer(integer) => Value::Integer(-integer),
+                Value::Integer(integer) => integer.checked_neg().map_or(Value::Null, Value::Integer),
                 Value::Float(float) => Value::Float(-float),
                 _ => Value::Null,
             },
-- 
2.43.0


From eb931164784607104b5c99750f94bc1b3b927a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:30 +0000
Subject: [PATCH 40/43] fix: an interrupt while the threads are started kills
 the run

---
 cmd/src/command.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 1f311aa..098af95 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -87,6 +87,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
+                    // handle interrupt signal
+                    handle_interrupt(continuous.clone());
                     for thread in 0..threads {
                         // the first threads share the remainder
                         let maximun = number / threads + u32::from(thread < number % threads);
@@ -116,8 +118,6 @@ pub fn test(
                             }
                         }));
                     }
-                    // handle interrupt signal
-                    handle_interrupt(continuous.clone());
                     // completed after thread sleep duration
                     std::thread::spawn(move || {
                         std::thread::sleep(duration);
-- 
2.43.0


From 84c602a22348e5ce7c6e2e4a7422ed83b41ea237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 41/43] fix: a thread that cannot be started makes the command
 panic

---
 cmd/src/command.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 098af95..6ceb2e3 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -11,6 +11,7 @@ use std::path::PathBuf;
 use std::sync::atomic::AtomicBool;
 use std::sync::atomic::Ordering;
 use std::sync::Arc;
+use std::thread::JoinHandle;
 use std::time::Duration;
 
 pub fn repl() {
@@ -98,7 +99,7 @@ pub fn test(
                         let test = test.to_owned();
                         let mut writer = writer(record.as_ref(), thread);
                         let mut context = context.to_owned();
-                        handles.push(std::thread::spawn(move || {
+                        handles.push(spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
                                 let result = eval_block(test.as_ref(), &mut context);
@@ -119,7 +120,7 @@ pub fn test(
                         }));
                     }
                     // completed after thread sleep duration
-                    std::thread::spawn(move || {
+                    spawn(move || {
                         std::thread::sleep(duration);
                         continuous.store(false, Ordering::Relaxed)
                     });
@@ -134,7 +135,7 @@ pub fn test(
                 let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
-                handles.push(std::thread::spawn(move || {
+                handles.push(spawn(move || {
                     match eval_block(test.as_ref(), &mut context) {
                         Ok(_) => {}
                         Err(error) => {
@@ -151,7 +152,7 @@ pub fn test(
             }
         }
     }
-    handles.push(std::thread::spawn(move || {
+    handles.push(spawn(move || {
         stat.then(|| {
             let mut stats = Stats::default();
             for records in receiver {
@@ -209,6 +210,16 @@ fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<File>> {
     })
 }
 
+fn spawn<F: FnOnce() + Send + 'static>(run: F) -> JoinHandle<()> {
+    match std::thread::Builder::new().spawn(run) {
+        Ok(handle) => handle,
+        Err(error) => {
+            eprintln!("Start thread error: {}", error);
+            std::process::exit(1);
+        }
+    }
+}
+
 fn handle_interrupt(continuous: Arc<AtomicBool>) {
     let _ = ctrlc::set_handler(move || {
         continuous.store(false, Ordering::Relaxed);
-- 
2.43.0


From 459e56fe45d460518bd46661374aeb00ae7684b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:10 +0000
Subject: [PATCH 42/43] fix: interim responses were taken for the response of
 the request

---
 lib/src/http/response.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 824f044..d3d6dcf 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -32,7 +32,12 @@ impl Response {
         if let Some(mut f) = f {
             f()
         }
-        let line = read_head_line(&mut reader)?;
+        let mut line = read_head_line(&mut reader)?;
+        // interim responses precede the one that answers the request
+        while is_interim(&line) {
+            while !read_head_line(&mut reader)?.trim().is_empty() {}
+            line = read_head_line(&mut reader)?;
+        }
         let mut splits = line.trim().splitn(3, ' ');
         let version = parse::<String>(splits.next());
         if !version.starts_with("HTTP/") {
@@ -100,6 +105,14 @@ impl Response {
     }
 }
 
+/// Whether this is the status line of an interim response; 101 is a final one, which switches protocols.
+fn is_interim(line: &str) -> bool {
+    let mut splits = line.trim().splitn(3, ' ');
+    let version = splits.next().unwrap_or_default();
+    let status = splits.next().unwrap_or_default().parse::<u16>();
+    version.starts_with("HTTP/") && matches!(status, Ok(100 | 102..=199))
+}
+
 /// Reads a line, whatever bytes it has.
 fn read_line<R: BufRead>(reader: &mut R) -> Result<String, Error> {
     let mut line = Vec::new();
-- 
2.43.0


From 0f04367cca98011c97e1a6fa215e7be838914dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:43 +0000
Subject: [PATCH 43/43] fix: values nested by statement upon statement exhaust
 the stack

---
 lib/src/evaluator.rs |  4 ++--
 lib/src/native.rs    |  2 +-
 lib/src/value.rs     | 22 ++++++++++++++++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f2f649d..d2b4248 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -46,7 +46,7 @@ fn eval_string_literal(string: &String) -> Result<Value, String> {
 }
 
 fn eval_array_literal(items: &[Expr], context: &mut Context) -> Result<Value, String> {
-    Ok(Value::Array(eval_list(items, context)?))
+    Value::Array(eval_list(items, context)?).bounded()
 }
 
 fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<Value, String> {
@@ -56,7 +56,7 @@ fn eval_map_literal(pairs: &Vec<(Expr, Expr)>, context: &mut Context) -> Result<
         let value = eval_expr(value, context)?;
         map.insert(key.to_string(), value);
     }
-    Ok(Value::Map(map))
+    Value::Map(map).bounded()
 }
 
 fn eval_index_expr(value: &Expr, index: &Expr, context: &mut Context) -> Result<Value, String> {
diff --git a/lib/src/native.rs b/lib/src/native.rs
index 5570bd1..1503db1 100644
--- a/lib/src/native.rs
+++ b/lib/src/native.rs
@@ -66,7 +66,7 @@ pub fn append(mut values: Vec<Value>) -> Result<Value, String> {
             while let Some(value) = values.pop() {
                 array.push(value);
             }
-            Ok(Value::Array(array))
+            Value::Array(array).bounded()
         }
         None => Err("function length need a parameter".to_string()),
         _ => Err("first parameter must be a array".to_string()),
diff --git a/lib/src/value.rs b/lib/src/value.rs
index dce63aa..02db534 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -24,6 +24,28 @@ pub enum Value {
     Map(HashMap<String, Value>),
 }
 
+/// The most levels of arrays and maps in a value, so that copying or displaying it cannot exhaust the stack.
+const MAX_DEPTH: usize = 512;
+
+impl Value {
+    /// The levels of arrays and maps in this value.
+    fn depth(&self) -> usize {
+        match self {
+            Value::Array(items) => 1 + items.iter().map(Value::depth).max().unwrap_or_default(),
+            Value::Map(pairs) => 1 + pairs.values().map(Value::depth).max().unwrap_or_default(),
+            _ => 0,
+        }
+    }
+
+    /// This value, unless it is nested too deep.
+    pub fn bounded(self) -> std::result::Result<Self, String> {
+        match self.depth() > MAX_DEPTH {
+            true => Err(format!("value nested deeper than {}", MAX_DEPTH)),
+            false => Ok(self),
+        }
+    }
+}
+
 impl Display for Value {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         match self {
-- 
2.43.0

