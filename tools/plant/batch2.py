BUGS=[]
def bug(id,property,needs,breaks,edits,demo,**k): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
EV='lib/src/evaluator.rs'; PA='lib/src/parser.rs'; LE='lib/src/lexer.rs'; VA='lib/src/value.rs'; NA='lib/src/native.rs'; SY='lib/src/syntax.rs'; CX='lib/src/context.rs'; WR='lib/src/writer.rs'; SA='lib/src/stat.rs'
RQ='lib/src/http/request.rs'; RS='lib/src/http/response.rs'; ST='lib/src/http/stream.rs'; CL='lib/src/http/client.rs'; UR='lib/src/http/url.rs'; HD='lib/src/http/header.rs'; TI='lib/src/http/time.rs'
CM='cmd/src/command.rs'; MA='cmd/src/main.rs'

bug('b-error-excerpt','L01','a template or string of more than 24 bytes, with a character of several bytes across byte 24, where no expression may stand',
 'the error message quotes the first 24 bytes of the offending token, which panics inside a character',
 [(PA,"""            _ => Err(format!("parse expr error: {}", self.current_token()))?,""","""            _ => {
                // long tokens are shortened
                let literal = &self.current_token().literal;
                Err(format!("parse expr error: {}", &literal[..literal.len().min(24)]))?
            }""")],
 '''
rc, out, err = run("eval", "1; `GET http://example.org/ caf\\u00e9\\u00e9\\u00e9 `")
check(rc == 0 and "panicked" not in err, err)
rc, out, err = run("eval", "1; `" + "\\u00e9" * 40 + "`")
check("panicked" not in err, err)
rc, out, err = run("eval", "1; `a" + "\\u00e9" * 40 + "`")
check("panicked" not in err, err)
''')
bug('b-json-depth-array','L01','a response body of very many nested arrays',
 'brackets are parsed without the depth limit, so a body of many [ exhausts the stack of the client',
 [(PA,"""            Kind::Ls => self.parse_array_literal()?,""","""            Kind::Ls => {
                // a bracket is not an expression level of its own
                (self.depth, self.deepest) = (self.depth.saturating_sub(1), self.deepest.saturating_sub(1));
                self.parse_array_literal()?
            }""")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nConnection: close\\r\\n\\r\\n" + b"[" * 200000)
rc, out, err = suite("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url)
check(rc == 0 and "PASS" in out, rc, out, err[-300:])
''')
bug('b-comma-missing','L02','two items of a list without a comma between them',
 'a missing comma between items is silently accepted',
 [(PA,"""            if !self.peek_token_is(end) {
                self.peek_token_expect(Kind::Comma)?;
            }""","""            if self.peek_token_is(Kind::Comma) {
                self.next_token();
            }""")],
 '''
check(not ev("[1 2]").startswith("["), ev("[1 2]"))
check(ev("[1, 2,]").startswith("["))
''')
bug('b-paren-let','L02','a let inside an expression, followed by an operator',
 'the value bound by a let ends at the first operator of the right hand side when it is || or &&',
 [(PA,"""        self.next_token();
        let value = self.parse_expr(u8::MIN)?;
        if self.peek_token_is(Kind::Semi) {
            self.next_token();
        }
        Ok(Expr::Let""","""        self.next_token();
        // a let binds like the operators || and &&
        let value = self.parse_expr(2)?;
        if self.peek_token_is(Kind::Semi) {
            self.next_token();
        }
        Ok(Expr::Let""")],
 '''
check(ev("let x = false || 7; x").strip() == "7", ev("let x = false || 7; x"))
''')
bug('b-and-or-equal','L02','|| and && together without brackets, the && on the right of an ||',
 '&& and || have the same level, so a || b && c groups to the left',
 [('lib/src/token.rs',"            Kind::La => 2,   // a && b","            Kind::La => 1,   // a && b")],
 '''
check(ev("1 || 2 && 3").strip() == "1", ev("1 || 2 && 3"))
check(ev("false || 2 && 3").strip() == "3")
''')
bug('b-float-int-eq','L03','== of an integer and a float with the same value',
 '== coerces an integer to a float, so 1 == 1.0 holds while every other comparison of unlike types stays as it was',
 [(EV,"        Kind::Eq => Ok(Value::Boolean(eval_expr(left, context)? == eval_expr(right, context)?)),","""        Kind::Eq => Ok(Value::Boolean(match (eval_expr(left, context)?, eval_expr(right, context)?) {
            (Value::Integer(left), Value::Float(right)) => left as f64 == right,
            (left, right) => left == right,
        })),""")],
 '''
check(ev("1 == 1.0").strip() == "false", ev("1 == 1.0"))
check(ev("1 == 1").strip() == "true")
''')
bug('b-le-not-gt','L03','<= between values that have no order: unlike types, or not a number',
 'a <= b is computed as not a > b, which holds for values without an order',
 [(EV,"        Kind::Le => Ok(Value::Boolean(eval_expr(left, context)? <= eval_expr(right, context)?)),","        Kind::Le => Ok(Value::Boolean(!(eval_expr(left, context)? > eval_expr(right, context)?))),")],
 '''
check(ev('1 <= "a"').strip() == "false", ev('1 <= "a"'))
check(ev('1 <= 1').strip() == "true")
check(ev('2 <= 1').strip() == "false")
''')
bug('b-or-truthy','L03','|| whose left operand is the integer 0',
 '0 counts as false for || only',
 [(EV,"            Value::Boolean(false) | Value::Null => eval_expr(right, context),","            Value::Boolean(false) | Value::Null | Value::Integer(0) => eval_expr(right, context),")],
 '''
check(ev('0 || 5').strip() == "0", ev('0 || 5'))
''')
bug('b-index-negative','L04','an array index below zero',
 'negative indexes count from the end instead of giving null',
 [(EV,"            let index = index as usize;\n","            let index = if index < 0 { index.wrapping_add(items.len() as i64) } else { index } as usize;\n")],
 '''
check(ev('[1, 2][-1]').strip() == "null", ev('[1, 2][-1]'))
check(ev('[1, 2][1]').strip() == "2")
''')
bug('b-map-value-first','L04','a map literal whose key and value both bind or print something',
 'the value of a map entry is evaluated before its key',
 [(EV,"""        let key = eval_expr(key, context)?;
        let value = eval_expr(value, context)?;
        map.insert""","""        let value = eval_expr(value, context)?;
        let key = eval_expr(key, context)?;
        map.insert""")],
 '''
check(ev('let m = {(let k = "a"): k}; m["a"]').strip() == "a", ev('let m = {(let k = "a"): k}; m["a"]'))
''')
bug('b-length-chars','L05','the length of a string with characters outside ASCII',
 'length counts characters instead of bytes',
 [(NA,"Value::String(string) => Ok(Value::Integer(string.len() as i64)),","Value::String(string) => Ok(Value::Integer(string.chars().count() as i64)),")],
 '''
check(ev('length("\\u00e9")').strip() == "2", ev('length("\\u00e9")'))
''')
bug('b-format-more-arguments','L05','format with more arguments than placeholders',
 'surplus arguments of format are accepted, and the wrong ones used',
 [(NA,"            if variables.len() != ranges.len() {","            if variables.len() < ranges.len() {")],
 '''
check("wrong" in ev('format("{a}", 1, 2)'), ev('format("{a}", 1, 2)'))
''')
bug('b-append-flatten','L05','append whose only further argument is an array',
 'an array appended as the only argument is concatenated instead of added as one item',
 [(NA,"""            while let Some(value) = values.pop() {
                array.push(value);
            }""","""            if let [Value::Array(items)] = values.as_mut_slice() {
                array.append(items);
                return Ok(Value::Array(array));
            }
            while let Some(value) = values.pop() {
                array.push(value);
            }""")],
 '''
check(ev('length(append([1], [2, 3]))').strip() == "2", ev('length(append([1], [2, 3]))'))
''')
bug('b-fill-shift','H01','two placeholders, the first filled with text outside ASCII',
 'placeholders are filled from the front with an offset counted in characters, so text after a value outside ASCII is damaged',
 [(EV,"""            ranges.reverse();
            let mut message = message.to_string();
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                message.replace_range(range, variable.as_str());
            }""","""            let mut message = message.to_string();
            let mut shift = 0isize;
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                let mut start = (range.start as isize + shift) as usize;
                while !message.is_char_boundary(start) {
                    start += 1;
                }
                let mut end = start + range.len();
                while !message.is_char_boundary(end) {
                    end += 1;
                }
                shift += variable.chars().count() as isize - range.len() as isize;
                message.replace_range(start..end, variable.as_str());
            }""")],
 '''
s = Server()
rc, out, err = suite("let a = \\"\\u00e9\\u00e9\\" let b = \\"x\\" request r `POST %s/\\nHost: x\\n\\n{a}-{b}-end`\\ntest t { r() }" % s.url)
check(body(s.requests[0]).decode() == "\\u00e9\\u00e9-x-end", s.requests, err)
''')
bug('b-fill-cache','H01','a request defined a second time under its name in one session, or in two lines, with another template',
 'the places of the placeholders are kept per request name, so a request that is defined again is filled at the places of the first definition',
 [(EV,"""            matches.for_each(|m| ranges.push((m.as_str()[1..m.as_str().len() - 1].trim(), m.range())));
            ranges.reverse();""","""            // they are found once per request
            thread_local! {
                static FOUND: std::cell::RefCell<HashMap<String, usize>> = Default::default();
            }
            let found = FOUND.with(|found| *found.borrow_mut().entry(name.clone()).or_insert_with(|| matches.count()));
            let matches = regex.find_iter(message).take(found);
            matches.for_each(|m| ranges.push((m.as_str()[1..m.as_str().len() - 1].trim(), m.range())));
            ranges.reverse();""")],
 '''
s = Server()
lines = "let v = 7\\nrequest r `GET %s/a`[status == 200]\\nr()\\nrequest r `GET %s/b/{v}`[status == 200]\\nr()\\nexit\\n" % (s.url, s.url)
rc, out, err = run(input=lines.encode())
check(len(s.requests) == 2 and s.requests[1].startswith(b"GET /b/7 "), s.requests)
''')
bug('b-fill-missing-last','H01','a placeholder with a name in capitals and no such variable',
 'a placeholder without a variable whose name is in capitals is sent as it is instead of null',
 [(EV,"""                    None => Value::Null.to_string(),
                };
                message.replace_range""","""                    // constants of the server's own template language
                    None if variable.chars().all(|c| c.is_ascii_uppercase() || c == '_') => continue,
                    None => Value::Null.to_string(),
                };
                message.replace_range""")],
 '''
s = Server()
suite("request r `GET %s/{ID}/{id}`\\ntest t { r() }" % s.url)
check(s.requests[0].startswith(b"GET /null/null "), s.requests)
''')
bug('b-header-colon-blank','H02','a header line without a blank after the colon',
 'a header is split at colon and blank, so a line without the blank is dropped',
 [(RQ,"""                } else if let Some((name, value)) = line.trim().split_once(':') {
                    headers.insert(Header {""","""                } else if let Some((name, value)) = line.trim().split_once(": ").or_else(|| line.trim().split_once(":\\t")).or_else(|| line.trim().strip_suffix(':').map(|name| (name, ""))) {
                    headers.insert(Header {""")],
 '''
s = Server()
suite("request r `GET %s/\\nHost: x\\nX-A:1\\nX-B:`\\ntest t { r() }" % s.url)
check(b"X-A: 1" in s.requests[0] and b"X-B:" in s.requests[0], s.requests)
''')
bug('b-body-first-blank','H02','a body whose first line is empty or blank',
 'blank lines at the start of a body are skipped',
 [(RQ,"""                    body = lines.collect::<Vec<&str>>().join("\\n");""","""                    body = lines.skip_while(|line| line.trim().is_empty()).collect::<Vec<&str>>().join("\\n");""")],
 '''
s = Server()
suite("request r `POST %s/\\nHost: x\\n\\n\\n\\nabc`\\ntest t { r() }" % s.url)
check(body(s.requests[0]) == b"\\n\\nabc", s.requests)
''')
bug('b-version-case','H02','HTTP/1.0 in the first line of a template',
 'HTTP/1.0 requests are sent as HTTP/1.1',
 [(RQ,"            let version = Version::from(splits.next());","            let version = splits.next().filter(|version| !version.ends_with(\"/1.0\")).map_or(Version::default(), |version| Version::from(Some(version)));")],
 '''
s = Server()
suite("request r `GET %s/ HTTP/1.0\\nHost: x`\\ntest t { r() }" % s.url)
check(s.requests[0].startswith(b"GET / HTTP/1.0\\r\\n"), s.requests)
''')
bug('b-multipart-large','H03','a multipart body of more than 1 MiB',
 'multipart bodies are cut at 1 MiB',
 [(RQ,"                        Ok(mut parts) => match parts.read_to_end(&mut bytes) {","                        Ok(mut parts) => match (&mut parts).take(1 << 20).read_to_end(&mut bytes) {")],
 '''
open(DIR+"/big","wb").write(bytes(range(256)) * 6000)
s = Server()
suite("request r `POST %s/\\nHost: x\\nContent-Type: multipart/form-data\\n\\nf: @%s/big`\\ntest t { r() }" % (s.url, DIR))
check(bytes(range(256)) * 6000 in s.requests[0], len(s.requests[0]))
''')
bug('b-form-comment','H03','a form field whose name starts with #',
 'form lines that start with # are taken for comments',
 [(RQ,"""                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            serializer.append_pair""","""                    for line in lines.by_ref().filter(|line| !line.starts_with('#')) {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            serializer.append_pair""")],
 '''
s = Server()
suite("request r `POST %s/\\nHost: x\\nContent-Type: application/x-www-form-urlencoded\\n\\n#a: 1\\nb: 2`\\ntest t { r() }" % s.url)
check(body(s.requests[0]) == b"%23a=1&b=2", s.requests)
''')
bug('b-multipart-quote-trim','H03','a multipart text value between quotation marks',
 'quotation marks around a text value of a part are taken off',
 [(RQ,"                                parts.add_text(name, value);","                                parts.add_text(name, value.strip_prefix('\"').and_then(|value| value.strip_suffix('\"')).unwrap_or(value));")],
 '''
s = Server()
suite("request r `POST %s/\\nHost: x\\nContent-Type: multipart/form-data\\n\\nf: \\"a b\\"`\\ntest t { r() }" % s.url)
check(b'"a b"' in s.requests[0], s.requests)
''')
bug('b-host-dot','H04','a host name that ends with a dot',
 'the dot at the end of an absolute host name is dropped, so another name is looked up and recorded',
 [(UR,"                (host.to_string(), port, path)","                (host.trim_end_matches('.').to_string(), port, path)")],
 '''
suite("request r `GET http://nowhere.invalid.:81/p`\\ntest t { r() }", "-r", DIR)
row = decode(DIR+"/000000")[0]
check(row["request_url"] == "http://nowhere.invalid.:81/p", row["request_url"])
''')
bug('b-port-octets','H04','a port written with leading zeros, in more than five digits',
 'ports with leading zeros are taken for missing, so the default port is used',
 [(UR,"                    (&host[..j], host[j + 1..].parse::<u16>().ok())","                    (&host[..j], Some(&host[j + 1..]).filter(|port| port.len() <= 5).and_then(|port| port.parse::<u16>().ok()))")],
 '''
s = Server()
rc, out, err = suite("request r `GET http://127.0.0.1:0%05d/`[status == 200]\\ntest t { r() }" % s.port)
check("PASS" in out and s.requests, out)
''')
bug('b-fragment-first','H04','a URL whose query contains a question mark',
 'a second question mark in the query cuts the request target',
 [(RQ,"        write!(writer, \"{} {} {}\\r\\n\", self.method, target, self.version).map_err(Error::WriteFailed)?;","""        let mut parts = target.splitn(3, '?');
        let target = match (parts.next(), parts.next()) {
            (Some(path), Some(query)) => format!("{}?{}", path, query),
            _ => target.to_string(),
        };
        write!(writer, "{} {} {}\\r\\n", self.method, target, self.version).map_err(Error::WriteFailed)?;""")],
 '''
s = Server()
suite("request r `GET %s/a?b=c?d\\nHost: x`\\ntest t { r() }" % s.url)
check(s.requests[0].startswith(b"GET /a?b=c?d HTTP/1.1"), s.requests)
''')
bug('b-header-values-dedupe','H05','a response with the same header twice with the same value',
 'equal values of a repeated header are shown to assertions once only',
 [(RS,"                Some(Value::Array(array)) => array.push(Value::String(header.value.to_string())),","""                Some(Value::Array(array)) => {
                    let value = Value::String(header.value.to_string());
                    if !array.contains(&value) {
                        array.push(value)
                    }
                }""")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nVia: a\\r\\nVia: b\\r\\nVia: a\\r\\nContent-Length: 0\\r\\n\\r\\n")
rc, out, err = suite("request r `GET %s/`[length(headers.Via) == 3]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
bug('b-body-bom','H05','a response body that starts with a byte order mark',
 'a byte order mark at the start of the body is dropped in assertions but not in the record',
 [(RS,"        map.insert(String::from(\"body\"), Value::String(self.body.to_string()));","        map.insert(String::from(\"body\"), Value::String(self.body.trim_start_matches('\\u{feff}').to_string()));")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\n\\r\\n\\xef\\xbb\\xbfab")
rc, out, err = suite("request r `GET %s/`[length(body) == 5]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
bug('b-reason-one-word','H05','a reason phrase with several blanks in a row or at its end',
 'blanks inside the reason phrase are collapsed',
 [(RS,"        let reason = parse::<String>(splits.next());","        let reason = parse::<String>(splits.next()).split(' ').filter(|word| !word.is_empty()).collect::<Vec<&str>>().join(\" \");")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 404 Not  Found\\r\\n\\r\\n")
rc, out, err = suite("request r `GET %s/`[length(reason) == 10]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
bug('b-json-null-member','H06','a JSON object with a member that is null',
 'members that are null are left out of the json map',
 [(SY,"                        .map(|(k, v)| (k.eval().to_string(), v.eval()))","                        .map(|(k, v)| (k.eval().to_string(), v.eval()))\n                        .filter(|(_, v)| *v != Value::Null)")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\n\\r\\n{\\"a\\": null, \\"b\\": 1}")
rc, out, err = suite("request r `GET %s/`[length(json) == 2]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
bug('b-json-float-int','H06','a JSON number with an exponent or fraction above 2^53',
 'large floats are converted to integers in the json value, saturating',
 [(SY,"            Expr::Float(float) => Value::Float(*float),\n            Expr::Boolean(boolean) => Value::Boolean(*boolean),","            Expr::Float(float) if float.fract() == 0.0 && float.abs() > 9007199254740992.0 => Value::Integer(*float as i64),\n            Expr::Float(float) => Value::Float(*float),\n            Expr::Boolean(boolean) => Value::Boolean(*boolean),")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\n\\r\\n[1e300]")
rc, out, err = suite("request r `GET %s/`[json[0] == 1e300, json[0] > 9e299]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
bug('b-error-pass','H07','a request without a response whose assertions all hold for the empty response',
 'a request that got no response is reported PASS when all its assertions hold',
 [(CX,"        let mut flag = self.error.is_empty();","        let mut flag = self.error.is_empty() || !self.asserts.is_empty();")],
 '''
rc, out, err = suite("request r `GET http://127.0.0.1:1/`[status != 200]\\ntest t { r() }")
check("FAIL" in out and "PASS" not in out, out)
''')
bug('b-error-empty','H07','a connection reset inside the head of a response',
 'the error of a reset connection has no text, so the request counts as answered',
 [('lib/src/http/error.rs',"                    Error::ReadFailed(error) => error.fmt(f),","                    Error::ReadFailed(error) if error.kind() == std::io::ErrorKind::ConnectionReset => Ok(()),\n                    Error::ReadFailed(error) => error.fmt(f),")],
 '''
import struct
def reset(i, r, c):
    c.sendall(b"HTTP/1.1 200 OK\\r\\nA: ")
    time.sleep(0.2)
    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
s = Server(reset)
rc, out, err = suite("request r `GET %s/`\\ntest t { r() }" % s.url)
check("FAIL" in out, out)
''')
bug('b-tls-corrupt-eof','H08','a TLS stream that is damaged after some of the response arrived',
 'bytes that are not TLS in the middle of a response end it as if it were complete',
 [(ST,"                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {","                    Err(e) if matches!(e.kind(), std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::InvalidData) => {")],
 '''
import ssl
subprocess.run(["openssl","req","-x509","-newkey","rsa:2048","-nodes","-days","2","-subj","/CN=ca","-addext","basicConstraints=critical,CA:TRUE","-keyout",DIR+"/ca.key","-out",DIR+"/ca.pem"],check=True,capture_output=True)
subprocess.run(["openssl","req","-newkey","rsa:2048","-nodes","-subj","/CN=x","-keyout",DIR+"/k.pem","-out",DIR+"/r.csr"],check=True,capture_output=True)
open(DIR+"/e","w").write("subjectAltName=IP:127.0.0.1\\nextendedKeyUsage=serverAuth\\nbasicConstraints=CA:FALSE\\n")
subprocess.run(["openssl","x509","-req","-in",DIR+"/r.csr","-CA",DIR+"/ca.pem","-CAkey",DIR+"/ca.key","-CAcreateserial","-days","2","-extfile",DIR+"/e","-out",DIR+"/c.pem"],check=True,capture_output=True)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(DIR+"/c.pem", DIR+"/k.pem")
def half(i, r, c):
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nhalf")
    raw = socket.socket(fileno=os.dup(c.fileno()))
    raw.sendall(b"\\x17\\x03\\x03\\x00\\x40" + b"\\x00" * 64)
    time.sleep(0.3)
s = Server(half, wrap=lambda c: ctx.wrap_socket(c, server_side=True))
rc, out, err = suite("request r `GET https://127.0.0.1:%d/\\nHost: x`\\ntest t { r() }" % s.port, env={"SSL_CERT_FILE": DIR+"/ca.pem"})
check("FAIL" in out, out)
''')
bug('b-tls-port-80','H08','an https URL with port 80',
 'an https URL with port 80 is sent in clear',
 [(ST,"""        match url.scheme {
            Scheme::Http => {""","""        match url.scheme {
            // nothing speaks TLS on the port of plain HTTP
            _ if port == 80 => {
                let (stream, resolve) = Self::connect_tcp(host, port, connect_tiomeout, read_tiomeout)?;
                Ok(Stream::Plain { stream, resolve })
            }
            Scheme::Http => {""")],
 '''
s = Server(port=80, host="127.0.0.77")
rc, out, err = suite("request r `GET https://127.0.0.77:80/\\nHost: x\\nX-Secret: 1`\\ntest t { r() }")
time.sleep(0.3)
check("FAIL" in out and not any(b"Secret" in r for r in s.requests), out)
''')
SHIM='''
open(DIR+"/d.c","w").write(r"""
#define _GNU_SOURCE
#include <netdb.h>
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <arpa/inet.h>
static int one(const char*ip,struct addrinfo**r){
 struct addrinfo*a=calloc(1,sizeof*a);
 struct sockaddr_in*s=calloc(1,sizeof*s); s->sin_family=AF_INET; inet_pton(AF_INET,ip,&s->sin_addr);
 a->ai_family=AF_INET;a->ai_socktype=SOCK_STREAM;a->ai_addr=(void*)s;a->ai_addrlen=sizeof*s;*r=a;return 0;}
int getaddrinfo(const char*h,const char*s,const struct addrinfo*a,struct addrinfo**r){
 int(*f)(const char*,const char*,const struct addrinfo*,struct addrinfo**)=dlsym(RTLD_NEXT,"getaddrinfo");
 char*name=getenv("FAKE_HOST");
 if(h&&name&&!strcmp(h,name)){
  char*l=strdup(getenv("FAKE_ADDRS")); struct addrinfo**p=r; *r=0; for(char*t=strtok(l,",");t;t=strtok(0,",")){one(t,p);p=&(*p)->ai_next;} return *r?0:EAI_NONAME;}
 return f(h,s,a,r);}
void freeaddrinfo(struct addrinfo*a){ (void)a; }
static void slow(const struct sockaddr*a){
 char*l=getenv("FAKE_SLOW"); if(l&&a->sa_family==AF_INET){ char b[64]; inet_ntop(AF_INET,&((struct sockaddr_in*)a)->sin_addr,b,64);
  char*d=strdup(l); for(char*t=strtok(d,",");t;t=strtok(0,",")){ char*e=strchr(t,'='); *e=0; if(!strcmp(t,b))usleep(atoi(e+1)*1000); *e='='; } } }
int connect(int fd,const struct sockaddr*a,socklen_t n){
 int(*f)(int,const struct sockaddr*,socklen_t)=dlsym(RTLD_NEXT,"connect");
 slow(a);
 return f(fd,a,n);}
""")
subprocess.run(["gcc","-shared","-fPIC","-o",DIR+"/d.so",DIR+"/d.c","-ldl"],check=True)
'''
bug('b-race-deadline','H09','several addresses, of which the only one that accepts takes longer than a second',
 'the race waits one second at most for an answer, so an address that accepts later is given up',
 [(ST,"        for (addr, result) in receiver.iter() {","        for (addr, result) in std::iter::from_fn(|| receiver.recv_timeout(RACE * 5).ok()) {")],
 SHIM+'''
s = Server(host="127.0.0.9")
env = {"LD_PRELOAD": DIR+"/d.so", "FAKE_HOST": "many.test", "FAKE_ADDRS": "127.0.0.8,127.0.0.9", "FAKE_SLOW": "127.0.0.9=2500"}
rc, out, err = suite("request r `GET http://many.test:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, env=env)
check("PASS" in out, out, err)
''')
bug('b-race-six','H09','a host with more than four addresses of which a late one is the only one that accepts',
 'only the first four addresses of a host are tried',
 [(ST,"        for addr in rotate(a.into_iter(), b.into_iter()) {","        for addr in rotate(a.into_iter(), b.into_iter()).take(4) {")],
 SHIM+'''
s = Server(host="127.0.0.9")
env = {"LD_PRELOAD": DIR+"/d.so", "FAKE_HOST": "many.test", "FAKE_ADDRS": "127.0.0.4,127.0.0.5,127.0.0.6,127.0.0.7,127.0.0.9"}
rc, out, err = suite("request r `GET http://many.test:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, env=env)
check("PASS" in out, out, err)
''')
bug('b-delay-status-line','H10','a server that pauses inside the status line',
 'the delay ends with the status line instead of the first byte',
 [(RS,"""        if let Some(mut f) = f {
            f()
        }
        let line = read_head_line(&mut reader)?;""","""        let line = read_head_line(&mut reader)?;
        if let Some(mut f) = f {
            f()
        }""")],
 '''
def slow(i, r, c):
    c.sendall(b"HTTP/1.1"); time.sleep(0.6); c.sendall(b" 200 OK\\r\\n\\r\\n")
s = Server(slow)
suite("request r `GET %s/`\\ntest t { r() }" % s.url, "-r", DIR)
row = decode(DIR+"/000000")[0]
check(row["time_read"] >= 500000000, row)
''')
bug('b-end-early','H10','any request whose connect time is measurable',
 'end - start does not cover the connect time',
 [(CL,"        time.end = SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default();","        time.end = time.start + time.total - time.connect;")],
 '''
s = Server()
suite("request r `GET %s/`\\ntest t { r() }" % s.url, "-r", DIR)
row = decode(DIR+"/000000")[0]
check(row["time_end"] - row["time_start"] >= row["time_total"], row)
''')
bug('b-assert-le-negated','T01','an assertion with >= on values that have no order, such as a missing json field',
 'assertions with >= hold when the two sides have no order',
 [(EV,"                            Kind::Ge => Some(left >= right),","                            Kind::Ge => Some(!(left < right)),")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/`[json.size >= 10]\\ntest t { r() }" % s.url)
check("FAIL" in out, out)
''')
bug('b-assert-program','T01','a response without a JSON body, an assertion on json, and a program variable named json',
 'json in an assertion is the variable of the program when the body is not JSON',
 [(EV,"            let mut local = Context::from(map);","            let mut local = Context::from(map);\n            if let (None, Some(json)) = (local.get(\"json\"), context.get(\"json\")) {\n                local.set(\"json\".to_string(), json.to_owned());\n            }")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\n\\r\\n<x>")
rc, out, err = suite("let json = 5\\nrequest r `GET %s/`[json == 5]\\ntest t { r() }" % s.url)
check("FAIL" in out, out)
''')
bug('b-report-last','T01','a failed assertion followed by one with != that holds',
 'a failed assertion is forgotten when a later one with != holds',
 [(CX,"            flag &= assert.result;","            flag = (flag || assert.compare == \"!=\" && self.error.is_empty()) && assert.result;")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/`[status == 404, status != 500]\\ntest t { r() }" % s.url)
check("FAIL" in out, out)
''')
bug('b-writer-order-u8','T02','an iteration that sends more than 256 requests',
 'the order of records is cut to 8 bits',
 [(WR,"            encode_long(order as i64, &mut data);","            encode_long(order as u8 as i64, &mut data);")],
 '''
s = Server()
suite("request r `GET %s/\\nHost: x`\\ntest t { %s }" % (s.url, "r() " * 260), "-r", DIR)
rows = decode(DIR+"/000000")
check([r["order"] for r in rows] == list(range(260)), [r["order"] for r in rows][-6:])
''')
bug('b-writer-time-micro','T02','a name resolution that takes longer than a second',
 'the resolve time is recorded without its whole seconds',
 [(WR,"            encode_long(record.time.resolve.as_nanos() as i64, &mut data);","            encode_long(record.time.resolve.subsec_nanos() as i64, &mut data);")],
 SHIM.replace('char*name=getenv("FAKE_HOST");','char*name=getenv("FAKE_HOST"); if(h&&name&&!strcmp(h,name))usleep(1200000);')+'''
s = Server()
env = {"LD_PRELOAD": DIR+"/d.so", "FAKE_HOST": "many.test", "FAKE_ADDRS": "127.0.0.1"}
suite("request r `GET http://many.test:%d/\\nHost: x`\\ntest t { r() }" % s.port, "-r", DIR, env=env)
row = decode(DIR+"/000000")[0]
check(row["time_total"] == sum(row["time_"+k] for k in ("resolve","connect","write","delay","read")), row)
''')
bug('b-name-case','T03','a test name in another letter case than the one given',
 'a test is also found by its name in another letter case, so a test that was not asked for runs',
 [(CM,"            match tests.remove(&name) {","            let found = tests.keys().find(|test| test.eq_ignore_ascii_case(&name)).cloned().unwrap_or_default();\n            match tests.remove(&name).or_else(|| tests.remove(&found)) {")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/`\\ntest Login { r() }" % s.url, "login")
check(not s.requests, out)
''')
bug('b-stat-zero-min','T04','a sample of 0 milliseconds followed by a longer one',
 'a minimum of 0 is taken for missing and replaced by the next sample',
 [(SA,"        if millis < self.min {","        if millis < self.min || self.min == 0 {")],
 '''
def slow(i, r, c):
    if i == 1: time.sleep(0.05)
    return OK
s = Server(slow)
for attempt in range(20):
    s.n = 0
    rc, out, err = suite("request r `GET %s/\\nHost: x`\\ntest t { r() }" % s.url, "t", "-n", "2", "-s", "-r", DIR)
    times = [r["time_total"] // 1000000 for r in decode(DIR+"/000000")]
    check("min=%d" % min(times) in out, times, out)
    if times[0] == 0: break
''')
bug('b-stat-name-trim','T04','two requests whose names differ only in letter case',
 'requests whose names differ only in letter case share one statistic',
 [(SA,"        match self.stats.get_mut(name) {","        let name = self.stats.keys().find(|known| known.eq_ignore_ascii_case(name)).unwrap_or(name).to_owned();\n        let name = &name;\n        match self.stats.get_mut(name) {")],
 '''
s = Server()
rc, out, err = suite("request get `GET %s/` request GET `GET %s/`\\ntest t { get() GET() }" % (s.url, s.url), "-s")
check("GET count=1" in out and "get count=1" in out, out)
''')
bug('b-interrupt-duration','T06','an interrupt signal during a run with a duration',
 'an interrupt is only handled when no duration is given, otherwise it kills the run',
 [(CM,"                    handle_interrupt(continuous.clone());","                    if duration == Duration::MAX {\n                        handle_interrupt(continuous.clone());\n                    }")],
 '''
import signal
def slow(i, r, c):
    time.sleep(0.3); return OK
s = Server(slow)
open(DIR+"/s.fan","w").write("request r `GET %s/`\\ntest t { r() }" % s.url)
p = subprocess.Popen([BIN,"test","t","-d","20s","-p",DIR+"/s.fan"],stdout=subprocess.PIPE,stderr=subprocess.PIPE)
while len(s.requests) < 2: time.sleep(0.05)
p.send_signal(signal.SIGINT)
out, err = p.communicate(timeout=15)
check(p.returncode == 0 and out.count(b"--- PASS") == len(s.requests), p.returncode, out)
''')
bug('b-stop-mid-test','T06','a run with statistics that is stopped by its duration in a later iteration',
 'iterations that end after the stop are left out of the statistics',
 [(CM,"                                stat.then(|| sender.send(records));\n                                if result.is_err() {","                                (stat && (continuous.load(Ordering::Relaxed) || number == 0)).then(|| sender.send(records));\n                                if result.is_err() {")],
 '''
def slow(i, r, c):
    time.sleep(0.35); return OK
s = Server(slow)
rc, out, err = suite("request r `GET %s/`\\ntest t { r() }" % s.url, "t", "-d", "1s", "-s")
check("count=%d " % len(s.requests) in out, out, len(s.requests))
''')
bug('b-sort-case','T07','files whose names differ in letter case at the place that decides their order',
 'files are sorted without regard to letter case',
 [(CM,"        entries.sort();","        entries.sort_by_key(|path| path.to_string_lossy().to_lowercase());")],
 '''
os.mkdir(DIR+"/s")
open(DIR+"/s/a.fan","w").write("let x = 1\\n")
open(DIR+"/s/B.fan","w").write("let x = 2\\n")
open(DIR+"/s/z.fan","w").write("test t { println(\\"x={x}\\", x) }")
rc, out, err = run("test", "-p", DIR+"/s")
check("x=1" in out, out)
''')
bug('b-ext-case','T07','a file with the extension FAN or Fan',
 'files with the extension in another letter case are read as well',
 [(CM,"path.extension() == Some(std::ffi::OsStr::new(\"fan\"))","path.extension().is_some_and(|extension| extension.eq_ignore_ascii_case(\"fan\"))")],
 '''
os.mkdir(DIR+"/s")
open(DIR+"/s/a.fan","w").write("test t { println(\\"x={x}\\", x) } let x = 1\\n")
open(DIR+"/s/b.FAN","w").write("let x = 2\\n")
rc, out, err = run("test", "-p", DIR+"/s")
check("x=1" in out, out)
''')
bug('b-hidden-dir','T07','a directory whose name starts with a dot below the path',
 'directories whose name starts with a dot are skipped',
 [(CM,"        for entry in entries {\n            read(entry, text)?;","        for entry in entries {\n            if entry.is_dir() && entry.file_name().is_some_and(|name| name.to_string_lossy().starts_with('.')) {\n                continue;\n            }\n            read(entry, text)?;")],
 '''
os.makedirs(DIR+"/s/.more")
open(DIR+"/s/.more/a.fan","w").write("test t { println(\\"x={x}\\", 1) }\\n")
rc, out, err = run("test", "-p", DIR+"/s")
check("x=1" in out, out)
''')
bug('b-repl-exit-prefix','T08','a line that starts with exit but is not exit, such as a variable exit_code',
 'every line that starts with exit ends the session',
 [(CM,"                if text == \"exit\" {","                if text.split(|c: char| !c.is_ascii_alphabetic()).next() == Some(\"exit\") {")],
 '''
rc, out, err = run(input=b"let exit_code = 4\\nexit_code + 1\\n7\\n")
check(out.split() == ["4", "5", "7"], out)
''')
bug('b-repl-semicolon','T08','a session line that ends with a comma, followed by another line',
 'a line that ends with a comma is joined with the next one instead of being evaluated on its own',
 [(CM,"                context = eval(text, Some(context));","""                // an unfinished list goes on in the next line
                let text = match text.ends_with(',') {
                    true => text + &lines.next().and_then(|line| line.ok()).unwrap_or_default(),
                    false => text,
                };
                context = eval(text, Some(context));""")],
 '''
rc, out, err = run(input=b"let a = 1\\n[1, 2,\\nlet a = 2\\na\\n")
check(out.split("\\n")[-2] == "2" and out.split("\\n")[2] == "2", out)
''')
bug('b-unit-upper','T09','a duration with an upper-case unit',
 'upper-case units are accepted in durations',
 [(MA,"        Some('s') => Some(value),","        Some('s' | 'S') => Some(value),")],
 '''
rc, out, err = run("test", "x", "-d", "1S", "-p", DIR)
check(rc != 0, rc, out, err)
''')

bug('b-string-nocase','L03','an ordering of strings that differ in letter case',
 'strings are ordered without regard to letter case',
 [(VA,"            (Value::String(left), Value::String(right)) => left.partial_cmp(right),","            (Value::String(left), Value::String(right)) => left.to_lowercase().partial_cmp(&right.to_lowercase()),")],
 '''
check(ev('"B" < "a"').strip() == "true", ev('"B" < "a"'))
''')
bug('b-fill-buffer','T05','several threads that fill templates at the same moment',
 'templates are filled in one buffer of the process, so requests of concurrent threads are mixed up',
 [(EV,"""            ranges.reverse();
            let mut message = message.to_string();
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                message.replace_range(range, variable.as_str());
            }""","""            // one buffer for all requests
            static BUFFER: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
            let mut from = 0;
            BUFFER.lock().unwrap().clear();
            for (variable, range) in ranges.into_iter() {
                let variable = match context.get(variable) {
                    Some(variable) => variable.to_string(),
                    None => Value::Null.to_string(),
                };
                BUFFER.lock().unwrap().push_str(&message[from..range.start]);
                BUFFER.lock().unwrap().push_str(variable.as_str());
                from = range.end;
            }
            BUFFER.lock().unwrap().push_str(&message[from..]);
            let message = std::mem::take(&mut *BUFFER.lock().unwrap());""")],
 '''
s = Server()
text = "let n = 0 request r `GET %s/{n}/{n}/{n}/{n}/{n}/{n}/{n}\\nHost: x`[status == 200]\\ntest t { let n = n + 1; r() }" % s.url
for i in range(10):
    s.requests.clear()
    rc, out, err = suite(text, "t", "-t", "8", "-n", "400")
    want = sorted(n for n in range(1, 51) for t in range(8))
    got = sorted(int(r.split(b"/")[1]) for r in s.requests if len(set(r.split(b" ")[1].split(b"/")[1:])) == 1)
    check(got == want, len(got), len(s.requests))
''')
bug('b-run-once','T03','more threads than iterations',
 'every thread runs the test at least once, also when there are fewer iterations than threads',
 [(CM,"                            while continuous.load(Ordering::Relaxed) && number < maximun {","                            while continuous.load(Ordering::Relaxed) && number < maximun.max(1) {")],
 '''
rc, out, err = suite("test t { println(\\"run\\") }", "t", "-t", "5", "-n", "2")
check(out.count("run") == 2, out)
''')
bug('b-number-signed','T09','a number of iterations above 2147483647',
 'counts above 31 bits are refused',
 [(MA,"        #[arg(short, long, default_value_t = 1)]\n        number: u32,","        #[arg(short, long, default_value_t = 1, value_parser = clap::value_parser!(u32).range(..=i32::MAX as i64))]\n        number: u32,")],
 '''
rc, out, err = suite("test t { println(\\"run\\") let x = nothing }", "t", "-n", "3000000000")
check(rc == 0 and "run" in out, rc, out, err)
''')
