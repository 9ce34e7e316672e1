BUGS=[]
def bug(id,property,needs,breaks,edits,demo,**k): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
EV='lib/src/evaluator.rs'; PA='lib/src/parser.rs'; LE='lib/src/lexer.rs'; VA='lib/src/value.rs'; NA='lib/src/native.rs'; SY='lib/src/syntax.rs'; CX='lib/src/context.rs'; WR='lib/src/writer.rs'; SA='lib/src/stat.rs'
RQ='lib/src/http/request.rs'; RS='lib/src/http/response.rs'; ST='lib/src/http/stream.rs'; CL='lib/src/http/client.rs'; UR='lib/src/http/url.rs'; HD='lib/src/http/header.rs'; TI='lib/src/http/time.rs'
CM='cmd/src/command.rs'; MA='cmd/src/main.rs'

# --- bugs of the earlier batches, moved to lines of the original repository
bug('b-body-trim-lines','H02','a body with blanks at the end of a line that is not the last','blanks at the end of body lines are dropped',
 [(RQ,"content = Content::Byte(body.as_bytes().to_owned());",'content = Content::Byte(body.lines().map(str::trim_end).collect::<Vec<&str>>().join("\\n").into_bytes());')],
 '''
s = Server()
rc, out, err = suite("request r `POST %s/\\n\\na  \\nb`\\ntest t { r() }" % s.url)
check(s.requests and body(s.requests[0]) == b"a  \\nb", s.requests)
''')
bug('b-form-empty','H03','a form field with an empty value','form fields with an empty value are left out of the body',
 [(RQ,"""                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':') {
                            serializer""","""                    for line in lines.by_ref() {
                        if let Some((name, value)) = line.trim().split_once(':').filter(|(_, value)| !value.is_empty()) {
                            serializer""")],
 '''
s = Server()
rc, out, err = suite("request r `POST %s/\\nContent-Type: application/x-www-form-urlencoded\\n\\na:\\nb: 1`\\ntest t { r() }" % s.url)
check(s.requests and body(s.requests[0]) == b"a=&b=1", s.requests)
''')
bug('b-fragment-first','H04','a URL whose query contains a question mark','a second question mark in the query cuts the request target',
 [(UR,"        Url { scheme, host, port, path }","""        // the query starts at the first question mark
        let path = match path.match_indices('?').nth(1) {
            Some((end, _)) => path[..end].to_string(),
            None => path,
        };
        Url { scheme, host, port, path }""")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/p?a=b?c=d`\\ntest t { r() }" % s.url)
check(s.requests and s.requests[0].startswith(b"GET /p?a=b?c=d "), s.requests)
''')
bug('b-json-null-item','H06','a JSON array with an item that is null','items that are null are left out of the arrays of the json value',
 [(SY,"Expr::Array(items) => Value::Array(items.iter().map(|e| e.eval()).collect::<Vec<Value>>()),","Expr::Array(items) => Value::Array(items.iter().map(|e| e.eval()).filter(|item| *item != Value::Null).collect::<Vec<Value>>()),")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\n\\r\\n[1, null, 3]")
rc, out, err = suite("request r `GET %s/`[length(json) == 3]\\ntest t { r() }" % s.url)
check("PASS" in out, out)
''')
# --- new ones
bug('b-lexer-quadratic','L01','a text or response body with very many numbers','the rest of the text is copied after every number, so a body of a megabyte of numbers takes hours',
 [(LE,"""                            string.push(*peek);
                            chars.next();
                        } else {
                            break;
                        }
                    }
                    // exponent""","""                            string.push(*peek);
                            chars.next();
                        } else {
                            break;
                        }
                    }
                    let rest = chars.clone().collect::<String>();
                    // a number ends before a letter
                    if rest.trim_start().is_empty() && string.is_empty() {
                        break;
                    }
                    // exponent""")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nConnection: close\\r\\n\\r\\n" + b"[" + b"1," * 300000 + b"1]")
try:
    rc, out, err = suite("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url, timeout=60)
except subprocess.TimeoutExpired:
    fail("hangs")
check(rc == 0 and "PASS" in out, rc, out[-300:])
''')
bug('b-format-256','L05','a format string with more than 255 placeholders','placeholders and arguments are counted with 8 bits, so 256 too many arguments pass',
 [(NA,"            if variables.len() != ranges.len() {","            if variables.len() as u8 != ranges.len() as u8 {")],
 '''
text = 'format("{a}", ' + ", ".join(["1"] * 257) + ")"
check(ev(text).strip() != "1", ev(text))
''')
bug('b-fill-many','H01','a template with more than 50 placeholders','only the first fifty placeholders of a template are filled',
 [(EV,"            let matches = regex.find_iter(message);","            // more than these are not placeholders but JSON\n            let matches = regex.find_iter(message).take(50);")],
 '''
s = Server()
rc, out, err = suite("let n = 7 request r `POST %s/\\n\\n%s`\\ntest t { r() }" % (s.url, " ".join(["{n}"] * 80)))
check(s.requests and body(s.requests[0]) == b" ".join([b"7"] * 80), s.requests)
''')
bug('b-fill-name-long','H01','a placeholder whose name is longer than 32 characters','placeholders with long names are left in the request',
 [(EV,'let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]*)\\s*\\}").unwrap();','let regex = regex::Regex::new(r"\\{\\s*([a-zA-Z_][a-zA-Z0-9_]{0,31})\\s*\\}").unwrap();')],
 '''
s = Server()
n = "customer_" * 5
rc, out, err = suite("let %s = 7 request r `GET %s/{%s}`\\ntest t { r() }" % (n, s.url, n))
check(s.requests and s.requests[0].startswith(b"GET /7 "), s.requests)
''')
bug('b-path-slashes','H04','a URL whose path has two slashes in a row','doubled slashes of the path are sent as one',
 [(UR,"        Url { scheme, host, port, path }","""        // empty segments mean nothing
        let path = path.replace("//", "/");
        Url { scheme, host, port, path }""")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/a//b`\\ntest t { r() }" % s.url)
check(s.requests and s.requests[0].startswith(b"GET /a//b "), s.requests)
''')
bug('b-tls-name-panic','H07','an https URL whose host is not a valid server name','a host that cannot be in a certificate ends the program',
 [(ST,"let name = host.to_owned().try_into().map_err(|_e| Error::InvalidUrlHost)?;",'let name = rustls::pki_types::ServerName::try_from(host.to_owned()).expect("host name");')],
 '''
rc, out, err = suite("request r `GET https://a..b/`\\ntest t { r(); println(\\"after\\") }")
check("after" in out and "FAIL" in out and "panicked" not in err, out, err)
''')
bug('b-tls-writer','H08','an https request larger than 64 KiB','the request is put into the buffer of the TLS connection, which holds 64 KiB, without sending',
 [(ST,"Stream::Cipher { stream, attach, .. } => rustls::Stream::new(attach.as_mut(), stream).write(buf),","Stream::Cipher { attach, .. } => attach.writer().write(buf),")],
 '''
import ssl
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
subprocess.run("openssl req -x509 -newkey rsa:2048 -nodes -keyout k.pem -out c.pem -days 2 -subj /CN=t -addext subjectAltName=IP:127.0.0.1 -addext basicConstraints=critical,CA:FALSE 2>/dev/null || true; "
  "openssl req -x509 -newkey rsa:2048 -nodes -keyout ca.key -out ca.pem -days 2 -subj /CN=ca -addext basicConstraints=critical,CA:TRUE -addext keyUsage=keyCertSign 2>/dev/null; "
  "openssl req -new -newkey rsa:2048 -nodes -keyout s.key -out s.csr -subj /CN=s 2>/dev/null; "
  "printf 'subjectAltName=IP:127.0.0.1\\nbasicConstraints=CA:FALSE\\nextendedKeyUsage=serverAuth\\n' > e; "
  "openssl x509 -req -in s.csr -CA ca.pem -CAkey ca.key -CAcreateserial -days 2 -extfile e -out s.pem 2>/dev/null", shell=True, cwd=DIR)
ctx.load_cert_chain(os.path.join(DIR, "s.pem"), os.path.join(DIR, "s.key"))
s = Server(wrap=lambda c: ctx.wrap_socket(c, server_side=True))
text = "request r `POST https://127.0.0.1:%d/\\n\\n%s`[status == 200]\\ntest t { r() }" % (s.port, "y" * 300000)
rc, out, err = suite(text, env={"SSL_CERT_FILE": os.path.join(DIR, "ca.pem")})
check("PASS" in out and body(s.requests[0]) == b"y" * 300000, out[-200:], err)
''')
bug('b-delay-write','H10','a server that takes the request slowly','the time of sending is charged to the delay before the response',
 [(CL,"""        if let Err(error) = request.write(&mut stream, content) {""","""        let read = Instant::now();
        if let Err(error) = request.write(&mut stream, content) {"""),(CL,"""        };
        let read = Instant::now();
        let response""","""        };
        let response""")],
 '''
def reply(i, r, c): return OK
class Slow(Server):
    def one(self, i, c):
        time.sleep(1.5); super().one(i, c)
s = Slow(slow=4096)
d = os.path.join(DIR, "rec"); os.mkdir(d)
rc, out, err = suite("request r `POST %s/\\n\\n%s`\\ntest t { r() }" % (s.url, "y" * 20000000), "-r", d)
row = decode(os.path.join(d, os.listdir(d)[0]))[0]
check(row["error"] == "" and row["time_delay"] < 10**9 and row["time_write"] > 10**9, {k: v for k, v in row.items() if k.startswith("time")})
''')
bug('b-assert-dedupe','T01','an assertion that is written twice, with others between','assertions equal to an earlier one are left out',
 [(EV,"""                .filter_map(|assert| match assert {
                    Expr::Binary(token, left, right) => {
                        let expr = format!("{} {} {}", left, token, right);""","""                .filter_map(|assert| match assert {
                    // once is enough
                    assert if !told.insert(assert.to_string()) => None,
                    Expr::Binary(token, left, right) => {
                        let expr = format!("{} {} {}", left, token, right);"""),
  (EV,"            let mut local = Context::from(map);","            let mut local = Context::from(map);\n            let mut told = std::collections::HashSet::new();")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/`[status == 200, body == \\"ok\\", status == 200]\\ntest t { r() }" % s.url)
check(out.count("status == 200 =>") == 2, out)
''')
bug('b-assert-fifty','T01','a request with more than fifty assertions','assertions after the fiftieth are left out',
 [(EV,"""            let asserts = asserts
                .iter()
                .filter_map""","""            let asserts = asserts
                .iter()
                .take(50)
                .filter_map""")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/`[%s, status == 404]\\ntest t { r() }" % (s.url, ", ".join(["status == 200"] * 60)))
check("FAIL" in out, out[-200:])
''')
bug('b-assert-side-long','T01','an assertion on a long body','the text of a side is cut at 4096 characters',
 [(EV,"                            left: left.to_string(),","                            // bodies may be long\n                            left: left.to_string().chars().take(4096).collect(),")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nConnection: close\\r\\n\\r\\n" + b"z" * 9000)
rc, out, err = suite("request r `GET %s/`[body != \\"\\"]\\ntest t { r() }" % s.url)
check("z" * 9000 in out, len(out))
''')
bug('b-writer-megabyte','T02','a record with a text above a megabyte','texts above a megabyte are cut in record files',
 [(WR,"    let bytes = s.as_ref();\n    encode_long(bytes.len() as i64, buffer);","    let bytes = s.as_ref();\n    let bytes = &bytes[..bytes.len().min(1 << 20)];\n    encode_long(bytes.len() as i64, buffer);")],
 '''
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nConnection: close\\r\\n\\r\\n" + b"z" * 2000000)
d = os.path.join(DIR, "rec"); os.mkdir(d)
rc, out, err = suite("request r `GET %s/`\\ntest t { r() }" % s.url, "-r", d)
row = decode(os.path.join(d, os.listdir(d)[0]))[0]
check(len(row["response_body"]) == 2000000, len(row["response_body"]))
''')
bug('b-threads-64','T03','more than 64 threads','never more than 64 threads are started, but the iterations are divided by the number asked for',
 [(CM,"                    for thread in 0..threads {","                    for thread in 0..threads.min(64) {")],
 '''
rc, out, err = suite("test t { println(\\"run\\") }", "t", "-t", "100", "-n", "200")
check(out.count("run") == 200, out.count("run"))
''')
bug('b-file-thread-u8','T03','more than 256 threads with record files','threads 256 apart share a record file',
 [(CM,"                        let mut writer = writer(record.as_ref(), thread);","                        let mut writer = writer(record.as_ref(), thread & 0xff);")],
 '''
s = Server()
d = os.path.join(DIR, "rec"); os.mkdir(d)
rc, out, err = suite("request r `GET %s/`\\ntest t { r() }" % s.url, "t", "-t", "260", "-n", "260", "-r", d)
check(len(os.listdir(d)) == 260, len(os.listdir(d)))
''')
bug('b-record-append','T03','a run with record files into a directory that holds those of an earlier run','record files of an earlier run are appended to',
 [(CM,"        let file = match File::create(&file) {","        let file = match File::options().create(true).append(true).open(&file) {")],
 '''
s = Server()
d = os.path.join(DIR, "rec"); os.mkdir(d)
for i in range(2): suite("request r `GET %s/`\\ntest t { r() }" % s.url, "-r", d)
p = os.path.join(d, os.listdir(d)[0])
check(open(p, "rb").read().count(b"Obj\\x01") == 1 and len(decode(p)) == 1)
''')
bug('b-record-keep','T03','a run with record files into a directory that holds those of a longer earlier run','a record file of an earlier run is overwritten from its start but not shortened',
 [(CM,"        let file = match File::create(&file) {","        let file = match File::options().create(true).write(true).truncate(false).open(&file) {")],
 '''
s = Server()
d = os.path.join(DIR, "rec"); os.mkdir(d)
for n in (5, 1): suite("request r `GET %s/`\\ntest t { r() }" % s.url, "t", "-n", str(n), "-r", d)
p = os.path.join(d, os.listdir(d)[0])
check(len(decode(p)) == 1, len(decode(p)))
''')
bug('b-stop-eighth','T06','a run of slow iterations stopped by its duration or an interrupt','the stop is only looked at before every eighth iteration',
 [(CM,"while continuous.load(Ordering::Relaxed) && number < maximun {","while (number % 8 != 0 || continuous.load(Ordering::Relaxed)) && number < maximun {")],
 '''
def reply(i, r, c):
    time.sleep(0.4); return OK
s = Server(reply)
t = time.time()
rc, out, err = suite("request r `GET %s/`\\ntest t { r() }" % s.url, "t", "-d", "1s")
check(time.time() - t < 2.2, time.time() - t)
''')
bug('b-dir-fan','T07','a directory whose name ends with .fan','a directory whose name ends with .fan is taken for a file',
 [(CM,"    if path.is_dir() {",'    if path.is_dir() && path.extension() != Some(std::ffi::OsStr::new("fan")) {')],
 '''
os.makedirs(os.path.join(DIR, "s", "x.fan"))
open(os.path.join(DIR, "s", "x.fan", "a.fan"), "w").write("test t { println(\\"run\\") }")
rc, out, err = run("test", "-p", os.path.join(DIR, "s"))
check("run" in out, out, err)
''')
bug('b-extend-first','T08','a session that defines a request again','a request that is defined again keeps its first definition',
 [(CX,"        self.requests.extend(requests);","        for (name, request) in requests {\n            self.requests.entry(name).or_insert(request);\n        }")],
 '''
s = Server()
rc, out, err = run(input=("request r `GET %s/one`\\nr().status\\nrequest r `GET %s/two`\\nr().status\\n" % (s.url, s.url)).encode())
check(len(s.requests) == 2 and s.requests[1].startswith(b"GET /two"), s.requests)
''')
bug('b-eval-file','T09','a text that is also the name of a file','eval runs the file of this name instead of the text',
 [(CM,"    match Parser::new(&text).parse() {\n        Ok(Source { exprs, requests, .. }) => {\n            context.extend(requests);\n            match eval_block(&exprs, &mut context) {\n                Ok(value) => {","    let text = std::fs::read_to_string(&text).unwrap_or(text);\n    match Parser::new(&text).parse() {\n        Ok(Source { exprs, requests, .. }) => {\n            context.extend(requests);\n            match eval_block(&exprs, &mut context) {\n                Ok(value) => {")],
 '''
open(os.path.join(DIR, "12"), "w").write("34")
check(ev("12").strip() == "12", ev("12"))
''')
