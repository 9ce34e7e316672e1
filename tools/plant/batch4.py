BUGS=[]
def bug(id,property,needs,breaks,edits,demo,**k): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
EV='lib/src/evaluator.rs'; PA='lib/src/parser.rs'; LE='lib/src/lexer.rs'; VA='lib/src/value.rs'; NA='lib/src/native.rs'; SY='lib/src/syntax.rs'; CX='lib/src/context.rs'; WR='lib/src/writer.rs'; SA='lib/src/stat.rs'
RQ='lib/src/http/request.rs'; RS='lib/src/http/response.rs'; ST='lib/src/http/stream.rs'; CL='lib/src/http/client.rs'; UR='lib/src/http/url.rs'; HD='lib/src/http/header.rs'; TI='lib/src/http/time.rs'
CM='cmd/src/command.rs'; MA='cmd/src/main.rs'

bug('b-socket-leak','T03','a run with more requests than the process may have open files','every connection is kept open, so a long run ends in requests that fail for want of file descriptors',
 [(ST,"        stream.set_read_timeout(read_tiomeout).map_err(|_e| Error::SetReadTimeoutFailed)?;\n        Ok((stream, resolve_duration))",
 "        stream.set_read_timeout(read_tiomeout).map_err(|_e| Error::SetReadTimeoutFailed)?;\n        // the peer may still be writing when the response is complete\n        std::mem::forget(stream.try_clone().map_err(|_e| Error::SetReadTimeoutFailed)?);\n        Ok((stream, resolve_duration))")],
 '''
import resource
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nTransfer-Encoding: chunked\\r\\n\\r\\n2\\r\\nok\\r\\n0\\r\\n\\r\\n")
open(os.path.join(DIR, "s.fan"), "w").write("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url)
p = subprocess.run(["bash", "-c", "ulimit -n 64; exec %s test t -n 200" % BIN], cwd=DIR, capture_output=True, text=True, timeout=100)
check(p.stdout.count("--- PASS") == 200, p.stdout.count("--- PASS"), p.stdout[-300:])
''')
bug('b-null-unset','L04','a variable bound to null and read afterwards','binding a variable to null removes it, so that reading it is an error',
 [(EV,"    context.set(name.to_owned(), value.to_owned());\n    Ok(value)","    match value {\n        // an absent variable is null\n        Value::Null => context.unset(name),\n        _ => context.set(name.to_owned(), value.to_owned()),\n    }\n    Ok(value)"),
  (CX,"    pub fn request(&self, name: &str)","    pub fn unset(&mut self, key: &str) {\n        self.inner.remove(key);\n    }\n\n    pub fn request(&self, name: &str)")],
 '''
check(ev("let x = 1; let x = [][0]; [x]").strip() == "[Null]", ev("let x = 1; let x = [][0]; [x]"))
''')
bug('b-tls-damage','H08','a TLS stream that is damaged after some of the response arrived',
 'bytes that are not TLS in the middle of a response end it as if it were complete',
 [(ST,"                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {","                    Err(e) if matches!(e.kind(), std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::InvalidData) => {")],
 '''
import ssl
subprocess.run(["openssl","req","-x509","-newkey","rsa:2048","-nodes","-days","2","-subj","/CN=ca","-addext","basicConstraints=critical,CA:TRUE","-keyout",DIR+"/ca.key","-out",DIR+"/ca.pem"],check=True,capture_output=True)
subprocess.run(["openssl","req","-newkey","rsa:2048","-nodes","-subj","/CN=x","-keyout",DIR+"/k.pem","-out",DIR+"/r.csr"],check=True,capture_output=True)
open(DIR+"/e","w").write("subjectAltName=IP:127.0.0.1\\nextendedKeyUsage=serverAuth\\nbasicConstraints=CA:FALSE\\n")
subprocess.run(["openssl","x509","-req","-in",DIR+"/r.csr","-CA",DIR+"/ca.pem","-CAkey",DIR+"/ca.key","-CAcreateserial","-days","2","-extfile",DIR+"/e","-out",DIR+"/c.pem"],check=True,capture_output=True)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(DIR+"/c.pem", DIR+"/k.pem")
def half(i, r, c):
    if i == 0: return OK
    c.sendall(b"HTTP/1.1 200 OK\\r\\n\\r\\nhalf")
    time.sleep(0.5)
    raw = socket.socket(fileno=os.dup(c.fileno()))
    raw.sendall(b"\\x17\\x03\\x03\\x00\\x40" + b"\\x00" * 64)
    time.sleep(0.3)
s = Server(half, wrap=lambda c: ctx.wrap_socket(c, server_side=True))
for want in ("PASS", "FAIL"):
    rc, out, err = suite("request r `GET https://127.0.0.1:%d/\\nHost: x`\\ntest t { r() }" % s.port, env={"SSL_CERT_FILE": DIR+"/ca.pem"})
    check(want in out, want, out)
''')

bug('b-form-64','H03','a form of more than 64 fields','only the first 64 lines of a form are sent',
 [(RQ,"form_urlencoded::Serializer::new(String::default());\n                    for line in lines.by_ref() {","form_urlencoded::Serializer::new(String::default());\n                    // enough for any form\n                    for line in lines.by_ref().take(64) {")],
 '''
s = Server()
fields = "".join("f%d: v%d\\n" % (i, i) for i in range(90))
rc, out, err = suite("request r `POST %s/\\nContent-Type: application/x-www-form-urlencoded\\n\\n%s`\\ntest t { r() }" % (s.url, fields))
check(body(s.requests[0]).decode() == "&".join("f%d=v%d" % (i, i) for i in range(90)), s.requests[0][-100:])
''')
bug('b-multipart-100','H03','a multipart body of more than 100 parts','parts after the hundredth are left out',
 [(RQ,"multipart::client::lazy::Multipart::new();\n                    for line in lines.by_ref() {","multipart::client::lazy::Multipart::new();\n                    for line in lines.by_ref().take(100) {")],
 '''
s = Server()
fields = "".join("f%d: v%d\\n" % (i, i) for i in range(130))
rc, out, err = suite("request r `POST %s/\\nContent-Type: multipart/form-data\\n\\n%s`\\ntest t { r() }" % (s.url, fields))
check(body(s.requests[0]).count(b"form-data; name=") == 130, s.requests[0][-100:])
''')
bug('b-request-headers-200','H02','a message of more than 200 header lines','header lines after the first 200 are not sent',
 [(RQ,"        for header in self.headers.iter() {","        for header in self.headers.iter().take(200) {")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/\\n%s`\\ntest t { r() }" % (s.url, "\\n".join("X-%d: %d" % (i, i) for i in range(300))))
check(s.requests[0].count(b"\\r\\nX-") == 300, s.requests[0].count(b"\\r\\nX-"))
''')
bug('b-path-2048','H04','a URL with a path of more than 2048 characters','a long path is cut off',
 [(UR,"        Url { scheme, host, port, path }\n    }","        // as long as browsers accept\n        let path = path.chars().take(2048).collect::<String>();\n        Url { scheme, host, port, path }\n    }")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/%s?x=1`\\ntest t { r() }" % (s.url, "p" * 3000))
check(b"/" + b"p" * 3000 + b"?x=1 " in s.requests[0], s.requests[0][:60])
''')
bug('b-repl-1000','T08','a session of more than 1000 lines','the session ends after 1000 lines',
 [(CM,"    loop {\n        match lines.next() {","    for _ in 0..1000 {\n        match lines.next() {")],
 '''
rc, out, err = run(input=("let x = 0\\n" + "let x = x + 1\\n" * 1500 + "x * 2\\n").encode())
check(out.split()[-1:] == ["3000"], out[-50:])
''')
bug('b-stop-grace','T06','an interrupt while an iteration has more than two and a half seconds to go','what an iteration under way at the stop does after two and a half seconds is lost',
 [(CM,"                    // completed after thread sleep duration\n                    spawn(move || {\n                        std::thread::sleep(duration);\n                        continuous.store(false, Ordering::Relaxed)","                    // completed after thread sleep duration\n                    spawn(move || {\n                        std::thread::sleep(duration);\n                        continuous.store(false, Ordering::Relaxed);\n                        std::thread::sleep(Duration::from_millis(2500));\n                        std::process::exit(0)")],
 '''
def slow(i, r, c):
    time.sleep(5)
    return OK
s = Server(slow)
rc, out, err = suite("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url, "t", "-d", "1s", "-n", "100")
check(out.count("--- PASS") == 1, out)
''')
bug('b-host-down','H07','a request that fails to connect and a later one to the same host that would not','once a connection to a host failed, no request to it is tried again',
 [(CL,"        let mut stream = match Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout) {\n            Ok(stream) => stream,\n            Err(error) => return (request, Response::default(), time, error.to_string()),","        static DOWN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n        let down = |host: &String| DOWN.lock().is_ok_and(|down| down.contains(host));\n        let connect = || match down(&request.url.host) {\n            true => Err(super::Error::TcpConnectFailed),\n            false => Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout),\n        };\n        let mut stream = match connect() {\n            Ok(stream) => stream,\n            Err(error) => {\n                if let Ok(mut down) = DOWN.lock() {\n                    down.push(request.url.host.clone());\n                }\n                return (request, Response::default(), time, error.to_string());\n            }")],
 '''
s = Server()
free = socket.socket(); free.bind(("127.0.0.1", 0)); port = free.getsockname()[1]; free.close()
rc, out, err = suite("request bad `GET http://127.0.0.1:%d/`\\nrequest r `GET %s/`[status == 200]\\ntest t { bad(); r() }" % (port, s.url), "t")
check(out.count("--- PASS") == 1, out)
''')
bug('b-read-timeout','H05','a response that takes more than thirty seconds','a response that is silent for thirty seconds is given up',
 [(CL,"Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout)","Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout.or(Some(Duration::from_secs(30))))")],
 '''
def slow(i, r, c):
    time.sleep(33)
    return OK
s = Server(slow)
rc, out, err = suite("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url, "t")
check(out.count("--- PASS") == 1, out)
''')
