BUGS=[]
def bug(id,property,needs,breaks,edits,demo,**k): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
EV='lib/src/evaluator.rs'; PA='lib/src/parser.rs'; LE='lib/src/lexer.rs'; VA='lib/src/value.rs'; NA='lib/src/native.rs'
RQ='lib/src/http/request.rs'; RS='lib/src/http/response.rs'; ST='lib/src/http/stream.rs'; CL='lib/src/http/client.rs'; CM='cmd/src/command.rs'; MA='cmd/src/main.rs'

bug('b-float-expect','L01','a number with more than one dot, in a program or in a response body',
 'a float token that is not a float makes the parser panic instead of refusing the text',
 [(PA,"""        let token = self.current_token();
        match token.literal.parse::<f64>() {
            Ok(float) => Ok(Expr::Float(float)),
            Err(_) => Err(format!("parse float error: {}", token)),
        }""","""        // the lexer only makes a float of digits and a dot
        let float = self.current_token().literal.parse::<f64>();
        Ok(Expr::Float(float.expect("float literal")))""")],
 '''
rc, out, err = run("eval", "[1.2, 1.2.3]")
check(rc == 0 and "panicked" not in err, err)
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nConnection: close\\r\\n\\r\\n10.0.0.1")
rc, out, err = suite("request r `GET %s/`[status == 200]\\ntest t { r() }" % s.url)
check("PASS" in out and "panicked" not in err, out, err)
''')
bug('b-precedence-le','L02','an equality and <= or >= in one expression without brackets, the ordering on the right',
 '<= and >= bind as loosely as == so that a == b <= c groups to the left',
 [('lib/src/token.rs',"""            Kind::Le => 7,   // a <= b
            Kind::Ge => 7,   // a >= b""","""            Kind::Le => 6,   // a <= b
            Kind::Ge => 6,   // a >= b""")],
 '''
check(ev("true == 1 <= 2").strip() == "true", ev("true == 1 <= 2"))
check(ev("1 < 2 == true").strip() == "true")
''')
bug('b-string-cr','L02','a string literal that contains a carriage return',
 'line endings inside string literals are normalised, so the string is not the one written',
 [(LE,"""                    while let Some(peek) = chars.peek() {
                        if *peek == '"' {
                            chars.next();
                            break;
                        } else {""","""                    while let Some(peek) = chars.peek() {
                        if *peek == '"' {
                            chars.next();
                            break;
                        } else if *peek == '\\r' {
                            // a line ends with a line feed on every platform
                            chars.next();
                        } else {""")],
 '''
check(ev('length("a\\r\\nb")').strip() == "4")
check(ev('length("a\\nb")').strip() == "3")
''')
bug('b-and-null','L03','&& whose left operand is null',
 'null && x gives false instead of the deciding operand null',
 [(EV,"""            left @ (Value::Boolean(false) | Value::Null) => Ok(left),
            _ => eval_expr(right, context),""","""            Value::Boolean(false) | Value::Null => Ok(Value::Boolean(false)),
            _ => eval_expr(right, context),""")],
 '''
check(ev("[1][5] && true").strip() == "null", ev("[1][5] && true"))
check(ev("false && true").strip() == "false")
''')
bug('b-rem-euclid','L03','the remainder of a negative float by an integer',
 'float % integer has the sign of the divisor unlike every other remainder',
 [(VA,"(Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),","(Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left.rem_euclid(right as f64))),")],
 '''
check(ev("(-7.5) % 2").strip() == "-1.5", ev("(-7.5) % 2"))
check(ev("7.5 % 2").strip() == "1.5")
''')
bug('b-compare-int-float','L03','an ordering between an integer and a float with a fraction',
 'the float is truncated before it is compared with an integer',
 [(VA,"(Value::Integer(left), Value::Float(right)) => (*left as f64).partial_cmp(right),","(Value::Integer(left), Value::Float(right)) => left.partial_cmp(&(*right as i64)),")],
 '''
check(ev("1 < 1.5").strip() == "true", ev("1 < 1.5"))
check(ev("1 < 2.5").strip() == "true")
''')
bug('b-index-wrap','L04','an array index at least 2^32 or negative enough to wrap into the array',
 'array indexes are taken modulo 2^32, so out of range reads give an element instead of null',
 [(EV,"""            let index = index as usize;
            if index < items.len() {""","""            let index = index as u32 as usize;
            if index < items.len() {""")],
 '''
check(ev("[1, 2][4294967296]").strip() == "null", ev("[1, 2][4294967296]"))
check(ev("[1, 2][-1]").strip() == "null")
check(ev("[1, 2][-4294967295]").strip() == "null")
''')
bug('b-map-first-wins','L04','a map literal in which two keys have the same text',
 'the first of duplicate map keys wins',
 [(EV,"        map.insert(key.to_string(), value);","        map.entry(key.to_string()).or_insert(value);")],
 '''
check(ev('{"a": 1, "b": 2, "a": 3}["a"]').strip() == "3")
check(ev('{"1": 1, 1: 3}["1"]').strip() == "3")
''')
bug('b-format-rescan','L05','format with an argument that itself looks like a placeholder',
 'format replaces one placeholder at a time from the left and scans the text of arguments again',
 [(NA,"""                for (range, variable) in ranges.into_iter().zip(variables) {
                    string.replace_range(range, &variable.to_string());
                }""","""                for variable in variables.rev() {
                    let variable = variable.to_string();
                    string = regex.replace(&string, regex::NoExpand(&variable)).into_owned();
                }""")],
 '''
check(ev('format("{a} and {b}", "{b}", "x")').strip() == "{b} and x", ev('format("{a} and {b}", "{b}", "x")'))
check(ev('format("{a} and {b}", 1, 2)').strip() == "1 and 2")
''')
bug('b-template-trim','H01','a variable whose text starts or ends with blanks, inside a body or header',
 'the text of a variable is trimmed before it is put into the request',
 [(EV,"message.replace_range(range, variable.as_str());","message.replace_range(range, variable.trim());")],
 '''
s = Server()
suite("let v = \\"a  \\"\\nrequest r `POST %s/\\nHost: x\\n\\n[{v}]`\\ntest t { r() }" % s.url)
check(body(s.requests[0]) == b"[a  ]", s.requests)
''')
bug('b-body-trim-lines','H02','a body with blanks at the end of a line that is not the last',
 'blanks at the end of body lines are dropped',
 [(RQ,"""body = lines.collect::<Vec<&str>>().join("\\n");""","""body = lines.map(str::trim_end).collect::<Vec<&str>>().join("\\n");""")],
 '''
s = Server()
suite("request r `POST %s/\\nHost: x\\n\\none  \\ntwo`\\ntest t { r() }" % s.url)
check(body(s.requests[0]) == b"one  \\ntwo", s.requests)
''')
bug('b-content-write','H02','a body larger than the socket buffers with a server that reads slowly',
 'a short write of the body is taken as complete, so the rest of a large body is never sent',
 [('lib/src/http/content.rs',"Content::Byte(bytes) => Ok(writer.write_all(bytes).map_err(Error::WriteFailed)?),","Content::Byte(bytes) => writer.write(bytes).map(|_size| ()).map_err(Error::WriteFailed),")],
 '''
import ssl
def wrap(c):
    c.settimeout(5)
    return c
s = Server(wrap=wrap)
text = "request r `POST https://localhost:%d/\\nHost: x\\n\\n" + "x" * 300000 + "`\\ntest t { r() }"
subprocess.run(["openssl","req","-x509","-newkey","rsa:2048","-nodes","-days","2","-subj","/CN=localhost","-addext","subjectAltName=DNS:localhost","-addext","basicConstraints=critical,CA:TRUE","-keyout",DIR+"/ca.key","-out",DIR+"/ca.pem"],check=True,capture_output=True)
subprocess.run(["openssl","req","-newkey","rsa:2048","-nodes","-subj","/CN=localhost","-keyout",DIR+"/k.pem","-out",DIR+"/r.csr"],check=True,capture_output=True)
open(DIR+"/e","w").write("subjectAltName=DNS:localhost\\nextendedKeyUsage=serverAuth\\nbasicConstraints=CA:FALSE\\n")
subprocess.run(["openssl","x509","-req","-in",DIR+"/r.csr","-CA",DIR+"/ca.pem","-CAkey",DIR+"/ca.key","-CAcreateserial","-days","2","-extfile",DIR+"/e","-out",DIR+"/c.pem"],check=True,capture_output=True)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(DIR+"/c.pem", DIR+"/k.pem")
s = Server(wrap=lambda c: (c.settimeout(5), ctx.wrap_socket(c, server_side=True))[1])
rc, out, err = suite(text % s.port, env={"SSL_CERT_FILE": DIR+"/ca.pem"})
check("PASS" in out, out)
check(len(body(s.requests[0])) == 300000, len(body(s.requests[0])))
''')
bug('b-headers-dedupe','H02','a request template that gives the same header line twice',
 'a header line equal to an earlier one is dropped, in requests and in responses',
 [('lib/src/http/header.rs',"        self.inner.push(header)","""        // the same header again adds nothing
        if !self.inner.iter().any(|h| h.name == header.name && h.value == header.value) {
            self.inner.push(header)
        }""")],
 '''
s = Server()
suite("request r `GET %s/\\nHost: x\\nX-A: 1\\nX-B: 2\\nX-A: 1`\\ntest t { r() }" % s.url)
check(s.requests[0].count(b"X-A: 1\\r\\n") == 2, s.requests)
''')
bug('b-form-empty','H03','a form field with an empty value',
 'form fields with an empty value are left out of the body',
 [(RQ,"""                        if let Some((name, value)) = line.trim().split_once(':') {
                            serializer.append_pair(name.trim(), value.trim());
                            body.push_str(line);
                        }""","""                        if let Some((name, value)) = line.trim().split_once(':') {
                            let (name, value) = (name.trim(), value.trim());
                            if !value.is_empty() {
                                serializer.append_pair(name, value);
                            }
                            body.push_str(line);
                        }""")],
 '''
s = Server()
suite("request r `POST %s/\\nHost: x\\nContent-Type: application/x-www-form-urlencoded\\n\\na: 1\\nb:\\nc: 3`\\ntest t { r() }" % s.url)
check(body(s.requests[0]) == b"a=1&b=&c=3", s.requests)
''')
bug('b-multipart-at','H03','a multipart file whose path begins with an at sign',
 'all leading at signs are taken off a file path, so the file @x is not found and the whole body is lost',
 [(RQ,"parts.add_file(name, Path::new(&value[1..value.len()]));","parts.add_file(name, Path::new(value.trim_start_matches('@')));")],
 '''
open(DIR + "/@data", "w").write("DATA")
s = Server()
suite("request r `POST %s/\\nHost: x\\nContent-Type: multipart/form-data\\n\\na: 1\\nf: @@data`\\ntest t { r() }" % s.url)
check(b"DATA" in s.requests[0], s.requests)
''')
bug('b-url-scheme-split','H04','a URL whose path or query contains ://',
 'the URL is split at every ://, so the request target ends before the second one',
 [('lib/src/http/url.rs','let mut splits = str.splitn(2, "://");','let mut splits = str.split("://");')] ,
 '''
s = Server()
suite("request r `GET %s/go?to=http://other.example/x\\nHost: x`\\ntest t { r() }" % s.url)
check(s.requests[0].startswith(b"GET /go?to=http://other.example/x HTTP/1.1\\r\\n"), s.requests)
''')
bug('b-json-eval','H06','a response body that is program text rather than JSON',
 'the body is evaluated as a program to get its JSON value, so a server can run code in the client',
 [(RS,"                map.insert(String::from(\"json\"), expr.eval());","""                // the evaluator knows every expression
                if let Ok(json) = crate::eval_block(std::slice::from_ref(expr), &mut crate::Context::new()) {
                    map.insert(String::from("json"), json);
                }""")],
 '''
b = b'println("owned")'
s = Server(lambda i, r, c: b"HTTP/1.1 200 OK\\r\\nContent-Length: %d\\r\\nConnection: close\\r\\n\\r\\n%s" % (len(b), b))
rc, out, err = suite("request r `GET %s/\\nHost: x`[status == 200]\\ntest t { r() }" % s.url)
check("PASS" in out and "owned" not in out, out)
''')
bug('b-client-retry','H07','a server that closes the connection of the first request without answering',
 'a request whose connection is closed before a response is silently sent again',
 [(CL,"""            Err(error) => return (request, Response::default(), time, error.to_string()),
        };
        time.read =""","""            // the server may have closed the connection just before the request
            Err(super::Error::InvalidResponse) if time.delay < Duration::from_millis(100) => match self.again(&mut request, message) {
                Ok(response) => response,
                Err(error) => return (request, Response::default(), time, error.to_string()),
            },
            Err(error) => return (request, Response::default(), time, error.to_string()),
        };
        time.read ="""),
  (CL,"""        (request, response, time, String::default())
    }
""","""        (request, response, time, String::default())
    }

    fn again(&self, request: &mut Request, message: &str) -> Result<Response, super::Error> {
        let mut stream = Stream::connect(&request.url, self.connect_tiomeout, self.read_tiomeout)?;
        request.write(&mut stream, Request::from(message).1)?;
        Response::from(BufReader::new(stream), None::<fn()>)
    }
""")],
 '''
s = Server(lambda i, r, c: b"" if i == 0 else OK)
rc, out, err = suite("request r `POST %s/\\nHost: x\\n\\nbuy`[status == 200]\\ntest t { r() }" % s.url)
check(len(s.requests) == 1 and "FAIL" in out, len(s.requests), out)
''')
bug('b-tls-www','H08','an https URL with a host that starts with www. and a certificate for the bare domain only',
 'the certificate is checked against the host without its www. prefix',
 [(ST,"let name = host.to_owned().try_into().map_err(|_e| Error::InvalidUrlHost)?;","""// a site and its www host share their certificate
        let name = host.trim_start_matches("www.").to_owned().try_into().map_err(|_e| Error::InvalidUrlHost)?;""")],
 '''
import ssl
subprocess.run(["openssl","req","-x509","-newkey","rsa:2048","-nodes","-days","2","-subj","/CN=ca","-addext","basicConstraints=critical,CA:TRUE","-keyout",DIR+"/ca.key","-out",DIR+"/ca.pem"],check=True,capture_output=True)
subprocess.run(["openssl","req","-newkey","rsa:2048","-nodes","-subj","/CN=x","-keyout",DIR+"/k.pem","-out",DIR+"/r.csr"],check=True,capture_output=True)
open(DIR+"/e","w").write("subjectAltName=DNS:localhost\\nextendedKeyUsage=serverAuth\\nbasicConstraints=CA:FALSE\\n")
subprocess.run(["openssl","x509","-req","-in",DIR+"/r.csr","-CA",DIR+"/ca.pem","-CAkey",DIR+"/ca.key","-CAcreateserial","-days","2","-extfile",DIR+"/e","-out",DIR+"/c.pem"],check=True,capture_output=True)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(DIR+"/c.pem", DIR+"/k.pem")
open(DIR+"/d.c","w").write("""
#define _GNU_SOURCE
#include <netdb.h>
#include <dlfcn.h>
#include <string.h>
int getaddrinfo(const char*h,const char*s,const struct addrinfo*a,struct addrinfo**r){
 int(*f)(const char*,const char*,const struct addrinfo*,struct addrinfo**)=dlsym(RTLD_NEXT,"getaddrinfo");
 if(h&&!strcmp(h,"www.localhost"))h="127.0.0.1"; return f(h,s,a,r);}
""")
subprocess.run(["gcc","-shared","-fPIC","-o",DIR+"/d.so",DIR+"/d.c","-ldl"],check=True)
s = Server(wrap=lambda c: ctx.wrap_socket(c, server_side=True))
env = {"SSL_CERT_FILE": DIR+"/ca.pem", "LD_PRELOAD": DIR+"/d.so"}
rc, out, err = suite("request r `GET https://localhost:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, env=env)
check("PASS" in out, out, err)
rc, out, err = suite("request r `GET https://www.localhost:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, env=env)
check("FAIL" in out and len(s.requests) == 1, out, s.requests)
''')
DNS='''
open(DIR+"/d.c","w").write("""
#define _GNU_SOURCE
#include <netdb.h>
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <arpa/inet.h>
static int one(const char*ip,int port,struct addrinfo**r){
 struct addrinfo*a=calloc(1,sizeof*a); 
 struct sockaddr_in*s=calloc(1,sizeof*s); s->sin_family=AF_INET; s->sin_port=htons(port); inet_pton(AF_INET,ip,&s->sin_addr);
 a->ai_family=AF_INET;a->ai_socktype=SOCK_STREAM;a->ai_addr=(void*)s;a->ai_addrlen=sizeof*s;*r=a;return 0;}
int getaddrinfo(const char*h,const char*s,const struct addrinfo*a,struct addrinfo**r){
 int(*f)(const char*,const char*,const struct addrinfo*,struct addrinfo**)=dlsym(RTLD_NEXT,"getaddrinfo");
 char*name=getenv("FAKE_HOST");
 if(h&&name&&!strcmp(h,name)){ char*w=getenv("FAKE_WAIT"); if(w)usleep(atoi(w)*1000);
  char*l=strdup(getenv("FAKE_ADDRS")); struct addrinfo**p=r; *r=0; for(char*t=strtok(l,",");t;t=strtok(0,",")){one(t,0,p);p=&(*p)->ai_next;} return *r?0:EAI_NONAME;}
 return f(h,s,a,r);}
void freeaddrinfo(struct addrinfo*a){ (void)a; }
int connect(int fd,const struct sockaddr*a,socklen_t n){
 int(*f)(int,const struct sockaddr*,socklen_t)=dlsym(RTLD_NEXT,"connect");
 char*l=getenv("FAKE_SLOW"); if(l&&a->sa_family==AF_INET){ char b[64]; inet_ntop(AF_INET,&((struct sockaddr_in*)a)->sin_addr,b,64);
  char*d=strdup(l); for(char*t=strtok(d,",");t;t=strtok(0,",")){ char*e=strchr(t,'='); *e=0; if(!strcmp(t,b))usleep(atoi(e+1)*1000); *e='='; } }
 return f(fd,a,n);}
""")
subprocess.run(["gcc","-shared","-fPIC","-o",DIR+"/d.so",DIR+"/d.c","-ldl"],check=True)
'''
bug('b-race-first-answer','H09','a host with several addresses that all take longer than the racing delay, the first to answer refusing',
 'after the race only the first answer is awaited, so a refusal that comes first hides an address that accepts later',
 [(ST,"""        for (addr, result) in receiver.iter() {
            if let Some(stream) = handle_result(addr, result) {
                return Ok(stream);
            }
        }""","""        if let Ok((addr, result)) = receiver.recv() {
            if let Some(stream) = handle_result(addr, result) {
                return Ok(stream);
            }
        }""")],
 DNS+'''
s = Server(host="127.0.0.3")
env = {"LD_PRELOAD": DIR+"/d.so", "FAKE_HOST": "many.test", "FAKE_ADDRS": "127.0.0.2,127.0.0.3", "FAKE_SLOW": "127.0.0.2=700,127.0.0.3=1200"}
rc, out, err = suite("request r `GET http://many.test:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, env=env)
check("PASS" in out and len(s.requests) == 1, out, err)
''')
bug('b-tls-resolve','H10','an https request to a host whose name is slow to resolve',
 'over TLS the time of name resolution is charged to connect, resolve is always zero',
 [(ST,"            Stream::Cipher { resolve, .. } => *resolve,","            Stream::Cipher { .. } => Duration::default(),")],
 DNS+'''
import ssl
subprocess.run(["openssl","req","-x509","-newkey","rsa:2048","-nodes","-days","2","-subj","/CN=ca","-addext","basicConstraints=critical,CA:TRUE","-keyout",DIR+"/ca.key","-out",DIR+"/ca.pem"],check=True,capture_output=True)
subprocess.run(["openssl","req","-newkey","rsa:2048","-nodes","-subj","/CN=x","-keyout",DIR+"/k.pem","-out",DIR+"/r.csr"],check=True,capture_output=True)
open(DIR+"/e","w").write("subjectAltName=DNS:slow.test\\nextendedKeyUsage=serverAuth\\nbasicConstraints=CA:FALSE\\n")
subprocess.run(["openssl","x509","-req","-in",DIR+"/r.csr","-CA",DIR+"/ca.pem","-CAkey",DIR+"/ca.key","-CAcreateserial","-days","2","-extfile",DIR+"/e","-out",DIR+"/c.pem"],check=True,capture_output=True)
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(DIR+"/c.pem", DIR+"/k.pem")
s = Server(wrap=lambda c: ctx.wrap_socket(c, server_side=True))
env = {"SSL_CERT_FILE": DIR+"/ca.pem", "LD_PRELOAD": DIR+"/d.so", "FAKE_HOST": "slow.test", "FAKE_ADDRS": "127.0.0.1", "FAKE_WAIT": "600"}
rc, out, err = suite("request r `GET https://slow.test:%d/\\nHost: x`[status == 200]\\ntest t { r() }" % s.port, "-r", DIR, env=env)
check("PASS" in out, out, err)
row = decode(DIR+"/000000")[0]
check(row["time_resolve"] >= 590000000, row)
''')
bug('b-assert-skip','T01','an assertion with a side that cannot be evaluated',
 'an assertion with a side that fails to evaluate is left out of the report, so the request passes',
 [(EV,"""                        let left = eval_expr(left, &mut local).unwrap_or(Value::Null);
                        let right = eval_expr(right, &mut local).unwrap_or(Value::Null);""","""                        let left = eval_expr(left, &mut local).ok()?;
                        let right = eval_expr(right, &mut local).ok()?;""")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/\\nHost: x`[status == 200, nothing == 1]\\ntest t { r() }" % s.url)
check("FAIL" in out and "nothing == 1" in out, out)
''')
bug('b-assert-text','T01','an assertion that compares values of different types with the same text',
 'assertions compare the text of the two sides, so status == "200" holds',
 [(EV,"                            Kind::Eq => Some(left == right),","                            Kind::Eq => Some(left.to_string() == right.to_string()),")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/\\nHost: x`[status == \\"200\\"]\\ntest t { r() }" % s.url)
check("FAIL" in out, out)
''')
bug('b-writer-number','T02','an iteration number of at least 2^31',
 'iteration numbers are cut to 31 bits in record files',
 [('lib/src/writer.rs',"encode_long(number as i64, &mut data);","encode_long(number as i32 as i64, &mut data);")],
 '''
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=DIR+"/target")
os.makedirs(DIR+"/p/src")
open(DIR+"/p/Cargo.toml","w").write('[package]\\nname="p"\\nversion="0.1.0"\\nedition="2021"\\n[workspace]\\n[dependencies]\\nlib = { path = "%s/lib" }\\n' % os.getcwd())
shutil.copy("Cargo.lock", DIR+"/p/Cargo.lock")
open(DIR+"/p/src/main.rs","w").write("""
fn main() {
    let mut c = lib::Context::new();
    let s = lib::Parser::new("request r `GET http://127.0.0.1:1/`\\\\n r()").parse().unwrap();
    c.extend(s.requests);
    let _ = lib::eval_block(&s.exprs, &mut c);
    let f = std::fs::File::create(std::env::args().nth(1).unwrap()).unwrap();
    lib::Writer::new(f).write(&c.records(), "t", 3, 4000000000);
}""")
p = subprocess.run(["cargo","run","--offline","-q","--manifest-path",DIR+"/p/Cargo.toml","--",DIR+"/out"],env=env,capture_output=True,text=True)
check(p.returncode == 0, p.stderr)
row = decode(DIR+"/out")[0]
check(row["number"] == 4000000000 and row["thread"] == 3, row["number"])
''')
bug('b-all-tests-error','T03','the run of a whole suite with a test that fails to evaluate after it made requests',
 'the requests of a test that stops with an error are in no report, record file or statistic',
 [(CM,"""                        Err(error) => {
                            println!("{}", error);
                        }
                    }
                    let records = context.records();""","""                        Err(error) => {
                            println!("{}", error);
                            return;
                        }
                    }
                    let records = context.records();""")],
 '''
s = Server()
rc, out, err = suite("request r `GET %s/\\nHost: x`\\ntest t { r() missing }" % s.url, "-s")
check("--- PASS  r" in out and "r count=1" in out, out)
''')
bug('b-stat-avg','T04','samples whose running average has to be rounded',
 'the average is updated from the rounded average of the samples before, and drifts',
 [('lib/src/stat.rs',"        self.avg = self.sum / self.count;","        // no need of the sum, which may be large\n        self.avg = (self.avg * (self.count - 1) + millis) / self.count;")],
 '''
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=DIR+"/target")
os.makedirs(DIR+"/p/src")
open(DIR+"/p/Cargo.toml","w").write('[package]\\nname="p"\\nversion="0.1.0"\\nedition="2021"\\n[workspace]\\n[dependencies]\\nlib = { path = "%s/lib" }\\n' % os.getcwd())
shutil.copy("Cargo.lock", DIR+"/p/Cargo.lock")
open(DIR+"/p/src/main.rs","w").write("""
fn main() {
    let mut s = lib::Stats::default();
    for x in [1, 2, 2, 2, 3] { s.add(&"r".to_string(), x); }
    print!("{}", s);
}""")
p = subprocess.run(["cargo","run","--offline","-q","--manifest-path",DIR+"/p/Cargo.toml"],env=env,capture_output=True,text=True)
check(p.returncode == 0, p.stderr)
check("avg=2 " in p.stdout and "sum=10 " in p.stdout, p.stdout)
''')
bug('b-context-per-iteration','T05','a test that reads in one iteration what it bound in an earlier one',
 'every iteration starts from the variables of the suite again',
 [(CM,"""                        let mut context = context.to_owned();
                        handles.push(spawn(move || {
                            let mut number = u32::default();
                            while continuous.load(Ordering::Relaxed) && number < maximun {
""","""                        let origin = context.to_owned();
                        handles.push(spawn(move || {
                            let mut number = u32::default();
                            while continuous.load(Ordering::Relaxed) && number < maximun {
                                let mut context = origin.to_owned();
""")],
 '''
s = Server()
rc, out, err = suite("let n = 0\\nrequest r `GET %s/{n}\\nHost: x`\\ntest t { r() let n = n + 1 }" % s.url, "t", "-n", "3")
check([r.split()[1] for r in s.requests] == [b"/0", b"/1", b"/2"], s.requests)
''')
bug('b-report-lines','T05','several threads printing reports of requests with assertions at the same time',
 'a report is printed line by line, so reports of concurrent threads interleave',
 [(CM,"""                                records.iter().for_each(|record| println!("{}", record));
                                if let""","""                                records.iter().for_each(|record| record.to_string().lines().for_each(|line| println!("{}", line)));
                                if let""")],
 '''
s = Server()
asserts = ", ".join("status == %d" % i for i in range(200, 230))
for k in range(20):
    rc, out, err = suite("request r `GET http://127.0.0.1:1/\\nHost: x`[%s]\\ntest t { r() }" % asserts, "t", "-n", "800", "-t", "8")
    lines = out.splitlines()
    check(len(lines) == 800 * 32, len(lines))
    for i in range(0, len(lines), 32):
        check(lines[i].startswith("=== TEST") and lines[i + 31].startswith("--- ") and not any(l.startswith(("===", "---")) for l in lines[i + 1:i + 31]), lines[i:i + 32])
''')
bug('b-stop-drops','T06','a duration that ends while a request is under way',
 'the iteration under way when the run is stopped is neither reported nor recorded',
 [(CM,"""                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)""","""                                if !continuous.load(Ordering::Relaxed) {
                                    break;
                                }
                                let records = context.records();
                                records.iter().for_each(|record| println!("{}", record));
                                if let Some(ref mut writer) = writer {
                                    writer.write(&records, &name, thread, number)""")],
 '''
def slow(i, r, c):
    time.sleep(0.7)
    return OK
s = Server(slow)
rc, out, err = suite("request r `GET %s/\\nHost: x`\\ntest t { r() }" % s.url, "t", "-d", "1s")
check(out.count("--- PASS") == len(s.requests), out, len(s.requests))
''')
bug('b-writer-buffered','T06','a run killed after several iterations were completed',
 'record files are buffered, so a kill loses iterations that were completed long ago',
 [(CM,"use std::fs::File;\n","use std::fs::File;\nuse std::io::BufWriter;\n"),
  (CM,"fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<File>> {","fn writer(path: Option<&PathBuf>, thread: u32) -> Option<Writer<BufWriter<File>>> {"),
  (CM,"        Writer::new(file)","        Writer::new(BufWriter::new(file))")],
 '''
go = threading.Event()
def reply(i, r, c):
    if i == 5:
        go.set()
        time.sleep(60)
    return OK
s = Server(reply)
open(DIR + "/s.fan", "w").write("request r `GET %s/\\nHost: x`\\ntest t { r() }" % s.url)
p = subprocess.Popen([BIN, "test", "t", "-n", "10", "-r", DIR, "-p", DIR + "/s.fan"], stdout=subprocess.DEVNULL)
check(go.wait(60))
p.kill(); p.wait()
rows = decode(DIR + "/000000")
check(len(rows) == 5, len(rows))
''')
bug('b-files-before-dirs','T07','a suite with a directory whose name sorts before a file beside it',
 'the files of a directory are read before its subdirectories instead of in name order',
 [(CM,"        entries.sort();","        entries.sort_by_key(|path| (path.is_dir(), path.to_owned()));")],
 '''
os.makedirs(DIR + "/p/a")
open(DIR + "/p/a/x.fan", "w").write('let v = "first"')
open(DIR + "/p/b.fan", "w").write('println(v)\\ntest t { println(v) }')
rc, out, err = run("test", "t", "-p", DIR + "/p")
check(out.split() == ["first", "first"], out)
''')
bug('b-eval-rollback','T08','a line of a session that binds a variable and then fails',
 'the bindings a line made before it failed are undone',
 [(CM,"""                Err(error) => println!("{}", error),
            }
        }
        Err(error) => println!("{}", error),
    }
    context
}""","""                Err(error) => {
                    println!("{}", error);
                    return origin;
                }
            }
        }
        Err(error) => println!("{}", error),
    }
    context
}"""),(CM,"            context.extend(requests);\n            match eval_block(&exprs, &mut context) {\n                Ok(value) => {","            context.extend(requests);\n            // a line that fails changes nothing\n            let origin = context.clone();\n            match eval_block(&exprs, &mut context) {\n                Ok(value) => {")],
 '''
rc, out, err = run(input=b"let a = 1\\nlet a = 2; missing\\na\\n")
check(out.splitlines()[-1] == "2", out)
''')
bug('b-duration-trim','T09','a duration with a blank between its number and its unit',
 'durations with blanks are accepted instead of refused',
 [(MA,"    let value = match chars.as_str().parse::<u64>() {","    let value = match chars.as_str().trim().parse::<u64>() {")],
 '''
rc, out, err = suite("test t { println(1) }", "t", "-d", "1 s")
check(rc != 0 and out == "", rc, out)
''')
