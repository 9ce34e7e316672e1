//! H04, H07-H10: where a request goes, and what happens on the way.

use crate::cli;
use crate::ensure;
use crate::fw::{clip, Obs, Outcome, Part, Property, Scratch, Tier};
use crate::gen::any_text;
use crate::model::{same, V};
use crate::net::{self, Act, Got, Reach, Rec, Script};
use crate::props::request_props::ok_response;
use crate::props::response_props::{is_failure, same_response};
use crate::run;
use crate::tls;
use crate::wire::{self, show};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------- H04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Target {
    scheme: String,
    host: String,
    port: Option<String>,
    path: Option<String>,
    query: Option<String>,
    fragment: Option<String>,
    method: String,
    version: bool,
}

impl Target {
    fn url(&self) -> String {
        let mut u = format!("{}://{}", self.scheme, self.host);
        if let Some(p) = &self.port {
            u.push_str(&format!(":{}", p));
        }
        if let Some(p) = &self.path {
            u.push_str(&format!("/{}", p));
        }
        if let Some(q) = &self.query {
            u.push_str(&format!("?{}", q));
        }
        if let Some(f) = &self.fragment {
            u.push_str(&format!("#{}", f));
        }
        u
    }
    fn tls(&self) -> bool {
        self.scheme.eq_ignore_ascii_case("https")
    }
    fn port(&self) -> u16 {
        match self.port.as_deref() {
            None | Some("") => {
                if self.tls() {
                    443
                } else {
                    80
                }
            }
            Some(p) => p.parse().expect("port"),
        }
    }
    fn target(&self) -> String {
        let query = self.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default();
        format!("/{}{}", self.path.as_deref().unwrap_or(""), query)
    }
}

/// Scheme, host, port, and target of an absolute URL, by RFC 3986.
fn split_url(u: &str) -> Option<(String, String, u16, String)> {
    let (scheme, rest) = u.split_once("://")?;
    let scheme = scheme.to_ascii_lowercase();
    let end = rest.find(['/', '?', '#']).unwrap_or(rest.len());
    let (authority, tail) = rest.split_at(end);
    let (host, port) = match authority.split_once(':') {
        Some((h, p)) => (h, p),
        None => (authority, ""),
    };
    let port = match (port, scheme.as_str()) {
        ("", "https") => 443,
        ("", _) => 80,
        (p, _) => p.parse().ok()?,
    };
    let tail = tail.split('#').next().unwrap_or("");
    let tail = if tail.starts_with('/') { tail.to_string() } else { format!("/{}", tail) };
    Some((scheme, host.to_string(), port, tail))
}

fn url_piece() -> BoxedStrategy<String> {
    let plain = any_text(10).prop_map(|s| s.chars().filter(|c| !c.is_whitespace() && !c.is_control() && !"#?{}`".contains(*c)).collect::<String>());
    let tricky = select(vec![
        "http://evil.test/", "https://evil.test:81/x", "://", "//", "//evil.test", ":8080", ":", "@evil.test", "a@b", "user:pw@evil.test", "..", ".", "./", "a/b/c", "%2F", "%20", "%", "a=b&c=d", "127.0.0.1:81", "\\evil", "é", "中文", ";v=1", "[::1]", "443", "80", "HTTP/1.1",
    ])
    .prop_map(String::from);
    vec(prop_oneof![1 => plain, 2 => tricky, 1 => "[a-z]{1,6}"], 0..4).prop_map(|v| v.concat()).boxed()
}

const DECOYS: [&str; 6] = ["evil.test", "localhost", "http", "https", "a.test", "b"];
const TLS_IPS: [&str; 5] = ["10.1.2.3", "10.1.2.4", "198.51.100.9", "203.0.113.250", "127.0.0.1"];

fn target() -> BoxedStrategy<Target> {
    let case = |s: &'static str| vec(any::<bool>(), s.len()).prop_map(move |v| s.chars().zip(v).map(|(c, up)| if up { c.to_ascii_uppercase() } else { c }).collect::<String>());
    let scheme = prop_oneof![
        3 => Just("http".to_string()),
        3 => Just("https".to_string()),
        1 => case("http"),
        2 => case("https"),
    ];
    let label = prop_oneof![3 => "[a-z][a-z0-9]{0,8}", 1 => "[A-Za-z0-9][A-Za-z0-9-]{0,20}[a-zA-Z0-9]", 1 => "[a-z]{50,60}"];
    let http_host = prop_oneof![
        2 => label.clone(),
        4 => vec(label.clone(), 2..4).prop_map(|v| v.join(".")),
        1 => select(vec!["localhost", "http", "https", "a", "Host.Test", "x_y.test", "1.2.3", "127.1", "evil.test.", "com"]).prop_map(String::from),
        2 => any::<u32>().prop_map(|i| Ipv4Addr::from(i | 0x0100_0000).to_string()),
        1 => select(TLS_IPS.to_vec()).prop_map(String::from),
    ]
    // what looks like a number is no name
    .prop_filter("a name", |h| h.parse::<Ipv4Addr>().is_ok() || h.chars().any(|c| c.is_ascii_alphabetic()) || h.len() < 6);
    let tls_host = prop_oneof![
        4 => label.prop_filter("a label", |l| l.len() <= 63 && l.chars().any(|c| c.is_ascii_alphabetic())).prop_map(|l| format!("{}.any.test", l)),
        1 => select(TLS_IPS.to_vec()).prop_map(String::from),
        1 => Just("UPPER.Any.TEST".to_string()),
    ];
    let port = prop_oneof![
        3 => Just(None),
        2 => select(vec!["80", "443", "8080", "1", "65535", "81", "8443", ""]).prop_map(|p| Some(p.to_string())),
        2 => (1u16..).prop_map(|p| Some(p.to_string())),
        1 => (1u16.., 1usize..8).prop_map(|(p, zeros)| Some(format!("{}{}", "0".repeat(zeros), p))),
    ];
    let long = || (1usize..3000, select(vec!["p", "a/", "x=1&", "é"])).prop_map(|(n, s)| s.repeat(n)).boxed();
    let path = prop_oneof![40 => Just(None), 20 => Just(Some(String::new())), 100 => url_piece().prop_map(Some), 2 => long().prop_map(Some)];
    let query = prop_oneof![120 => Just(None), 3 => long().prop_map(Some), 80 => (url_piece(), any::<bool>()).prop_map(|(q, two)| Some(if two { format!("{}?{}", q, q) } else { q }))];
    let fragment = prop_oneof![4 => Just(None), 1 => url_piece().prop_map(Some), 1 => (url_piece(), url_piece()).prop_map(|(a, b)| Some(format!("{}?{}", a, b)))];
    (scheme, http_host, tls_host, port, (path, query, fragment), select(vec!["GET", "POST", "HEAD", "OPTIONS"]), any::<bool>())
        .prop_map(|(scheme, http_host, tls_host, port, (path, query, fragment), method, version)| Target {
            host: if scheme.eq_ignore_ascii_case("https") { tls_host } else { http_host },
            scheme,
            port,
            path,
            query,
            fragment,
            method: method.to_string(),
            version,
        })
        .boxed()
}

fn check_targets(c: &Vec<Target>, obs: &mut Obs) -> Outcome {
    let here = net::own_addr();
    let to = || Reach::Accept { to: here, delay_ms: 0 };
    let mut names: Vec<(String, Vec<IpAddr>)> = Vec::new();
    let mut hosts = Vec::new();
    let mut address = |host: &str, i: usize| -> IpAddr {
        let ip = match host.parse::<Ipv4Addr>() {
            Ok(ip) => IpAddr::V4(ip),
            Err(_) => {
                let lower = host.to_ascii_lowercase();
                match names.iter().find(|(n, _)| *n == lower) {
                    Some((_, ips)) => ips[0],
                    None => {
                        let ip = IpAddr::V4(Ipv4Addr::new(172, 20, 0, i as u8));
                        names.push((lower, vec![ip]));
                        ip
                    }
                }
            }
        };
        hosts.push((ip, to()));
        ip
    };
    let ips: Vec<IpAddr> = c.iter().enumerate().map(|(i, t)| address(&t.host, i)).collect();
    for (i, d) in DECOYS.iter().enumerate() {
        address(d, 100 + i);
    }
    net::set_world(names, hosts, 0);
    obs.nontrivial_if(c.iter().any(|t| t.path.as_ref().is_some_and(|p| !p.is_empty()) || t.query.is_some() || t.port.is_some() || t.fragment.is_some()));
    obs.sample(c.iter().map(|t| t.url()).collect::<Vec<_>>().join("  "));
    for t in c {
        obs.label(if t.tls() { "https" } else { "http" });
        if t.port.is_none() {
            obs.label("no port");
        }
        if t.host.parse::<Ipv4Addr>().is_ok() {
            obs.label("IPv4 address");
        }
    }
    let scripts = c
        .iter()
        .map(|t| match t.tls() {
            true => Script::reply(ok_response()).tls(tls::server("any", t.url().len() % 2 == 0)),
            false => Script::reply(ok_response()),
        })
        .collect();
    let program = |_: &str| {
        let mut p = String::new();
        for (i, t) in c.iter().enumerate() {
            p.push_str(&format!("request r{} `{} {}{}`;\n", i, t.method, t.url(), if t.version { " HTTP/1.1" } else { "" }));
        }
        for i in 0..c.len() {
            p.push_str(&format!("r{}();\n", i));
        }
        p
    };
    let got = net::play(scripts, &program);
    net::set_world(vec![], vec![], 0);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    let tell = || format!("looked up {:?}, connected to {:?}", got.lookups, got.connects);
    ensure!(got.records.len() == c.len(), "{} records for {} requests", got.records.len(), c.len());
    let mut lookups: Vec<String> = got.lookups.iter().map(|l| l.to_ascii_lowercase()).filter(|l| l.parse::<Ipv4Addr>().is_err()).collect();
    lookups.dedup();
    let mut expected: Vec<String> = c.iter().map(|t| t.host.to_ascii_lowercase()).filter(|l| l.parse::<Ipv4Addr>().is_err()).collect();
    expected.dedup();
    ensure!(lookups == expected, "names looked up: {:?}, expected {:?}", lookups, expected);
    let connects: Vec<SocketAddr> = got.connects.iter().map(|(a, _)| *a).collect();
    let expected: Vec<SocketAddr> = c.iter().zip(&ips).map(|(t, ip)| SocketAddr::new(*ip, t.port())).collect();
    ensure!(connects == expected, "connections to {:?}, expected {:?}", connects, expected);
    ensure!(got.conns.len() == c.len() && got.unexpected == 0, "{} connections; {}", got.conns.len() + got.unexpected, tell());
    for ((t, conn), r) in c.iter().zip(&got.conns).zip(&got.records) {
        if t.tls() {
            ensure!(conn.handshake, "no TLS handshake with {}: {:?}, first bytes {:?}, record error {:?}", t.url(), conn.tls_error, show(&conn.raw), r.error);
            ensure!(!conn.raw.windows(5).any(|w| w == b"HTTP/"), "{} was requested in clear", t.url());
        }
        let w = wire::request(&conn.bytes).map_err(|e| format!("{} for {}", e, t.url()))?;
        ensure!(w.target == t.target(), "{} requested {:?}, expected {:?}", t.url(), w.target, t.target());
        ensure!(w.method == t.method, "method {:?} for {}", w.method, t.url());
        ensure!(r.error.is_empty() && r.response.status == 200, "{} failed: {:?}", t.url(), r.error);
        let scheme = t.scheme.to_ascii_lowercase();
        ensure!(r.scheme.to_ascii_lowercase() == scheme && r.host.eq_ignore_ascii_case(&t.host) && r.port == t.port(), "the record of {} has {:?} {:?} {}", t.url(), r.scheme, r.host, r.port);
        let again = split_url(&r.url).ok_or_else(|| format!("the record of {} has the URL {:?}", t.url(), r.url))?;
        ensure!(
            again.0 == scheme && again.1.eq_ignore_ascii_case(&t.host) && again.2 == t.port() && again.3 == t.target(),
            "the record of {} has the URL {:?}",
            t.url(),
            r.url
        );
        ensure!(r.path.split('#').next() == Some(t.target().as_str()), "the record of {} has the path {:?}", t.url(), r.path);
    }
    Ok(())
}

pub fn h04() -> Property {
    Property {
        id: "H04",
        parts: vec![Part::new(
            "targets",
            "one to three requests with any scheme case, name or IPv4 address, port or none, path, query and fragment (with separators of other places in them) in one session; names looked up, addresses and ports connected to, protocol spoken, target received and URL recorded; every name and address of the case and decoys lead to the same server; non-trivial: a port, path, query or fragment",
            (16_000, 300_000),
            |_| vec(target(), 1..4).boxed(),
            check_targets,
        )
        .shrink(1500)
        .boxed()],
        known: vec![],
        assumptions: vec!["hosts are names or IPv4 addresses, without user information"],
    }
}

// ---------------------------------------------------------------- H07

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    /// a good response with this body
    Good(String),
    GoodTls(String),
    Refused,
    Unreachable,
    UnknownHost,
    NoAddress,
    BadHost,
    /// accepted and closed before anything is read; with a reset?
    CloseAtOnce(bool),
    /// the request is read, then this many per mille of the head are sent, and it is closed or reset
    CutHead(u16, bool),
    CutHeadTls(u16, bool),
    /// a chunked body that is cut
    CutChunks(u16),
    Garbage(String),
    GarbageTls(String),
    /// https to a server that answers in clear
    Clear,
    ClearCut(u16),
    BadCertificate(String),
}

impl Fault {
    fn good(&self) -> Option<&str> {
        match self {
            Fault::Good(b) | Fault::GoodTls(b) => Some(b),
            _ => None,
        }
    }
}

const HEAD: &str = "HTTP/1.1 200 OK\r\nX-A: 1\r\nContent-Type: application/json\r\n\r\n";

fn good_body() -> BoxedStrategy<String> {
    prop_oneof![
        select(vec!["", "x", "{\"a\": 1}", "{\"a\": 2, \"b\": [1]}", "[1]", "ok", "{\"a\": 1", "secret-of-an-earlier-response"]).prop_map(String::from),
        any_text(12).prop_map(|s| s.replace(['\r', '\n'], " ")),
    ]
    .boxed()
}

fn garbage() -> BoxedStrategy<String> {
    select(vec!["", "\r\n\r\n", "hello", "SSH-2.0-x\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "220 250 OK\r\n\r\nbody", "HTTP/1.1 20 OK\r\n\r\n", "HTTP/1.1 200 OK", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nX: 1", "<html>\r\n\r\n", "\0\0\0"]).prop_map(String::from).boxed()
}

fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        6 => good_body().prop_map(Fault::Good),
        2 => good_body().prop_map(Fault::GoodTls),
        1 => Just(Fault::Refused),
        1 => Just(Fault::Unreachable),
        1 => Just(Fault::UnknownHost),
        1 => Just(Fault::NoAddress),
        1 => Just(Fault::BadHost),
        1 => any::<bool>().prop_map(Fault::CloseAtOnce),
        4 => (0u16..1000, any::<bool>()).prop_map(|(a, r)| Fault::CutHead(a, r)),
        2 => (0u16..1000, any::<bool>()).prop_map(|(a, r)| Fault::CutHeadTls(a, r)),
        1 => (0u16..1000).prop_map(Fault::CutChunks),
        1 => garbage().prop_map(Fault::Garbage),
        1 => garbage().prop_map(Fault::GarbageTls),
        1 => Just(Fault::Clear),
        1 => (0u16..1000).prop_map(Fault::ClearCut),
        1 => select(vec!["expired", "future", "untrusted", "forged", "selfsigned", "wild"]).prop_map(|c| Fault::BadCertificate(c.to_string())),
    ]
    .boxed()
}

fn end(reset: bool) -> Act {
    if reset {
        Act::Reset
    } else {
        Act::Finish
    }
}

/// The part of the message, never all of it.
fn cut(b: &[u8], at: u16) -> Vec<u8> {
    b[..b.len() * at as usize / 1000].to_vec()
}

const CHUNKED: &str = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
const CHUNKS: &str = "5\r\nhello\r\n10\r\n0123456789abcdef\r\n0\r\n\r\n";

/// URL of the step ({at} the server's address, {port} its port), and the server's part, if it takes any.
fn stage(f: &Fault, i: usize) -> (String, Option<Script>) {
    let good = |b: &str| format!("{}{}", HEAD, b).into_bytes();
    let secure = |acts: Vec<Act>, cert: &str| Some(Script::new(acts).tls(tls::server(cert, i % 2 == 0)));
    let http = format!("http://up.test:{{port}}/p{}", i);
    let https = format!("https://a.test:{{port}}/p{}", i);
    match f {
        Fault::Good(b) => (http, Some(Script::reply(good(b)))),
        Fault::GoodTls(b) => (https, secure(vec![Act::ReadRequest, Act::Send(good(b))], "good")),
        Fault::Refused => ("http://refused.test/x".into(), None),
        Fault::Unreachable => ("http://unreachable.test/x".into(), None),
        Fault::UnknownHost => ("http://nosuch.test/x".into(), None),
        Fault::NoAddress => ("http://noaddress.test/x".into(), None),
        Fault::BadHost => (["https://bad..host/x", "https://:443/", "https://a b/"][i % 2].to_string(), None),
        Fault::CloseAtOnce(r) => (http, Some(Script::new(vec![if *r { Act::Reset } else { Act::Close }]))),
        Fault::CutHead(a, r) => (http, Some(Script::new(vec![Act::ReadRequest, Act::Send(cut(HEAD.as_bytes(), *a)), end(*r)]))),
        Fault::CutHeadTls(a, r) => (https, secure(vec![Act::ReadRequest, Act::Send(cut(HEAD.as_bytes(), *a)), end(*r)], "good")),
        Fault::CutChunks(a) => {
            // at least one byte of the body, and not its last chunk
            let n = 1 + (CHUNKS.len() - 6) * *a as usize / 1000;
            (http, Some(Script::reply(format!("{}{}", CHUNKED, &CHUNKS[..n]).into_bytes())))
        }
        Fault::Garbage(g) => (http, Some(Script::reply(g.clone().into_bytes()))),
        Fault::GarbageTls(g) => (https, secure(vec![Act::ReadRequest, Act::Send(g.clone().into_bytes())], "good")),
        Fault::Clear => (https, Some(Script::new(vec![Act::ReadTotal(5), Act::Send(good("clear"))]))),
        Fault::ClearCut(a) => (https, Some(Script::new(vec![Act::ReadTotal(5), Act::Send(cut(b"\x16\x03\x03\x00\x7a\x02\x00\x00\x76\x03\x03", *a))]))),
        Fault::BadCertificate(c) => (https, secure(vec![Act::ReadRequest, Act::Send(good("untrusted"))], c)),
    }
}

fn faulty_world() {
    let here = net::own_addr();
    let ip = |n| IpAddr::V4(Ipv4Addr::new(172, 20, 1, n));
    net::set_world(
        vec![
            ("up.test".into(), vec![ip(1)]),
            ("a.test".into(), vec![ip(2)]),
            ("refused.test".into(), vec![ip(3)]),
            ("unreachable.test".into(), vec![ip(4)]),
            ("noaddress.test".into(), vec![]),
        ],
        vec![(ip(1), Reach::Accept { to: here, delay_ms: 0 }), (ip(2), Reach::Accept { to: here, delay_ms: 0 }), (ip(3), Reach::Refuse { delay_ms: 0 })],
        0,
    );
}

fn nothing(v: Option<&V>) -> bool {
    match v {
        None | Some(V::Null) | Some(V::Int(0)) => true,
        Some(V::Str(s)) => s.is_empty(),
        Some(V::Map(m)) => m.is_empty(),
        Some(V::Arr(a)) => a.is_empty(),
        _ => false,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faults {
    steps: Vec<Fault>,
    /// bindings between the requests
    lets: Vec<bool>,
    /// a body sent with the requests
    body: u32,
}

/// The record and value of one step.
fn check_step(f: &Fault, r: &Rec, value: Option<&V>) -> Outcome {
    let member = |n: &str| match value {
        Some(V::Map(m)) => m.get(n),
        _ => None,
    };
    ensure!(matches!(value, Some(V::Map(_))), "the call gives {:?}", value);
    match f.good() {
        Some(body) => {
            ensure!(r.error.is_empty(), "error {:?} for a complete response", r.error);
            ensure!(r.response.status == 200 && r.response.body == body && r.response.reason == "OK" && r.response.headers.len() == 2, "response {:?}, sent body {:?}", r.response, body);
            ensure!(member("body").is_some_and(|v| same(v, &V::Str(body.to_string()))), "the call gives {:?}", value);
            ensure!(r.asserts.len() == 4, "assertions {:?}", r.asserts);
            let a = body == "{\"a\": 1}";
            let expected = [true, body == "x", a, true];
            for (a, e) in r.asserts.iter().zip(expected) {
                ensure!(a.4 == e, "assertion {:?} with body {:?}", a, body);
            }
            let verdict = expected.iter().all(|x| *x);
            ensure!(r.display.contains("--- PASS") == verdict && r.display.contains("--- FAIL") != verdict, "report {:?}", r.display);
            Ok(())
        }
        None => {
            is_failure(r)?;
            for n in ["status", "version", "reason", "body", "headers", "json"] {
                ensure!(nothing(member(n)), "after a failure the call gives {} {:?}", n, member(n));
            }
            for a in &r.asserts {
                ensure!(["null", "", "0"].contains(&a.1.as_str()), "after a failure an assertion sees {:?}", a);
            }
            Ok(())
        }
    }
}

fn check_faults(c: &Faults, obs: &mut Obs) -> Outcome {
    faulty_world();
    let bad = c.steps.iter().filter(|f| f.good().is_none()).count();
    obs.nontrivial_if(bad > 0 && c.steps.len() > bad);
    obs.sample(clip(&format!("{:?}", c.steps), 400));
    for f in &c.steps {
        obs.label(format!("{:?}", f).split(['(', ' ']).next().unwrap_or("").to_string());
    }
    let staged: Vec<(String, Option<Script>)> = c.steps.iter().enumerate().map(|(i, f)| stage(f, i)).collect();
    let port = net::own_addr().port().to_string();
    let program = |_: &str| {
        let method = if c.body > 0 { "POST" } else { "GET" };
        let mut p = format!(
            "let n = 0;\nlet keep = \"k\";\nrequest r `{} {{u}}\nX-N: {{n}}\n\n{}`[status == 200, body == \"x\", json.a == 1, headers[\"X-A\"][0] == \"1\"];\n",
            method,
            "b".repeat(c.body as usize)
        );
        for (i, (url, _)) in staged.iter().enumerate() {
            p.push_str(&format!("let u = \"{}\";\nlet v{} = r();\n", url.replace("{port}", &port), i));
            if c.lets.get(i).copied().unwrap_or(false) {
                p.push_str("let n = n + 1;\n");
            }
        }
        p.push_str("let last = format(\"{n}-{keep}\", n, keep);");
        p
    };
    let got = net::play(staged.iter().filter_map(|(_, s)| s.clone()).collect(), &program);
    net::set_world(vec![], vec![], 0);
    ensure!(got.error.is_none(), "the program stopped: {:?}", got.error);
    let n = (0..c.steps.len()).filter(|i| c.lets.get(*i).copied().unwrap_or(false)).count();
    let last = run::get(&got.context, "last");
    ensure!(last.as_ref().is_some_and(|v| same(v, &V::Str(format!("{}-k", n)))), "the statements between gave {:?}, expected {:?}", last, format!("{}-k", n));
    ensure!(got.records.len() == c.steps.len(), "{} records for {} requests", got.records.len(), c.steps.len());
    ensure!(got.unexpected == 0, "{} connections too many", got.unexpected);
    let expected = staged.iter().filter(|(_, s)| s.is_some()).count();
    ensure!(got.conns.len() == expected, "{} connections, expected {}", got.conns.len(), expected);
    for (i, (f, r)) in c.steps.iter().zip(&got.records).enumerate() {
        let v = run::get(&got.context, &format!("v{}", i));
        check_step(f, r, v.as_ref()).map_err(|e| format!("request {} ({:?}): {}", i, f, e))?;
        ensure!(r.url.ends_with(&format!("/p{}", i)) || staged[i].1.is_none(), "record {} is of {:?}", i, r.url);
    }
    // every good request arrived, with the variables of its moment
    let mut k = 0;
    let mut n = 0;
    for (i, f) in c.steps.iter().enumerate() {
        if let Some(script) = &staged[i].1 {
            if f.good().is_some() {
                let w = wire::request(&got.conns[k].bytes).map_err(|e| format!("request {}: {}", i, e))?;
                ensure!(w.target == format!("/p{}", i) && w.values("x-n") == [n.to_string()] && w.body.len() == c.body as usize, "request {} is {:?}", i, w);
            } else if script.tls.is_some() && matches!(f, Fault::BadCertificate(_)) {
                ensure!(got.conns[k].bytes.is_empty(), "a request to a server that is not trusted");
            }
            k += 1;
        }
        n += usize::from(c.lets.get(i).copied().unwrap_or(false));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cuts {
    status: u16,
    reason: String,
    headers: Vec<(String, String)>,
    tls: bool,
}

/// A head cut at every byte, closed and reset.
fn check_cuts(c: &Cuts, obs: &mut Obs) -> Outcome {
    faulty_world();
    let mut head = format!("HTTP/1.1 {} {}\r\n", c.status, c.reason);
    for (n, v) in &c.headers {
        head.push_str(&format!("{}: {}\r\n", n, v));
    }
    head.push_str("\r\n");
    obs.nontrivial();
    obs.sample(head.clone());
    let port = net::own_addr().port();
    for at in 0..=head.len() {
        for reset in [false, true] {
            if at == head.len() && reset {
                continue;
            }
            obs.extra += 1;
            let script = Script::new(vec![Act::ReadRequest, Act::Send(head.as_bytes()[..at].to_vec()), end(reset)]);
            let (script, url) = match c.tls {
                true => (script.tls(tls::server("good", at % 2 == 0)), format!("https://a.test:{}/", port)),
                false => (script, format!("http://up.test:{}/", port)),
            };
            let got = net::play(vec![script], &|_| format!("request r `GET {}`[status == {}];\nr();\nlet after = 1;", url, c.status));
            ensure!(got.error.is_none() && run::get(&got.context, "after").is_some(), "the program stopped: {:?}", got.error);
            ensure!(got.records.len() == 1, "{} records", got.records.len());
            let r = &got.records[0];
            match at < head.len() {
                true => is_failure(r).map_err(|e| format!("{} after {} of {} bytes of the head {:?}: {}", if reset { "reset" } else { "closed" }, at, head.len(), head, e))?,
                false => ensure!(r.error.is_empty() && r.response.status == c.status && r.display.contains("--- PASS"), "complete response: {:?}", r),
            }
        }
    }
    net::set_world(vec![], vec![], 0);
    Ok(())
}

/// The built command: a failing request between good ones, in tests and in top-level statements.
fn check_faults_cli(c: &Vec<Fault>, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("h07");
    obs.nontrivial_if(c.iter().any(|f| f.good().is_none()));
    obs.sample(clip(&format!("{:?}", c), 300));
    let staged: Vec<(String, Option<Script>)> = c.iter().enumerate().map(|(i, f)| stage(f, i)).collect();
    let scripts: Vec<Script> = staged.iter().filter_map(|(_, s)| s.clone()).collect();
    let count = scripts.len();
    let text = std::cell::RefCell::new(String::new());
    let (conns, unexpected) = net::serve_while(scripts, &|at| {
        let mut suite = "let i = 0;\n".to_string();
        for (i, (url, _)) in staged.iter().enumerate() {
            let url = url
                .replace("up.test:{port}", at)
                .replace("a.test:{port}", at)
                .replace("refused.test", "127.0.0.1:1")
                .replace("unreachable.test", "127.0.0.1:1")
                .replace("nosuch.test", &format!("{}.invalid", "x".repeat(70)))
                .replace("noaddress.test", "bad..name");
            suite.push_str(&format!("request r{} `GET {}`[status == 200];\n", i, url));
        }
        suite.push_str("test t {\n");
        for i in 0..staged.len() {
            suite.push_str(&format!("let i = i + 1;\nprintln(\"step\", i);\nr{}();\n", i));
        }
        suite.push_str("println(\"done\", i)\n}");
        let suite = suite.replace("println(\"step\", i)", "println(format(\"step {n}\", i))").replace("println(\"done\", i)", "println(format(\"done {n}\", i))");
        std::fs::write(dir.0.join("s.fan"), suite).expect("suite");
        let out = cli::run_in(&["test", "t"], b"", &[], Some(&dir.0));
        cli::sane(&out)?;
        ensure!(out.code == Some(0), "exit code {:?}", out.code);
        *text.borrow_mut() = out.text();
        Ok(())
    })?;
    let out = text.into_inner();
    ensure!(unexpected == 0 && conns.len() == count, "{} connections, expected {}", conns.len() + unexpected, count);
    for i in 1..=c.len() {
        ensure!(out.contains(&format!("step {}\n", i)), "no step {} in {:?}", i, out);
    }
    ensure!(out.contains(&format!("done {}\n", c.len())), "the test did not get to its end: {:?}", out);
    let verdicts: Vec<&str> = out.lines().filter(|l| l.starts_with("--- ")).map(|l| &l[4..8]).collect();
    let expected: Vec<&str> = c.iter().map(|f| if f.good().is_some() { "PASS" } else { "FAIL" }).collect();
    ensure!(verdicts == expected, "verdicts {:?}, expected {:?}; output {:?}", verdicts, expected, clip(&out, 1500));
    Ok(())
}

pub fn h07() -> Property {
    let sequences = Part::new(
        "sequences",
        "up to eight requests of one definition, each good or with one of fourteen kinds of fault, with bindings between; records, call values, assertions, verdicts, variables and requests received; non-trivial: both a fault and a good request",
        (8000, 200_000),
        |_| {
            (vec(fault(), 1..8), vec(any::<bool>(), 8), prop_oneof![3 => Just(0u32), 1 => 1u32..2000])
                .prop_map(|(steps, lets, body)| Faults { steps, lets, body })
                .boxed()
        },
        check_faults,
    );
    let cuts = Part::new(
        "cuts",
        "one response head per case, cut at every byte, closed and reset, plain and over TLS; non-trivial: all",
        (160, 4000),
        |_| {
            let header = ("[A-Z][a-z]{1,6}", "[a-z0-9:]{0,8}");
            (100u16..600, select(vec!["OK", "", "Not Found"]), vec(header, 0..3), prop_oneof![3 => Just(false), 1 => Just(true)])
                .prop_filter("a final response", |(s, ..)| *s >= 200)
                .prop_map(|(status, reason, headers, tls)| Cuts {
                    status,
                    reason: reason.to_string(),
                    headers: headers.into_iter().map(|(n, v)| (n, v.trim_matches(':').to_string())).collect(),
                    tls,
                })
                .boxed()
        },
        check_cuts,
    )
    .shrink(60);
    let command = Part::new(
        "command",
        "the built command with a test of good and failing requests: it reaches its end and reports PASS and FAIL in order; non-trivial: a fault",
        (400, 8000),
        // https over loopback addresses needs a certificate of its own; see H08
        |_| vec(fault().prop_filter("plain", |f| !matches!(f, Fault::GoodTls(_) | Fault::CutHeadTls(..) | Fault::GarbageTls(_))), 1..6).boxed(),
        check_faults_cli,
    )
    .shrink(200);
    Property {
        id: "H07",
        parts: vec![sequences.boxed(), cuts.boxed(), command.boxed()],
        known: vec![],
        assumptions: vec!["a fault inside a body framed by Content-Length or by the end of the connection is not one this property speaks of"],
    }
}

// ---------------------------------------------------------------- H08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secure {
    /// chain the server presents and the key it signs with
    chain: Vec<String>,
    key: String,
    host: String,
    valid: bool,
    v12: bool,
    body: u32,
    response: u32,
    recv_plan: Vec<u32>,
    send_plan: Vec<u32>,
    chunked: bool,
    /// how the server ends: in good order, or without a close notice
    upper: bool,
}

fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => Just(0u32),
        2 => 1u32..200,
        2 => (1i64..8, -120i64..120).prop_map(|(k, d)| (k * 16384 + d) as u32),
        1 => (1i64..5, -120i64..120).prop_map(|(k, d)| (k * 4096 + d) as u32),
        1 => 1u32..300_000,
    ]
    .boxed()
}

fn secure() -> BoxedStrategy<Secure> {
    const GOOD_HOSTS: [&str; 7] = ["a.test", "b.example.test", "localhost", "xn--bcher-kva.test", "long-name-0123456789.sub.domain.example.test", "127.0.0.1", "203.0.113.7"];
    let case = |chain: &[&str], key: &str, host: &str, valid: bool| (chain.iter().map(|s| s.to_string()).collect::<Vec<_>>(), key.to_string(), host.to_string(), valid);
    let good_host = || select(GOOD_HOSTS.to_vec());
    let kind = prop_oneof![
        5 => good_host().prop_map(move |h| case(&["good"], "good", h, true)),
        1 => select(vec!["x.wild.test", "y-1.wild.test", "a.wild.test"]).prop_map(move |h| case(&["wild"], "wild", h, true)),
        1 => good_host().prop_map(move |h| case(&["viainter", "inter"], "viainter", h, true)),
        1 => select(vec!["p.any.test", "10.1.2.3", "198.51.100.9"]).prop_map(move |h| case(&["any"], "any", h, true)),
        // wrong names
        2 => select(vec!["c.test", "example.test", "x.a.test", "a.test.evil.test", "test", "aa.test", "203.0.113.8", "127.0.0.2", "0.0.0.0", "example.b.test", "bb.example.test"]).prop_map(move |h| case(&["good"], "good", h, false)),
        // names with more, fewer or other labels than a good one
        2 => (select(vec!["a.test", "b.example.test", "localhost"]), "[a-z0-9]{1,5}", select(vec!["www", "m", "api", "ww", "www2", "mail", "sub"]), 0u8..6).prop_map(move |(h, r, w, how)| {
            let other = match how {
                0 => format!("{}.{}", w, h),
                1 => format!("{}.{}", r, h),
                2 => format!("{}{}", r, h),
                3 => format!("{}.{}", h, r),
                4 => format!("{}{}", h, r),
                _ => format!("{}.{}.{}", w, r, h),
            };
            let valid = GOOD_HOSTS.contains(&other.as_str());
            case(&["good"], "good", &other, valid)
        }),
        // a server of several names, which presents the certificate of the name it is asked for
        1 => select(GOOD_HOSTS[..5].to_vec()).prop_map(move |h| case(&["asked"], "good", h, true)),
        1 => select(vec!["www.a.test", "c.test", "example.test"]).prop_map(move |h| case(&["asked"], "good", h, false)),
        1 => select(vec!["wild.test", "a.b.wild.test", "xwild.test", "127.0.0.1", "a.test"]).prop_map(move |h| case(&["wild"], "wild", h, false)),
        1 => select(vec!["127.0.0.1", "203.0.113.9"]).prop_map(move |h| case(&["iptext"], "iptext", h, false)),
        // not valid now
        1 => good_host().prop_map(move |h| case(&["expired"], "expired", h, false)),
        1 => good_host().prop_map(move |h| case(&["future"], "future", h, false)),
        1 => good_host().prop_map(move |h| case(&["viaold", "oldinter"], "viaold", h, false)),
        // not issued by a root that is trusted
        1 => good_host().prop_map(move |h| case(&["untrusted", "other"], "untrusted", h, false)),
        1 => good_host().prop_map(move |h| case(&["untrusted"], "untrusted", h, false)),
        1 => good_host().prop_map(move |h| case(&["forged", "twin"], "forged", h, false)),
        1 => good_host().prop_map(move |h| case(&["forged"], "forged", h, false)),
        1 => good_host().prop_map(move |h| case(&["selfsigned"], "selfsigned", h, false)),
        1 => good_host().prop_map(move |h| case(&["viainter"], "viainter", h, false)),
        1 => good_host().prop_map(move |h| case(&["vialeaf", "good"], "vialeaf", h, false)),
        1 => good_host().prop_map(move |h| case(&["selfsigned", "good"], "selfsigned", h, false)),
        // a copy of the certificate, without its key
        2 => (good_host(), select(vec!["wild", "untrusted", "selfsigned"])).prop_map(move |(h, k)| case(&["good"], k, h, false)),
    ];
    let plan = || prop_oneof![3 => Just(vec![]), 1 => vec(1u32..20, 1..4), 2 => vec(prop_oneof![1u32..600, 1000u32..17_000], 1..5)];
    let large = || prop_oneof![60 => size(), 1 => (select(vec![1u32 << 20, 1_000_000, 3 << 20]), -3i32..4).prop_map(|(n, d)| (n as i32 + d) as u32)];
    (kind, any::<bool>(), large(), large(), (plan(), plan()), any::<bool>(), any::<bool>())
        .prop_map(|((chain, key, host, valid), v12, body, response, (mut recv_plan, mut send_plan), chunked, upper)| {
            if body.max(response) > 20_000 {
                let least = if body.max(response) > 500_000 { 2000 } else { 60 };
                recv_plan.iter_mut().chain(send_plan.iter_mut()).for_each(|n| *n = (*n).max(least));
            }
            Secure {
                chain,
                key,
                host,
                valid,
                v12,
                body,
                response,
                recv_plan,
                send_plan,
                chunked,
                upper,
            }
        })
        .boxed()
}

const MARK: &str = "tell-no-one";

fn pattern(n: usize) -> String {
    // every offset can be told from its neighbours
    let mut s = String::with_capacity(n + 8);
    let mut i = 0usize;
    while s.len() < n {
        s.push_str(&format!("{:x}.", i * 7919));
        i += 1;
    }
    s.truncate(n);
    s
}

fn contains(b: &[u8], t: &str) -> bool {
    b.windows(t.len()).any(|w| w == t.as_bytes())
}

fn check_secure(c: &Secure, obs: &mut Obs) -> Outcome {
    let here = net::own_addr();
    let to = Reach::Accept { to: here, delay_ms: 0 };
    let ip: IpAddr = c.host.parse().unwrap_or(IpAddr::V4(Ipv4Addr::new(172, 20, 2, 1)));
    net::set_world(vec![(c.host.clone(), vec![ip])], vec![(ip, to)], 0);
    obs.nontrivial_if(!c.valid || c.body > 0 || c.response > 0);
    obs.label(if c.valid { "valid" } else { "not valid" });
    obs.label(c.chain.join("+"));
    obs.label(if c.v12 { "TLS 1.2" } else { "TLS 1.3" });
    obs.sample(format!("{:?}", c));
    let body = pattern(c.response as usize);
    let response = match c.chunked {
        true => {
            let mut r = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_string();
            for part in body.as_bytes().chunks(9000) {
                r.push_str(&format!("{:x}\r\n{}\r\n", part.len(), String::from_utf8_lossy(part)));
            }
            r.push_str("0\r\n\r\n");
            r
        }
        false => format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", body.len(), body),
    };
    let host = if c.upper { c.host.to_ascii_uppercase() } else { c.host.clone() };
    let template = |scheme: &str| {
        let method = if c.body > 0 { "POST" } else { "GET" };
        format!("{} {}://{}:{}/{}?q={}\nHost: {}\nX-Secret: {}\n\n{}", method, scheme, host, here.port(), MARK, MARK, c.host, MARK, if c.body > 0 { format!("{} {}", MARK, pattern(c.body as usize)) } else { String::new() })
    };
    let chain: Vec<&str> = c.chain.iter().map(String::as_str).collect();
    let config = tls::server_with(&chain, &c.key, c.v12);
    net::plan_recv(&c.recv_plan);
    net::plan_send(&c.send_plan);
    let got = net::exchange(Script::reply(response.clone().into_bytes()).tls(config), &template("https"), "status == 200", &[]);
    net::plan_recv(&[]);
    net::plan_send(&[]);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    ensure!(got.records.len() == 1, "{} records", got.records.len());
    let r = &got.records[0];
    for conn in &got.conns {
        ensure!(!contains(&conn.raw, MARK) && !contains(&conn.raw, "HTTP/1"), "a part of the request was sent in clear: {:?}", show(&conn.raw));
        ensure!(conn.raw.is_empty() || conn.raw[0] == 0x16, "the first byte is no TLS handshake: {:?}", show(&conn.raw));
    }
    ensure!(got.unexpected == 0 && got.conns.len() <= 1, "{} connections", got.conns.len() + got.unexpected);
    if !c.valid {
        for conn in &got.conns {
            ensure!(conn.bytes.is_empty(), "the request was delivered to a server without a valid certificate ({:?}, host {}): {:?}", c.chain, host, show(&conn.bytes));
        }
        return is_failure(r).map_err(|e| format!("certificate {:?} signed with {}, host {}: {}", c.chain, c.key, host, e));
    }
    ensure!(got.conns.len() == 1 && got.conns[0].handshake, "no TLS connection to a server with a valid certificate ({:?}, host {}): {:?}; {:?}", c.chain, host, r.error, got.conns);
    let headers = match c.chunked {
        true => vec![("Transfer-Encoding".to_string(), "chunked".to_string())],
        false => vec![("Content-Length".to_string(), body.len().to_string())],
    };
    same_response(&got, r, "HTTP/1.1", 200, "OK", &headers, &body)?;
    ensure!(r.display.contains("--- PASS"), "report {:?}", r.display);
    // the same in clear
    let plain = net::exchange(Script::reply(response.into_bytes()), &template("http"), "status == 200", &[]);
    net::set_world(vec![], vec![], 0);
    obs.extra += 1;
    ensure!(plain.conns.len() == 1, "{} connections in clear", plain.conns.len());
    let (a, b) = (&got.conns[0].bytes, &plain.conns[0].bytes);
    ensure!(a == b, "over TLS the request is {} bytes, in clear {}: {:?} / {:?}", a.len(), b.len(), show(a), show(b));
    Ok(())
}

/// The built command, which looks names up itself.
fn check_secure_cli(c: &Secure, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("h08");
    // only loopback addresses can be reached
    let valid = c.valid && ["good", "viainter", "any"].contains(&c.chain[0].as_str());
    obs.nontrivial();
    obs.label(if valid { "valid" } else { "not valid" });
    obs.sample(format!("{:?} {}", c.chain, valid));
    let body = pattern(c.response as usize);
    let response = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", body.len(), body);
    let chain: Vec<&str> = c.chain.iter().map(String::as_str).collect();
    let config = tls::server_with(&chain, &c.key, c.v12);
    let named = ["good", "viainter", "any", "expired", "future", "untrusted", "forged", "selfsigned", "viaold", "vialeaf"].contains(&chain[0]);
    let valid = valid && named;
    let text = std::cell::RefCell::new(String::new());
    let (conns, unexpected) = net::serve_while(vec![Script::reply(response.clone().into_bytes()).tls(config)], &|at| {
        let suite = format!("request r `GET https://{}/{}`[status == 200, length(body) == {}];\ntest t {{ r() }}", at, MARK, body.len());
        std::fs::write(dir.0.join("s.fan"), suite).expect("suite");
        let out = cli::run_in(&["test", "t"], b"", &[], Some(&dir.0));
        cli::sane(&out)?;
        *text.borrow_mut() = out.text();
        Ok(())
    })?;
    let out = text.into_inner();
    ensure!(unexpected == 0 && conns.len() <= 1, "{} connections", conns.len() + unexpected);
    for conn in &conns {
        ensure!(!contains(&conn.raw, MARK), "the request was sent in clear: {:?}", show(&conn.raw));
        ensure!(valid || conn.bytes.is_empty(), "the request was delivered to a server without a valid certificate ({:?})", c.chain);
    }
    ensure!(out.contains("--- PASS") == valid && out.contains("--- FAIL") != valid, "certificate {:?}: {:?}", c.chain, out);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    v12: bool,
    body: u32,
    response: u32,
    chunked: bool,
    recv_plan: Vec<u32>,
    /// which byte of the contents of the records the client receives
    at: u32,
    bits: u8,
}

fn damaged() -> BoxedStrategy<Damaged> {
    let plan = prop_oneof![2 => Just(vec![]), 1 => vec(100u32..5000, 1..4)];
    let body = prop_oneof![3 => Just(0u32), 1 => 1u32..3000];
    (any::<bool>(), body, prop_oneof![2 => 0u32..300, 2 => 300u32..20_000, 1 => 20_000u32..80_000], any::<bool>(), plan, (prop_oneof![1 => Just(false), 50 => Just(true)], any::<u16>()), 1u8..)
        .prop_map(|(v12, body, response, chunked, recv_plan, (late, at), bits)| {
            // the handshake takes less than 1 kB
            let at = if late { 730 + (response + 250) as u64 * at as u64 / 65_536 } else { at as u64 % 700 };
            Damaged {
                v12,
                body,
                response,
                chunked,
                recv_plan,
                at: at as u32,
                bits,
            }
        })
        .boxed()
}

/// What was changed on the way is not taken for what the server sent.
fn check_damaged(c: &Damaged, obs: &mut Obs) -> Outcome {
    let here = net::own_addr();
    let ip = IpAddr::V4(Ipv4Addr::new(172, 20, 2, 2));
    net::set_world(vec![("a.test".to_string(), vec![ip])], vec![(ip, Reach::Accept { to: here, delay_ms: 0 })], 0);
    let body = pattern(c.response as usize);
    let (headers, response) = match c.chunked {
        true => {
            let mut r = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_string();
            for part in body.as_bytes().chunks(5000) {
                r.push_str(&format!("{:x}\r\n{}\r\n", part.len(), String::from_utf8_lossy(part)));
            }
            r.push_str("0\r\n\r\n");
            (vec![("Transfer-Encoding".to_string(), "chunked".to_string())], r)
        }
        false => (vec![("X-A".to_string(), "1".to_string())], format!("HTTP/1.1 200 OK\r\nX-A: 1\r\n\r\n{}", body)),
    };
    let template = format!("POST https://a.test:{}/\n\n{}", here.port(), pattern(c.body as usize));
    net::plan_recv(&c.recv_plan);
    net::plan_damage(c.at as usize, c.bits);
    let got = net::exchange(Script::reply(response.into_bytes()).tls(tls::server_with(&["good"], "good", c.v12)), &template, "status == 200", &[]);
    let hit = net::end_damage();
    net::plan_recv(&[]);
    net::set_world(vec![], vec![], 0);
    obs.nontrivial_if(hit.is_some());
    obs.label(match hit {
        None => "nothing hit",
        Some(0x16) => "handshake hit",
        Some(0x17) => "data hit",
        Some(0x15) => "alert hit",
        Some(_) => "other record hit",
    });
    obs.sample(format!("{:?}", c));
    ensure!(got.error.is_none(), "error {:?}", got.error);
    ensure!(got.records.len() == 1, "{} records", got.records.len());
    let r = &got.records[0];
    let exact = same_response(&got, r, "HTTP/1.1", 200, "OK", &headers, &body);
    obs.label(if exact.is_ok() { "the response as sent" } else { "an error" });
    if hit.is_none() {
        return exact;
    }
    match (exact, is_failure(r)) {
        (Err(a), Err(b)) => Err(format!("a byte of the TLS stream was changed on the way, and the call neither failed nor gave the response that was sent: {}; {}", b, a)),
        _ => Ok(()),
    }
}

pub fn h08() -> Property {
    let damage = Part::new(
        "damage",
        "valid servers (TLS 1.2 and 1.3), responses up to 80 kB framed by chunks or by the end of the connection, and one byte of the contents of the TLS records changed on the way to the client, in the handshake or in the data: an error without response data, or exactly the response that was sent; non-trivial: a byte was changed",
        (3000, 40_000),
        |_| damaged(),
        check_damaged,
    )
    .shrink(200);
    let classes = Part::new(
        "certificates",
        "certificates of twenty classes (names, wildcards, addresses, intermediates, a server that chooses by the name it is asked for; wrong name and names alike, expired, not yet valid, unknown or forged issuer, self-signed, copied without its key) with TLS 1.2 and 1.3, requests and responses up to 300 kB (some 3 MiB) around record boundaries, in pieces of planned sizes; bytes in both directions, also against the same exchange in clear; non-trivial: not valid, or any body",
        (9000, 150_000),
        |_| secure(),
        check_secure,
    )
    .shrink(400);
    let command = Part::new(
        "command",
        "the built command against a TLS server on the loopback address with each certificate; non-trivial: all",
        (300, 6000),
        |_| {
            secure()
                .prop_map(|mut c| {
                    // a valid class is valid for the loopback address, every other one is not
                    c.host = "127.0.0.1".to_string();
                    if c.chain == ["good"] && c.key == "good" || c.chain == ["any"] || c.chain.len() == 2 && c.chain[0] == "viainter" {
                        c.valid = true;
                    } else {
                        c.valid = false;
                    }
                    c.response %= 40_000;
                    if c.chain == ["asked"] {
                        (c.chain, c.valid) = (vec!["good".to_string()], true);
                    }
                    c
                })
                .boxed()
        },
        check_secure_cli,
    )
    .shrink(60);
    Property {
        id: "H08",
        parts: vec![classes.boxed(), damage.boxed(), command.boxed()],
        known: vec![],
        assumptions: vec!["the trusted roots are those of SSL_CERT_FILE, which the checks set to their own root", "revocation is not examined"],
    }
}

// ---------------------------------------------------------------- H09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Answers {
    Accept(u64),
    Refuse(u64),
    Hang,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Several {
    /// IPv6?, and what the address does
    addresses: Vec<(bool, Answers)>,
    tls: bool,
    twice: bool,
    body: u32,
}

fn several(tier: Tier) -> BoxedStrategy<Several> {
    let delay = || prop_oneof![40 => Just(0u64), 20 => 1u64..60, 10 => 150u64..260, 10 => 260u64..600, 1 => 600u64..6000];
    let answer = prop_oneof![3 => delay().prop_map(Answers::Accept), 4 => delay().prop_map(Answers::Refuse), 1 => Just(Answers::Hang)];
    let most = if tier == Tier::Quick { 7 } else { 10 };
    (vec((any::<bool>(), answer), 0..most), prop_oneof![4 => Just(false), 1 => Just(true)], prop_oneof![3 => Just(false), 1 => Just(true)], prop_oneof![3 => Just(0u32), 1 => 1u32..5000])
        .prop_map(|(mut addresses, tls, twice, body)| {
            // without an address that accepts, nobody hangs: the system's own limit is minutes
            if !addresses.iter().any(|(_, a)| matches!(a, Answers::Accept(_))) {
                for (_, a) in addresses.iter_mut() {
                    if matches!(a, Answers::Hang) {
                        *a = Answers::Refuse(300);
                    }
                }
            }
            Several { addresses, tls, twice, body }
        })
        .boxed()
}

fn address_of(i: usize, v6: bool) -> IpAddr {
    match v6 {
        true => IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, i as u16 + 1)),
        false => IpAddr::V4(Ipv4Addr::new(172, 20, 3, i as u8 + 1)),
    }
}

fn check_several(c: &Several, obs: &mut Obs) -> Outcome {
    let here = net::own_addr();
    let ips: Vec<IpAddr> = c.addresses.iter().enumerate().map(|(i, (v6, _))| address_of(i, *v6)).collect();
    let hosts = ips
        .iter()
        .zip(&c.addresses)
        .map(|(ip, (_, a))| {
            let reach = match a {
                Answers::Accept(d) => Reach::Accept { to: here, delay_ms: *d },
                Answers::Refuse(d) => Reach::Refuse { delay_ms: *d },
                Answers::Hang => Reach::Hang,
            };
            (*ip, reach)
        })
        .collect();
    net::set_world(vec![("many.any.test".into(), ips.clone())], hosts, 0);
    let port = net::case_port();
    let reachable = c.addresses.iter().any(|(_, a)| matches!(a, Answers::Accept(_)));
    obs.nontrivial_if(c.addresses.len() >= 2);
    obs.label(format!("{} addresses", c.addresses.len()));
    obs.label(if reachable { "reachable" } else { "not reachable" });
    if c.addresses.iter().any(|(_, a)| matches!(a, Answers::Hang)) {
        obs.label("with one that hangs");
    }
    if c.addresses.iter().any(|(v, _)| *v) && c.addresses.iter().any(|(v, _)| !*v) {
        obs.label("both families");
    }
    obs.sample(format!("{:?}", c.addresses));
    let rounds = if c.twice { 2 } else { 1 };
    let scripts: Vec<Script> = (0..c.addresses.len() * rounds)
        .map(|i| {
            let mut response = ok_response();
            response.extend_from_slice(format!("answer {}", i).as_bytes());
            let s = Script::reply(response);
            if c.tls {
                s.tls(tls::server("any", i % 2 == 0))
            } else {
                s
            }
        })
        .collect();
    let body = pattern(c.body as usize);
    let program = |_: &str| {
        let method = if c.body > 0 { "POST" } else { "GET" };
        let template = format!("{} {}://many.any.test:{}/only-once\nX-N: {{n}}\n\n{}", method, if c.tls { "https" } else { "http" }, port, body);
        let mut p = format!("request r `{}`[status == 200];\n", template);
        for i in 0..rounds {
            p.push_str(&format!("let n = {};\nr();\n", i));
        }
        p.push_str("let after = n;");
        p
    };
    let got = net::play(scripts, &program);
    net::set_world(vec![], vec![], 0);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    ensure!(run::get(&got.context, "after").is_some(), "the program did not get to its end");
    ensure!(got.records.len() == rounds, "{} records for {} requests", got.records.len(), rounds);
    ensure!(got.unexpected == 0, "{} connections too many: {:?}", got.unexpected, got.connects);
    let delivered: Vec<(usize, &net::Conn)> = got.conns.iter().enumerate().filter(|(_, c)| !c.bytes.is_empty()).collect();
    for (n, r) in got.records.iter().enumerate() {
        let mine: Vec<_> = delivered.iter().filter(|(_, c)| wire::request(&c.bytes).is_ok_and(|w| w.values("x-n") == [n.to_string()])).collect();
        if reachable {
            ensure!(r.error.is_empty(), "failed with {:?} although an address accepts; {:?}", r.error, got.connects);
            ensure!(mine.len() == 1, "request {} was delivered {} times", n, mine.len());
            let (i, conn) = mine[0];
            let w = wire::request(&conn.bytes)?;
            ensure!(w.target == "/only-once" && w.body == body.as_bytes(), "request received: {:?}", w);
            ensure!(r.response.status == 200 && r.response.body == format!("answer {}", i), "the record has {:?}, the server sent answer {}", r.response, i);
        } else {
            ensure!(mine.is_empty(), "a request was delivered");
            is_failure(r)?;
        }
    }
    ensure!(delivered.len() == if reachable { rounds } else { 0 }, "{} connections carried data for {} requests", delivered.len(), rounds);
    for (a, _) in &got.connects {
        ensure!(ips.contains(&a.ip()) && a.port() == port, "connected to {}", a);
    }
    Ok(())
}

/// The only address that accepts takes long.
fn patient(tier: Tier) -> BoxedStrategy<Several> {
    let most = if tier == Tier::Quick { 17u64 } else { 100 };
    let other = prop_oneof![2 => (0u64..800).prop_map(Answers::Refuse), 1 => (2000u64..9000).prop_map(Answers::Refuse), 2 => Just(Answers::Hang)];
    (vec((any::<bool>(), other), 0..5), any::<bool>(), prop_oneof![2 => Just(5u64), 2 => Just(10), 1 => 3u64..most], any::<prop::sample::Index>(), any::<bool>())
        .prop_map(|(mut addresses, v6, s, at, tls)| {
            addresses.insert(at.index(addresses.len() + 1), (v6, Answers::Accept(s * 1000 + 400)));
            Several { addresses, tls, twice: false, body: 0 }
        })
        .boxed()
}

pub fn h09() -> Property {
    let patient = Part::new(
        "patient",
        "up to five addresses of which one accepts, after 3 to 17 s (thorough: 100 s), while the others refuse or hang; non-trivial: two or more addresses",
        (16, 160),
        patient,
        check_several,
    )
    .shrink(4);
    Property {
        id: "H09",
        parts: vec![Part::new(
            "addresses",
            "up to six addresses (quick) of both families in any order, each accepting, refusing or hanging, with delays below and above the racing delay, plain and TLS, once or twice in a session; deliveries and record; non-trivial: two or more addresses",
            (1500, 30_000),
            several,
            check_several,
        )
        .shrink(150)
        .wall(80.0)
        .boxed(), patient.boxed()],
        known: vec![],
        assumptions: vec!["an address that neither answers nor refuses is only used beside one that accepts"],
    }
}

// ---------------------------------------------------------------- H10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Delays {
    resolve: u64,
    connect: u64,
    /// while the request is written (with a large body)
    #[serde(default)]
    write: u64,
    delay: u64,
    /// after the first byte, and between the body's parts
    first: u64,
    read: Vec<u64>,
    /// further addresses before the one that accepts
    before: Vec<bool>,
    tls: bool,
    body: u32,
    response: u32,
}

fn delays() -> BoxedStrategy<Delays> {
    let d = || prop_oneof![3 => Just(0u64), 2 => 40u64..160];
    let which = prop_oneof![
        // nothing, one phase, any
        1 => Just(0usize), 1 => Just(1usize), 1 => Just(2usize), 1 => Just(3usize), 1 => Just(4usize), 1 => Just(6usize), 4 => Just(5usize)
    ];
    (which, (40u64..160, d(), d(), d(), d(), d()), vec(d(), 0..3), vec(any::<bool>(), 0..2), any::<bool>(), prop_oneof![3 => Just(0u32), 1 => 1u32..100_000], prop_oneof![2 => Just(0u32), 2 => 1u32..2000, 1 => 1u32..300_000])
        .prop_map(|(which, (one, a, b, c, d, w), read, before, tls, body, response)| {
            let mut x = Delays {
                resolve: 0,
                connect: 0,
                write: 0,
                delay: 0,
                first: 0,
                read: vec![],
                before: vec![],
                tls,
                body,
                response,
            };
            match which {
                0 => {}
                1 => x.resolve = one,
                2 => x.connect = one,
                3 => x.delay = one,
                4 => x.read = vec![one],
                6 => x.write = one,
                _ => {
                    x.resolve = a;
                    x.connect = b;
                    x.write = w;
                    x.delay = c;
                    x.first = d;
                    x.read = read;
                    x.before = before;
                }
            }
            if x.write > 0 {
                x.body = x.body.max(2 * net::MESSAGE as u32);
            }
            x
        })
        .boxed()
}

fn ms(d: Duration) -> i64 {
    d.as_millis() as i64
}

/// What is exact in any run, and the phases' milliseconds beside what was injected.
fn timed(c: &Delays, scale: u64) -> Result<Vec<(&'static str, i64, i64)>, String> {
    let here = net::own_addr();
    let ip = |n| IpAddr::V4(Ipv4Addr::new(172, 20, 4, n));
    let mut ips = Vec::new();
    let mut hosts = Vec::new();
    for (i, _) in c.before.iter().enumerate() {
        ips.push(ip(100 + i as u8));
        hosts.push((ip(100 + i as u8), Reach::Refuse { delay_ms: 0 }));
    }
    ips.push(ip(1));
    hosts.push((ip(1), Reach::Accept { to: here, delay_ms: c.connect * scale }));
    net::set_world(vec![("slow.any.test".into(), ips)], hosts, c.resolve * scale);
    let port = net::case_port();
    let mut response = ok_response();
    response.extend_from_slice(pattern(c.response as usize).as_bytes());
    let mut acts = vec![Act::ReadRequest, Act::Pause(c.delay * scale), Act::Send(response[..1].to_vec()), Act::Pause(c.first * scale)];
    let rest = &response[1..];
    let parts = c.read.len() + 1;
    for i in 0..parts {
        acts.push(Act::Send(rest[rest.len() * i / parts..rest.len() * (i + 1) / parts].to_vec()));
        if i < c.read.len() {
            acts.push(Act::Pause(c.read[i] * scale));
        }
    }
    let script = Script::new(acts);
    let script = if c.tls { script.tls(tls::server("any", c.response % 2 == 0)) } else { script };
    let template = format!(
        "{} {}://slow.any.test:{}/\nHost: h\n\n{}",
        if c.body > 0 { "POST" } else { "GET" },
        if c.tls { "https" } else { "http" },
        port,
        pattern(c.body as usize)
    );
    let before = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    net::slow_send(c.write * scale);
    let got: Got = net::exchange(script, &template, "", &[]);
    net::slow_send(0);
    let after = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    net::set_world(vec![], vec![], 0);
    ensure!(got.error.is_none() && got.records.len() == 1, "error {:?}, {} records", got.error, got.records.len());
    let r = &got.records[0];
    ensure!(r.error.is_empty() && r.response.status == 200 && r.response.body.len() == c.response as usize, "the request failed: {:?}", r.error);
    let t = &r.time;
    let sum = t.resolve + t.connect + t.write + t.delay + t.read;
    ensure!(t.total == sum, "total {:?} is not the sum {:?} of {:?}", t.total, sum, t);
    // never more than the call took, whatever the clock of the day says
    ensure!(t.total <= got.wall, "total {:?}, the whole call took {:?}", t.total, got.wall);
    let slack = Duration::from_millis(5);
    ensure!(t.end >= t.start, "ends at {:?}, starts at {:?}", t.end, t.start);
    let span = t.end - t.start;
    // the clock of the day may be set meanwhile; a difference between both clocks shows that
    let drift = (ms(after - before) - ms(got.wall)).abs() > 20;
    if !drift || scale > 1 {
        ensure!(span + slack >= t.total, "end - start is {:?}, total {:?}", span, t.total);
        ensure!(span <= after - before + slack, "end - start is {:?}, the call took {:?}", span, after - before);
        ensure!(t.start + slack >= before && t.end <= after + slack, "the call ran from {:?} to {:?}, the record says from {:?} to {:?}", before, after, t.start, t.end);
    }
    let read = (c.first + c.read.iter().sum::<u64>()) * scale;
    Ok(vec![
        ("resolve", ms(t.resolve), (c.resolve * scale) as i64),
        ("connect", ms(t.connect), (c.connect * scale) as i64),
        ("write", ms(t.write), (c.write * scale) as i64),
        ("delay", ms(t.delay), (c.delay * scale) as i64),
        ("read", ms(t.read), read as i64),
    ])
}

fn check_delays(c: &Delays, obs: &mut Obs) -> Outcome {
    let injected = [c.resolve, c.connect, c.write, c.delay, c.first + c.read.iter().sum::<u64>()];
    obs.nontrivial_if(injected.iter().any(|d| *d > 0));
    obs.label(format!("{} phases delayed", injected.iter().filter(|d| **d > 0).count()));
    obs.label(if c.tls { "https" } else { "http" });
    obs.sample(format!("{:?}", c));
    // a busy machine adds time anywhere; what is charged wrongly stays wrong, and grows with the delays
    let mut last = String::new();
    for scale in [1u64, 2, 4, 6] {
        let phases = timed(c, scale)?;
        obs.extra += 1;
        let tolerance = 20 * scale as i64;
        match phases.iter().find(|(_, seen, injected)| (seen - injected).abs() > tolerance) {
            None => return Ok(()),
            Some(_) => last = format!("milliseconds (phase, seen, injected): {:?}", phases),
        }
    }
    Err(format!("time is charged to another phase, four times with longer and longer delays; {}", last))
}

pub fn h10() -> Property {
    Property {
        id: "H10",
        parts: vec![Part::new(
            "delays",
            "delays of 40 to 160 ms in name lookup, connecting, writing, before the first byte, after it and inside the body, alone and together, on one or several addresses, plain and TLS, with bodies up to 300 kB; exact sum, bounds by the clocks, and each delay in its own phase (a deviation is confirmed by repetition with delays up to six times as long); non-trivial: some delay",
            (1000, 20_000),
            |_| delays(),
            check_delays,
        )
        .shrink(40)
        .boxed()],
        known: vec![],
        assumptions: vec!["the clock of the day is not set back by more than 5 ms during a case"],
    }
}
