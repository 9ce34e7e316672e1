//! H05-H06: what is received.

use crate::cli;
use crate::ensure;
use crate::fw::{clip, Known, Obs, Outcome, Part, Property, Scratch, Tier};
use crate::gen::{any_text, edge_int};
use crate::model::{same, V};
use crate::net::{self, Act, Got, Rec, Script};
use crate::props::request_props::{ok_response, only_conn};
use crate::run;
use crate::wire;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;

// ---------------------------------------------------------------- H05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Framing {
    /// the end of the connection ends the body
    Close,
    Length,
    /// sizes of the chunks over and over; flags choose extensions, case, leading zeros, trailers
    Chunked(Vec<u32>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answer {
    version: String,
    status: u16,
    reason: String,
    headers: Vec<(String, String)>,
    blanks: Vec<(String, String)>,
    #[serde(with = "crate::fw_bytes")]
    body: Vec<u8>,
    repeat: u32,
    framing: Framing,
    recv_plan: Vec<u32>,
    /// where the server pauses, per mille of the message
    pauses: Vec<u16>,
    method: String,
    /// a byte that is not UTF-8 inside one of the header values
    odd_header: bool,
    /// the server leaves the connection open after a chunked message
    hold: bool,
    /// heads of interim responses sent before
    interim: Vec<String>,
}

fn reason() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["OK", "", "Not Found", "I'm a teapot", "Non-Authoritative Information", "a  b", "200 OK", "HTTP/1.1", "ÉTÉ", "中文", "a:b", "<b>"]).prop_map(String::from),
        2 => any_text(20).prop_map(|s| s.chars().filter(|c| *c == ' ' || (!c.is_control() && !c.is_whitespace())).collect::<String>().trim().to_string()),
    ]
    .boxed()
}

fn header() -> BoxedStrategy<(String, String)> {
    let name = prop_oneof![
        4 => select(vec!["Content-Type", "Set-Cookie", "set-cookie", "X-A", "Server", "Date", "ETag", "Location", "Content-Encoding", "Transfer", "status", "body"]).prop_map(String::from),
        2 => "[A-Za-z0-9!#$%&'*+.^_`|~-]{1,14}",
    ]
    .prop_filter("not of framing", |n| !["content-length", "transfer-encoding"].contains(&n.to_ascii_lowercase().as_str()));
    let value = prop_oneof![
        3 => select(vec!["", "text/html; charset=utf-8", "a=b; Path=/; HttpOnly", "http://h:80/x?y=z", ":", "a: b", "W/\"x\"", "Sun, 21 Jul 2025 14:32:11 GMT", "chunked", "12"]).prop_map(String::from),
        2 => any_text(20).prop_map(|s| s.chars().filter(|c| *c == ' ' || (!c.is_control() && !c.is_whitespace())).collect::<String>().trim().to_string()),
        1 => (1usize..20_000).prop_map(|n| "v".repeat(n)),
    ];
    (name, value).boxed()
}

fn interim() -> BoxedStrategy<String> {
    select(vec![
        "HTTP/1.1 100 Continue\r\n\r\n",
        "HTTP/1.1 100\r\n\r\n",
        "HTTP/1.1 103 Early Hints\r\nLink: </a.css>; rel=preload\r\nlink: </b>\r\nX-A: early\r\n\r\n",
        "HTTP/1.1 102 Processing\r\nServer: s\r\n\r\n",
        "HTTP/1.0 199 \r\nSet-Cookie: a=b\r\n\r\n",
    ])
    .prop_map(String::from)
    .boxed()
}

fn answer(tier: Tier) -> BoxedStrategy<Answer> {
    let max = if tier == Tier::Quick { 300_000u32 } else { 4_000_000 };
    let body = prop_oneof![
        1 => Just(vec![]),
        3 => any_text(60).prop_map(String::into_bytes),
        3 => vec(any::<u8>(), 0..60),
        1 => select(vec!["0\r\n\r\n", "\r\n\r\n", "\n", "a\r\nb", "HTTP/1.1 500 X\r\n\r\n", "{\"a\": [1, 2.5, null]}", "\u{feff}x", "5\r\nhello\r\n0\r\n\r\n", " "]).prop_map(|s| s.as_bytes().to_vec()),
        1 => Just("é中🎉".as_bytes().to_vec()),
    ];
    let repeat = prop_oneof![
        5 => Just(1u32),
        1 => 1u32..5000,
        1 => (select(vec![4096u32, 8192, 16384, 65536]), -80i32..80).prop_map(|(n, d)| (n as i32 + d) as u32),
        1 => 1u32..max,
    ];
    let framing = prop_oneof![
        2 => Just(Framing::Close),
        2 => Just(Framing::Length),
        3 => (vec(prop_oneof![1u32..4, 1u32..40, 1u32..20_000], 1..5), any::<u8>()).prop_map(|(c, f)| Framing::Chunked(c, f)),
    ];
    let blank = || prop_oneof![3 => Just(" "), 1 => Just(""), 1 => Just(" \t ")].prop_map(String::from);
    (
        (select(vec!["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]), prop_oneof![4 => select(vec![101u16, 200, 201, 206, 299, 300, 301, 304, 400, 401, 404, 418, 500, 503, 599]), 1 => 200u16..600], reason()),
        (
            prop_oneof![
                24 => vec(header(), 0..8),
                4 => vec(header(), 40..150),
                1 => (vec(header().prop_filter("short", |h| h.1.len() < 100), 5..30), 10usize..60).prop_map(|(some, times)| {
                    (0..times).flat_map(|i| some.iter().map(move |(n, v)| (format!("{}-{}", n, i), v.clone()))).collect::<Vec<_>>()
                }),
            ], vec((blank(), blank()), 1..3)),
        (body, repeat, framing),
        prop_oneof![1 => Just(vec![]), 1 => vec(1u32..4, 1..4), 2 => vec(prop_oneof![1u32..30, 1u32..9000], 1..6)],
        prop_oneof![12 => Just(vec![]), 1 => vec(0u16..1000, 1..4)],
        (select(vec!["GET", "GET", "POST", "DELETE", "PUT", "HEAD"]), prop_oneof![8 => Just(false), 1 => Just(true)], any::<bool>(), prop_oneof![36 => Just(vec![]), 6 => vec(interim(), 1..4), 1 => vec(interim(), 4..60)]),
    )
        .prop_map(|((version, status, reason), (headers, blanks), (body, repeat, framing), mut recv_plan, pauses, (method, odd_header, hold, interim))| {
            let repeat = (repeat / body.len().max(1) as u32).max(1);
            // byte by byte is for short messages
            if repeat as usize * body.len() + headers.iter().map(|h| h.1.len()).sum::<usize>() > 40_000 {
                recv_plan.iter_mut().for_each(|n| *n = (*n).max(50));
            }
            Answer {
                version: version.to_string(),
                status,
                reason,
                headers,
                blanks,
                body,
                repeat,
                framing,
                recv_plan,
                pauses,
                method: method.to_string(),
                odd_header,
                hold,
                interim,
            }
        })
        .boxed()
}

/// The message, and the headers as they should be seen.
fn message(c: &Answer) -> (Vec<u8>, Vec<(String, String)>, Vec<u8>) {
    let body = c.body.repeat(c.repeat as usize);
    let mut headers = c.headers.clone();
    let mut framed = Vec::new();
    match &c.framing {
        Framing::Close => framed = body.clone(),
        Framing::Length => {
            framed = body.clone();
            let name = if c.repeat % 2 == 0 { "content-length" } else { "Content-Length" };
            headers.insert(headers.len() / 2, (name.to_string(), body.len().to_string()));
        }
        Framing::Chunked(sizes, flags) => {
            let (name, value) = if flags & 1 == 0 { ("Transfer-Encoding", "chunked") } else { ("transfer-encoding", "Chunked") };
            headers.insert(headers.len() / 2, (name.to_string(), value.to_string()));
            let mut at = 0;
            for i in 0.. {
                if at >= body.len() {
                    break;
                }
                let n = (sizes[i % sizes.len()] as usize).max(body.len() / 2000 + 1).min(body.len() - at);
                let size = match flags & 6 {
                    0 => format!("{:x}", n),
                    2 => format!("{:X}", n),
                    4 => format!("{:04x}", n),
                    _ => format!("{:x}; a=b;c=\"d\"", n),
                };
                framed.extend_from_slice(size.as_bytes());
                framed.extend_from_slice(b"\r\n");
                framed.extend_from_slice(&body[at..at + n]);
                framed.extend_from_slice(b"\r\n");
                at += n;
            }
            framed.extend_from_slice(if flags & 8 == 0 { b"0\r\n\r\n" } else { b"0\r\nX-Trailer: t\r\nX-Sum: 0\r\n\r\n" });
        }
    }
    // these have the headers of a body, and none
    let bodiless = c.method == "HEAD" || c.status == 304;
    if bodiless {
        framed.clear();
    }
    let mut out = c.interim.concat().into_bytes();
    out.extend_from_slice(
        match (c.reason.is_empty(), c.repeat % 2) {
            (true, 0) => format!("{} {}\r\n", c.version, c.status),
            _ => format!("{} {} {}\r\n", c.version, c.status, c.reason),
        }
        .as_bytes(),
    );
    for (i, (n, v)) in headers.iter().enumerate() {
        let (a, b) = &c.blanks[i % c.blanks.len()];
        out.extend_from_slice(format!("{}:{}{}{}\r\n", n, a, v, b.trim_end_matches(' ')).as_bytes());
    }
    if c.odd_header {
        out.extend_from_slice(b"X-Odd: caf\xe9\r\n");
    }
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(&framed);
    (out, headers, if bodiless { Vec::new() } else { body })
}

fn brief(b: &str, e: &str) -> String {
    let at = b.bytes().zip(e.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| clip(&String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..]), 200);
    format!("{} bytes, expected {}; at byte {}: {:?}, expected {:?}", b.len(), e.len(), at, cut(b), cut(e))
}

fn field<'a>(v: &'a Option<V>, name: &str) -> Option<&'a V> {
    match v {
        Some(V::Map(m)) => m.get(name),
        _ => None,
    }
}

/// Compares a response with what was sent, in the record and in the call's value.
#[allow(clippy::too_many_arguments)]
pub fn same_response(got: &Got, record: &Rec, version: &str, status: u16, reason: &str, headers: &[(String, String)], body: &str) -> Outcome {
    let r = &record.response;
    ensure!(record.error.is_empty(), "error {:?} for a complete response", record.error);
    ensure!(r.status == status, "status {}, sent {}", r.status, status);
    ensure!(r.version == version, "version {:?}, sent {:?}", r.version, version);
    ensure!(r.reason == reason, "reason {:?}, sent {:?}", r.reason, reason);
    ensure!(r.headers == headers, "headers {:?}, sent {:?}", clip(&format!("{:?}", r.headers), 1000), clip(&format!("{:?}", headers), 1000));
    ensure!(r.body == body, "body of {}", brief(&r.body, body));
    let is = |name: &str, v: V| match field(&got.value, name) {
        Some(x) if same(x, &v) => Ok(()),
        x => Err(format!("the call's value has {} {}, sent {}", name, clip(&format!("{:?}", x), 300), clip(&format!("{:?}", v), 300))),
    };
    is("status", V::Int(status as i64))?;
    is("version", V::Str(version.to_string()))?;
    is("reason", V::Str(reason.to_string()))?;
    is("body", V::Str(body.to_string()))?;
    // names are the same in any case, so values of a name written in several ways are left out
    let mut map: BTreeMap<String, V> = BTreeMap::new();
    for (n, v) in headers {
        if let V::Arr(a) = map.entry(n.clone()).or_insert_with(|| V::Arr(vec![])) {
            a.push(V::Str(v.clone()));
        }
    }
    for (n, v) in &map {
        if map.keys().filter(|m| m.eq_ignore_ascii_case(n)).count() > 1 {
            continue;
        }
        match field(&got.value, "headers") {
            Some(V::Map(m)) if m.get(n).is_some_and(|x| same(x, v)) => {}
            x => return Err(format!("the call's value has headers {}, sent {} {:?}", clip(&format!("{:?}", x), 500), n, v)),
        }
    }
    Ok(())
}

fn cut_acts(message: &[u8], pauses: &[u16]) -> Vec<Act> {
    let mut cuts: Vec<usize> = pauses.iter().map(|p| message.len() * *p as usize / 1000).collect();
    cuts.sort();
    let mut acts = vec![Act::ReadRequest];
    let mut at = 0;
    for c in cuts {
        acts.push(Act::Send(message[at..c].to_vec()));
        acts.push(Act::Pause(8));
        at = c;
    }
    acts.push(Act::Send(message[at..].to_vec()));
    acts
}

fn check_answer(c: &Answer, obs: &mut Obs) -> Outcome {
    let (bytes, mut headers, body) = message(c);
    if c.odd_header {
        headers.push(("X-Odd".to_string(), "caf\u{fffd}".to_string()));
    }
    obs.nontrivial_if(!body.is_empty() || headers.len() >= 2);
    obs.label(match &c.framing {
        Framing::Close => "until close",
        Framing::Length => "content-length",
        Framing::Chunked(..) => "chunked",
    });
    obs.label(match body.len() {
        0 => "empty",
        1..=8191 => "up to 8 KiB",
        _ => "larger",
    });
    if std::str::from_utf8(&body).is_err() {
        obs.label("not UTF-8");
    }
    if !c.interim.is_empty() {
        obs.label("after interim responses");
    }
    obs.sample(clip(&String::from_utf8_lossy(&bytes), 300));
    net::plan_recv(&c.recv_plan);
    let asserts = "status == 0, reason == \"\", version == \"\", body == \"\", length(body) == 0";
    let mut acts = cut_acts(&bytes, &c.pauses);
    let hold = c.hold && matches!(c.framing, Framing::Chunked(..)) && c.method != "HEAD" && c.status != 304;
    if hold {
        obs.label("chunked, connection left open");
        acts.push(Act::Hold(15_000));
    }
    let got = net::exchange(Script::new(acts), &format!("{} http://{{at}}/\nHost: h", c.method), asserts, &[]);
    net::plan_recv(&[]);
    ensure!(!hold || got.wall < Duration::from_secs(14), "the whole chunked message was sent, but the call only returned when the connection was closed, after {:?}", got.wall);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    only_conn(&got)?;
    ensure!(got.records.len() == 1, "{} records", got.records.len());
    let record = &got.records[0];
    let text = String::from_utf8_lossy(&body).into_owned();
    same_response(&got, record, &c.version, c.status, &c.reason, &headers, &text)?;
    let seen: Vec<&str> = record.asserts.iter().map(|a| a.1.as_str()).collect();
    let status = c.status.to_string();
    let length = text.len().to_string();
    let expected = [status.as_str(), c.reason.as_str(), c.version.as_str(), text.as_str(), length.as_str()];
    ensure!(seen == expected, "the assertions see {:?}, expected {:?}", clip(&format!("{:?}", seen), 500), clip(&format!("{:?}", expected), 500));
    Ok(())
}

/// Bodies around the powers of two up to 32 MiB, and header values beyond 64 KiB.
fn huge(tier: Tier) -> BoxedStrategy<Answer> {
    let top = if tier == Tier::Quick { 24u32 } else { 26 };
    let size = prop_oneof![
        3 => (17..=top, -5i32..6).prop_map(|(n, d)| ((1i64 << n) + d as i64) as u32),
        2 => (select(vec![1_000_000u32, 5_000_000, 10_000_000, 10 << 20, 16_000_000]), -3i32..4).prop_map(|(n, d)| (n as i32 + d) as u32),
        2 => (1u32 << 17)..(1u32 << top),
    ];
    let value = prop_oneof![2 => Just(0usize), 1 => 65_536usize..65_540, 1 => 40_000usize..200_000];
    let chunk = prop_oneof![1 => Just(vec![u32::MAX]), 1 => (select(vec![4096u32, 65_536, 1 << 20]), 0u32..3).prop_map(|(n, d)| vec![n + d]), 1 => vec(1000u32..3_000_000, 1..5)];
    (answer(tier), prop_oneof![1 => vec(any::<u8>(), 1..4), 2 => any_text(20).prop_map(|s| format!("{}.", s).into_bytes())], size, value, chunk)
        .prop_map(|(mut c, body, size, value, chunk)| {
            c.repeat = (size / body.len() as u32).max(1);
            c.body = body;
            c.recv_plan.iter_mut().for_each(|n| *n = (*n).max(3000));
            c.pauses.truncate(2);
            c.headers.truncate(20);
            if value > 0 {
                c.headers.insert(c.headers.len() / 2, ("X-Long".to_string(), "w".repeat(value)));
            }
            if let Framing::Chunked(sizes, _) = &mut c.framing {
                *sizes = chunk;
            }
            if c.method == "HEAD" {
                c.method = "GET".to_string();
            }
            if c.status == 304 {
                c.status = 203;
            }
            c
        })
        .boxed()
}

/// Every split of one message in two, and its delivery byte by byte.
fn check_splits(c: &Answer, obs: &mut Obs) -> Outcome {
    let c = Answer {
        method: "GET".to_string(),
        repeat: 1,
        pauses: vec![],
        headers: c.headers.iter().take(3).map(|(n, v)| (n.clone(), v.chars().take(10).collect::<String>().trim().to_string())).collect(),
        ..c.clone()
    };
    let (bytes, headers, body) = message(&c);
    let text = String::from_utf8_lossy(&body).into_owned();
    obs.nontrivial();
    obs.sample(clip(&String::from_utf8_lossy(&bytes), 200));
    let mut headers = headers;
    if c.odd_header {
        headers.push(("X-Odd".to_string(), "caf\u{fffd}".to_string()));
    }
    for at in 0..bytes.len() as u32 {
        // the first read of this size, everything else at once
        let plan = if at == 0 { vec![1] } else { vec![at, 1_000_000, 1_000_000, 1_000_000, 1_000_000, 1_000_000, 1_000_000] };
        net::plan_recv(&plan);
        let got = net::exchange(Script::reply(bytes.clone()), "GET http://{at}/", "", &[]);
        net::plan_recv(&[]);
        obs.extra += 1;
        ensure!(got.records.len() == 1, "{} records", got.records.len());
        same_response(&got, &got.records[0], &c.version, c.status, &c.reason, &headers, &text).map_err(|e| format!("split after {} bytes: {}", at, e))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NotHttp {
    #[serde(with = "crate::fw_bytes")]
    bytes: Vec<u8>,
}

fn not_http() -> BoxedStrategy<NotHttp> {
    let rest = "\r\nContent-Type: text/plain\r\nX: 1\r\n\r\nbody";
    let first = prop_oneof![
        3 => select(vec![
            "", "\r\n", "SSH-2.0-OpenSSH_9.6", "220 mail.example.org ESMTP", "220 250 ready", "+OK POP3 ready", "<html><body>200 OK</body></html>", "HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 abc", "HTTP/1.1 OK 200", "200 OK", "GET / HTTP/1.1",
            "HTTP/1.1 2x0 OK", "HTTP/1.1 -200 OK", "HTTP/1.1 70000 OK", "HTTP/1.1 99999999999 OK", "ICY 200 OK", "{\"status\": 200}", "RTSP/1.0 200 OK", "HTTP 200 OK", "HTTP/1.1 2.0 OK",
        ]).prop_map(|s| s.as_bytes().to_vec()),
        2 => vec(any::<u8>(), 0..40),
        1 => any_text(20).prop_map(String::into_bytes),
        1 => vec(any::<u8>(), 9000..20_000),
        1 => Just(b"\x16\x03\x01\x00\x02\x02\x28".to_vec()),
    ];
    let junk = (first, any::<bool>())
        .prop_filter("not HTTP", |(b, _)| {
            let t = String::from_utf8_lossy(b).to_string();
            !t.starts_with("HTTP/") || !t.split_whitespace().nth(1).is_some_and(|s| s.len() == 3 && s.bytes().all(|c| c.is_ascii_digit()))
        })
        .prop_map(move |(mut bytes, more)| {
            if more {
                bytes.extend_from_slice(rest.as_bytes());
            }
            NotHttp { bytes }
        })
        .boxed();
    // interim responses alone are no answer
    let unanswered = (vec(interim(), 1..4), prop_oneof![1 => Just(None), 1 => (select(vec!["HTTP/1.1 200 OK", "HTTP/1.1 103 Early Hints\r\nX-A: 1"]), any::<u8>()).prop_map(Some)]).prop_map(|(heads, cut)| {
        let mut bytes = heads.concat().into_bytes();
        if let Some((head, at)) = cut {
            bytes.extend_from_slice(&head.as_bytes()[..at as usize % head.len()]);
        }
        NotHttp { bytes }
    });
    prop_oneof![12 => junk, 1 => unanswered].boxed()
}

/// A failed request: an error, no response data, FAIL.
pub fn is_failure(r: &Rec) -> Outcome {
    ensure!(!r.error.trim().is_empty(), "no error in the record of a failed request: {:?}", r);
    let p = &r.response;
    ensure!(
        p.status == 0 && p.version.is_empty() && p.reason.is_empty() && p.headers.is_empty() && p.body.is_empty(),
        "response data in the record of a failed request: {:?}, error {:?}",
        p,
        r.error
    );
    ensure!(r.display.lines().any(|l| l.starts_with("--- FAIL")) && !r.display.contains("--- PASS"), "a failed request is reported {:?}", r.display);
    Ok(())
}

fn check_not_http(c: &NotHttp, obs: &mut Obs) -> Outcome {
    obs.nontrivial_if(!c.bytes.is_empty());
    obs.sample(clip(&String::from_utf8_lossy(&c.bytes), 100));
    let got = net::exchange(Script::reply(c.bytes.clone()), "GET http://{at}/", "", &[]);
    ensure!(got.error.is_none(), "the call failed: {:?}", got.error);
    ensure!(got.records.len() == 1, "{} records", got.records.len());
    is_failure(&got.records[0]).map_err(|e| format!("{}; the server sent {:?}", e, wire::show(&c.bytes)))
}

fn probe_keepalive() -> Result<bool, String> {
    let response = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec();
    let got = net::exchange(Script::new(vec![Act::ReadRequest, Act::Send(response), Act::Hold(1500)]), "GET http://{at}/", "", &[]);
    let r = got.records.first().ok_or("no record")?;
    if r.response.body != "ok" || r.response.status != 200 {
        return Err(format!("record {:?}", r));
    }
    Ok(got.wall > Duration::from_millis(1300))
}

// ---------------------------------------------------------------- responses that take long

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slow {
    /// chunked, or to the end of the connection
    chunked: bool,
    body: String,
    /// seconds of silence, and before which part of what is sent
    wait: u32,
    at: u16,
    /// the request has a large body, and the silence is before it is read
    upload: u32,
}

fn slow(tier: Tier) -> BoxedStrategy<Vec<Slow>> {
    let most = if tier == Tier::Quick { 35u32 } else { 130 };
    let wait = prop_oneof![1 => select(vec![5u32, 10, 15, 20, 30]).prop_map(|n| n + 1), 1 => 2u32..most];
    let one = (any::<bool>(), "[a-z]{0,40}", wait, any::<u16>(), prop_oneof![4 => Just(0u32), 1 => 5_000_000u32..9_000_000])
        .prop_map(|(chunked, body, wait, at, upload)| Slow { chunked, body, wait, at, upload });
    vec(one, 8..24).boxed()
}

/// All at once, each a test of its own in one run of the command.
fn check_slow(c: &Vec<Slow>, obs: &mut Obs) -> Outcome {
    use std::io::{Read, Write};
    let dir = Scratch::new("h05");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    obs.nontrivial();
    obs.sample(clip(&format!("{:?}", c), 400));
    let listener = std::net::TcpListener::bind("127.0.0.1:0").expect("listen");
    let addr = listener.local_addr().expect("address");
    let plans = std::sync::Arc::new(c.clone());
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ended = over.clone();
    let server = std::thread::spawn(move || {
        for conn in listener.incoming() {
            if ended.load(std::sync::atomic::Ordering::SeqCst) {
                break;
            }
            let Ok(mut conn) = conn else { continue };
            let plans = plans.clone();
            std::thread::spawn(move || -> std::io::Result<()> {
                let mut head = Vec::new();
                let mut byte = [0u8];
                while !head.ends_with(b"\r\n\r\n") {
                    if conn.read(&mut byte)? == 0 {
                        return Ok(());
                    }
                    head.push(byte[0]);
                }
                let text = String::from_utf8_lossy(&head).into_owned();
                let k: usize = text.split(['/', ' ']).nth(2).and_then(|k| k.parse().ok()).unwrap_or(0);
                let plan = &plans[k % plans.len()];
                let nap = || std::thread::sleep(Duration::from_secs(plan.wait as u64));
                let mut count = 0usize;
                if plan.upload > 0 {
                    nap();
                    let size = text.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|n| n.trim().parse().ok()).unwrap_or(0usize);
                    let mut block = vec![0u8; 65536];
                    while count < size {
                        match conn.read(&mut block)? {
                            0 => break,
                            n => count += n,
                        }
                    }
                }
                let mut bytes = format!("HTTP/1.1 200 OK\r\nX-Count: {}\r\n", count).into_bytes();
                match plan.chunked {
                    true => {
                        bytes.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                        for part in plan.body.as_bytes().chunks(7) {
                            bytes.extend_from_slice(format!("{:x}\r\n", part.len()).as_bytes());
                            bytes.extend_from_slice(part);
                            bytes.extend_from_slice(b"\r\n");
                        }
                        bytes.extend_from_slice(b"0\r\n\r\n");
                    }
                    false => {
                        bytes.extend_from_slice(b"Connection: close\r\n\r\n");
                        bytes.extend_from_slice(plan.body.as_bytes());
                    }
                }
                let at = plan.at as usize % bytes.len();
                conn.write_all(&bytes[..at])?;
                if plan.upload == 0 {
                    nap();
                }
                conn.write_all(&bytes[at..])
            });
        }
    });
    let mut suite = String::new();
    for (k, plan) in c.iter().enumerate() {
        let body = if plan.upload > 0 { format!("\n\n{}", "u".repeat(plan.upload as usize)) } else { String::new() };
        suite.push_str(&format!("request r{k} `{} http://{addr}/{k}{body}`[status == 200, body == \"{}\", headers[\"X-Count\"][0] == \"{}\"]\ntest t{k} {{ r{k}() }}\n", if plan.upload > 0 { "POST" } else { "GET" }, plan.body, plan.upload));
    }
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let dest = kept.to_string_lossy().into_owned();
    let out = cli::start(&["test", "-r", &dest], &[], Some(&dir.0), Some(vec![])).wait(Duration::from_secs(190));
    over.store(true, std::sync::atomic::Ordering::SeqCst);
    let _ = std::net::TcpStream::connect(addr);
    let _ = server.join();
    cli::sane(&out)?;
    let text = out.text();
    ensure!(text.matches("--- PASS").count() == c.len() && !text.contains("--- FAIL"), "{} of {} slow responses pass; {:?}\n{}", text.matches("--- PASS").count(), c.len(), c, clip(&text, 1500));
    let rows = super::run_props::files(&kept, false)?;
    let mut bodies: Vec<&str> = rows.iter().flatten().map(|r| r.body.as_str()).collect();
    let mut want: Vec<&str> = c.iter().map(|p| p.body.as_str()).collect();
    bodies.sort();
    want.sort();
    ensure!(bodies == want && rows.iter().flatten().all(|r| !r.error && r.status == 200), "records {:?}, sent {:?}", bodies, want);
    Ok(())
}

pub fn h05() -> Property {
    let answers = Part::new(
        "answers",
        "responses with any status, reason, up to 150 headers, bodies of any bytes and sizes framed by length, chunks or close, seen in pieces of planned sizes; record, call value and assertions compared; non-trivial: a body or two headers",
        (8000, 200_000),
        answer,
        check_answer,
    );
    let splits = Part::new("splits", "one short message per case, cut in two at every byte; non-trivial: all", (60, 1500), answer, check_splits).shrink(100);
    let huge = Part::new("huge", "the same with bodies of 128 KiB to 16 MiB (thorough: 64 MiB), around powers of two and of ten, and header values of up to 200 kB; non-trivial: all", (96, 1500), huge, check_answer).shrink(60).cpu(120.0);
    let foreign = Part::new("foreign", "messages that are not HTTP responses must be errors; non-trivial: not empty", (2500, 60_000), |_| not_http(), check_not_http);
    let patient = Part::new(
        "patient",
        "eight to 23 requests at once by the command, each with 2 to 35 s (thorough: 130 s) of silence in some place of its response, or before a large request body is read; reports and records; non-trivial: all",
        (8, 48),
        slow,
        check_slow,
    )
    .shrink(3);
    Property {
        id: "H05",
        parts: vec![answers.boxed(), splits.boxed(), huge.boxed(), foreign.boxed(), patient.boxed()],
        known: vec![Known {
            id: "H05-keepalive",
            probe: probe_keepalive,
        }],
        assumptions: vec!["the server closes the connection after its response (see the finding H05-keepalive)", "101 is taken for a final response, which the client never asks for by itself"],
    }
}

// ---------------------------------------------------------------- H06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum J {
    Null,
    Bool(bool),
    Int(i64),
    /// the text of a number with a fraction or an exponent
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    doc: J,
    space: Vec<u8>,
    /// extra levels of nesting around the document
    wrap: Vec<bool>,
    /// steps of an access path
    path: Vec<u16>,
    head: bool,
}

fn j_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["", "a", "b", "id", "name", "null", "true", "1", "let", "if", "a b", "é", "中文", "🎉", "{a}", "[0]", "//", "#", "`", "'", "a:b", "\u{7f}", "\u{2028}", "request", "test"]).prop_map(String::from),
        2 => any_text(12),
    ]
    .prop_map(|s| s.chars().filter(|c| *c >= ' ' && *c != '\\' && *c != '"').collect())
    .boxed()
}

fn j_number() -> BoxedStrategy<J> {
    let int = prop_oneof![2 => edge_int(), 2 => edge_int().prop_map(|i| -i), 1 => any::<i64>(), 1 => select(vec![i64::MIN, i64::MIN + 1, -1, 0])];
    let num = prop_oneof![
        "-?(0|[1-9][0-9]{0,8})\\.[0-9]{1,8}",
        "-?(0|[1-9][0-9]{0,3})(\\.[0-9]{1,4})?[eE][-+]?[0-9]{1,2}",
        select(vec!["0.0", "-0.0", "1e0", "1E5", "-2.5e-3", "1e+10", "0.1", "123456789.123456789", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "0e0", "1e-400", "9007199254740993.0", "0.30000000000000004", "100000000000000000000.0", "1e19"]).prop_map(String::from),
    ];
    prop_oneof![3 => int.prop_map(J::Int), 2 => num.prop_map(J::Num)].boxed()
}

fn doc_of(text: fn() -> BoxedStrategy<String>) -> BoxedStrategy<J> {
    let leaf = prop_oneof![1 => Just(J::Null), 1 => any::<bool>().prop_map(J::Bool), 3 => j_number(), 3 => text().prop_map(J::Str)];
    leaf.prop_recursive(5, 60, 6, move |inner| {
        prop_oneof![
            2 => vec(inner.clone(), 0..6).prop_map(J::Arr),
            3 => vec((text(), inner), 0..6).prop_map(J::Obj),
        ]
    })
    .boxed()
}

fn doc() -> BoxedStrategy<Doc> {
    let wrap = prop_oneof![8 => Just(vec![]), 1 => vec(any::<bool>(), 1..20), 1 => vec(any::<bool>(), 80..90)];
    let many = (vec(doc_of(j_text), 1..4), 50usize..1500, any::<bool>()).prop_map(|(some, n, named)| {
        let items = (0..n).map(|i| (format!("k{}", i), some[i % some.len()].clone()));
        match named {
            true => J::Obj(items.collect()),
            false => J::Arr(items.enumerate().map(|(i, (_, x))| if i % 2 == 0 { J::Obj(vec![("id".into(), J::Int(i as i64)), ("x".into(), x)]) } else { x }).collect()),
        }
    });
    let text = (j_text(), 1000usize..30_000).prop_map(|(t, n)| J::Arr(vec![J::Str(t.repeat(n)), J::Int(1)]));
    (prop_oneof![120 => doc_of(j_text), 2 => many, 1 => text], prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..12)], wrap, vec(any::<u16>(), 0..6), any::<bool>())
        .prop_map(|(doc, space, wrap, path, head)| Doc { doc, space, wrap, path, head })
        .boxed()
}

struct Writer<'a> {
    out: String,
    space: &'a [u8],
    at: usize,
    escape: bool,
}

impl Writer<'_> {
    fn gap(&mut self) {
        if self.space.is_empty() {
            return;
        }
        let b = self.space[self.at % self.space.len()];
        self.at += 1;
        self.out.push_str(match b % 8 {
            0 => " ",
            1 => "\n",
            2 => "\t",
            3 => "\r\n",
            4 => "  \n    ",
            _ => "",
        });
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' => self.out.push_str("\\n"),
                '\t' => self.out.push_str("\\t"),
                '/' if self.escape => self.out.push_str("\\/"),
                c if c < ' ' => self.out.push_str(&format!("\\u{:04x}", c as u32)),
                c if self.escape && !c.is_ascii() && (c as u32) < 0x10000 => self.out.push_str(&format!("\\u{:04X}", c as u32)),
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, j: &J) {
        match j {
            J::Null => self.out.push_str("null"),
            J::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => self.out.push_str(&i.to_string()),
            J::Num(t) => self.out.push_str(t),
            J::Str(s) => self.string(s),
            J::Arr(items) => {
                self.out.push('[');
                for (i, x) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.gap();
                    self.value(x);
                    self.gap();
                }
                if items.is_empty() {
                    self.gap();
                }
                self.out.push(']');
            }
            J::Obj(pairs) => {
                self.out.push('{');
                for (i, (k, x)) in pairs.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.gap();
                    self.string(k);
                    self.gap();
                    self.out.push(':');
                    self.gap();
                    self.value(x);
                    self.gap();
                }
                if pairs.is_empty() {
                    self.gap();
                }
                self.out.push('}');
            }
        }
    }
}

fn j_string(doc: &J, space: &[u8], escape: bool) -> String {
    let mut w = Writer { out: String::new(), space, at: 0, escape };
    w.gap();
    w.value(doc);
    w.gap();
    w.out
}

/// The value the document encodes; strings as `text` gives them.
fn j_value(j: &J, text: &dyn Fn(&str) -> String) -> V {
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Int(i) => V::Int(*i),
        J::Num(t) => V::Float(t.parse().expect("a number")),
        J::Str(s) => V::Str(text(s)),
        J::Arr(items) => V::Arr(items.iter().map(|x| j_value(x, text)).collect()),
        J::Obj(pairs) => V::Map(pairs.iter().map(|(k, x)| (text(k), j_value(x, text))).collect()),
    }
}

/// Equal, a zero being a zero of any sign and type.
fn j_same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| j_same(a, b)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| k == l && j_same(a, b)),
        (V::Float(a), V::Float(b)) => a == b,
        _ => same(a, b),
    }
}

fn wrapped(c: &Doc) -> J {
    let mut doc = c.doc.clone();
    for (i, b) in c.wrap.iter().enumerate() {
        doc = match b {
            true => J::Arr(vec![doc]),
            false => J::Obj(vec![(format!("k{}", i % 3), doc)]),
        };
    }
    doc
}

fn j_response(text: &str, head: bool) -> Vec<u8> {
    let mut response = match head {
        true => format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", text.len()).into_bytes(),
        false => ok_response(),
    };
    response.extend_from_slice(text.as_bytes());
    response
}

fn check_doc(c: &Doc, obs: &mut Obs) -> Outcome {
    let doc = wrapped(c);
    let text = j_string(&doc, &c.space, false);
    let expected = j_value(&doc, &|s| s.to_string());
    obs.sample(clip(&text, 300));
    obs.nontrivial_if(matches!(&c.doc, J::Arr(a) if !a.is_empty()) || matches!(&c.doc, J::Obj(a) if !a.is_empty()) || !c.wrap.is_empty());
    obs.label(expected.kind());
    if c.wrap.len() >= 80 {
        obs.label("over 80 levels");
    }
    // an access path into it, for the assertion
    let mut path = "json".to_string();
    let mut at = &expected;
    for step in &c.path {
        match at {
            V::Arr(a) if !a.is_empty() => {
                let i = *step as usize % a.len();
                path.push_str(&format!("[{}]", i));
                at = &a[i];
            }
            V::Map(m) if !m.is_empty() => {
                let (k, v) = m.iter().nth(*step as usize % m.len()).unwrap();
                let word = k.chars().next().is_some_and(|c| c.is_ascii_alphabetic()) && k.chars().all(|c| c.is_ascii_alphanumeric());
                let keyword = ["let", "if", "else", "true", "false", "null", "request", "test"].contains(&k.as_str());
                path.push_str(&if word && !keyword && step % 2 == 0 { format!(".{}", k) } else { format!("[\"{}\"]", k) });
                at = v;
            }
            _ => break,
        }
    }
    let got = net::exchange(Script::reply(j_response(&text, c.head)), "GET http://{at}/", &format!("{} == 0", path), &[]);
    ensure!(got.error.is_none(), "error {:?} for {}", got.error, text);
    let r = got.records.first().ok_or("no record")?;
    ensure!(r.error.is_empty() && r.response.body == text, "error {:?}, body {:?}, sent {:?}", r.error, clip(&r.response.body, 300), clip(&text, 300));
    match field(&got.value, "json") {
        Some(v) if j_same(v, &expected) => {}
        v => return Err(format!("json is {}, expected {}\nbody: {}", clip(&format!("{:?}", v), 600), clip(&format!("{:?}", expected), 600), clip(&text, 600))),
    }
    if let Some(t) = at.text() {
        let zero = matches!(at, V::Float(f) if *f == 0.0);
        ensure!(r.asserts.len() == 1 && (zero || r.asserts[0].1 == t), "{} is {:?} in the assertion, expected {:?}\nbody: {}", path, r.asserts, t, clip(&text, 600));
    }
    Ok(())
}

fn escaped_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => select(vec!["a", "", "a\nb", "\t", "\"", "\\", "say \"hi\"", "C:\\dir", "é", "中", "/", "\u{1}", "\u{8}", "a\"b\"c"]).prop_map(String::from),
        1 => vec(select(vec!['a', 'b', '\n', '\\', '"', 'é', '/', '\u{1f}', '1', ' ']), 0..8).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

/// Strings with escapes: decoded, or exactly the listed finding.
fn check_escapes(c: &Doc, obs: &mut Obs) -> Outcome {
    let text = j_string(&c.doc, &c.space, c.head);
    let decoded = j_value(&c.doc, &|s| s.to_string());
    obs.sample(clip(&text, 300));
    obs.nontrivial_if(text.contains('\\'));
    let program = |at: &str| format!("let keep = 7;\nrequest r `GET http://{}/`[status == 200];\nr()", at);
    let got = net::play(vec![Script::reply(j_response(&text, true))], &program);
    ensure!(got.error.is_none(), "error {:?} for {}", got.error, text);
    let r = got.records.first().ok_or("no record")?;
    ensure!(r.error.is_empty() && r.response.body == text, "error {:?}, body {:?}, sent {:?}", r.error, clip(&r.response.body, 300), clip(&text, 300));
    ensure!(r.asserts.len() == 1 && r.asserts[0].4, "assertions {:?}", r.asserts);
    let json = field(&got.value, "json");
    if json.is_some_and(|v| j_same(v, &decoded)) {
        obs.label("decoded");
        return Ok(());
    }
    ensure!(text.contains('\\'), "json is {:?}, expected {:?}\nbody: {}", json, decoded, text);
    // the finding: the text between the quotation marks, undecoded; nothing certain once a mark is escaped
    if !text.contains("\\\"") {
        let mut escape = Writer { out: String::new(), space: &[], at: 0, escape: c.head };
        let raw = |s: &str| {
            let mut w = Writer { out: String::new(), space: &[], at: 0, escape: c.head };
            w.string(s);
            w.out[1..w.out.len() - 1].to_string()
        };
        escape.gap();
        let undecoded = j_value(&c.doc, &raw);
        ensure!(json.is_some_and(|v| j_same(v, &undecoded)), "json is {:?}, which is neither {:?} nor the undecoded text\nbody: {}", json, decoded, text);
        obs.label("undecoded (known finding)");
    } else {
        obs.label("escaped quotation mark (known finding)");
    }
    Ok(())
}

fn probe_escapes() -> Result<bool, String> {
    let got = net::exchange(Script::reply(j_response("{\"a\": \"x\\ny\"}", true)), "GET http://{at}/", "", &[]);
    match field(&got.value, "json") {
        Some(V::Map(m)) => match m.get("a") {
            Some(V::Str(s)) if s == "x\ny" => Ok(false),
            Some(V::Str(s)) if s == "x\\ny" => Ok(true),
            v => Err(format!("{:?}", v)),
        },
        v => Err(format!("{:?}", v)),
    }
}

fn hostile() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        select(vec![
            "let x = 666", "let keep = 666", "{ let x = 666 }", "(let keep = 666)", "[let keep = 666]", "{\"a\": let keep = 666}", "other()", "r()", "[other()]", "{\"a\": other()}", "{other(): 1}", "println(\"OWNED\")", "print(\"OWNED\")", "[println(\"OWNED\")]", "if (true) { let keep = 666 }",
            "request other `GET http://evil/`", "request r `GET http://evil/`", "test t { println(\"OWNED\") }", "keep", "[keep]", "{\"a\": keep}", "{keep: 1}", "status", "1 / 0", "9223372036854775807 + 1", "1 << 99", "-(-9223372036854775808)", "- -9223372036854775808", "--9223372036854775808", "-\"a\"", "- - 5", "-{}", "[- -9223372036854775808]", "!true", "format(\"{a}\", keep)", "length(1)",
            "[1, 2", "{\"a\": 1", "\"", "{", "]", "nul", "{'a': 1}", "[1 2]", "{\"a\" 1}", "<html>", "`GET http://evil/`", "99999999999999999999", "NaN", "undefined", "[,]", "\u{0}", ";;;", "{\"a\": 1}{\"a\": 2}",
        ]).prop_map(String::from),
        any_text(10),
    ];
    vec(piece, 1..4).prop_flat_map(|v| select(vec!["", " ", "\n", ";", ", "]).prop_map(move |sep| v.join(sep))).boxed()
}

fn check_hostile(body: &String, obs: &mut Obs) -> Outcome {
    obs.nontrivial();
    obs.sample(body.clone());
    let mut response = ok_response();
    response.extend_from_slice(body.as_bytes());
    let program = |at: &str| {
        format!(
            "let keep = 7;\nrequest other `GET http://{at}/other`;\nrequest r `GET http://{at}/first`[status == 200, keep == 1];\nr();\nlet body = 1;\nlet after = keep;\nr()",
            at = at
        )
    };
    let got = net::play(vec![Script::reply(response.clone()), Script::reply(response)], &program);
    ensure!(got.error.is_none(), "error {:?} with body {:?}", got.error, body);
    ensure!(got.conns.len() == 2 && got.unexpected == 0, "{} connections for two requests, body {:?}", got.conns.len() + got.unexpected, body);
    for conn in &got.conns {
        ensure!(wire::request(&conn.bytes)?.target == "/first", "a request for {:?} with body {:?}", wire::request(&conn.bytes)?.target, body);
    }
    for r in &got.records {
        ensure!(r.error.is_empty() && r.response.status == 200 && r.response.body == *body, "record {:?} with body {:?}", r, body);
        ensure!(r.response.headers == vec![("Connection".to_string(), "close".to_string())], "headers {:?}", r.response.headers);
    }
    for (n, v) in [("keep", Some(V::Int(7))), ("x", None), ("after", Some(V::Int(7))), ("body", Some(V::Int(1)))] {
        let now = run::get(&got.context, n);
        let fine = match (&now, &v) {
            (Some(a), Some(b)) => same(a, b),
            (None, None) => true,
            _ => false,
        };
        ensure!(fine, "variable {} is {:?} with body {:?}", n, now, body);
    }
    ensure!(field(&got.value, "status").is_some_and(|v| same(v, &V::Int(200))) && field(&got.value, "body").is_some_and(|v| same(v, &V::Str(body.clone()))), "value {:?}", got.value);
    Ok(())
}

/// The same with the command: nothing is printed but the report.
fn check_silent(body: &String, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("h06");
    obs.nontrivial_if(body.contains("print"));
    obs.sample(body.clone());
    let mut response = ok_response();
    response.extend_from_slice(body.as_bytes());
    let quiet = std::cell::RefCell::new(String::new());
    let (conns, unexpected) = net::serve_while(vec![Script::reply(response)], &|at| {
        std::fs::write(dir.0.join("s.fan"), format!("request other `GET http://{at}/other`;\nrequest r `GET http://{at}/first`[status == 200];\ntest t {{ r() }}", at = at)).expect("suite");
        let out = cli::run_in(&["test", "t"], b"", &[], Some(&dir.0));
        cli::sane(&out)?;
        *quiet.borrow_mut() = out.text();
        Ok(())
    })?;
    ensure!(conns.len() == 1 && unexpected == 0, "{} connections with body {:?}", conns.len() + unexpected, body);
    let out = quiet.into_inner();
    ensure!(!out.contains("OWNED") && out.contains("--- PASS"), "output {:?} with body {:?}", out, body);
    Ok(())
}

pub fn h06() -> Property {
    let docs = Part::new(
        "documents",
        "JSON documents of any shape, whitespace and up to 95 levels, some with thousands of items or long strings, without string escapes; the json value and one access path in an assertion against the generated tree; non-trivial: a non-empty array or object",
        (10_000, 300_000),
        |_| doc(),
        check_doc,
    );
    let escapes = Part::new(
        "escapes",
        "documents whose strings need escapes: decoded, or exactly the listed finding; everything else of the response stays available; non-trivial: an escape occurs",
        (3000, 60_000),
        |_| (doc_of(escaped_text), vec(any::<u8>(), 0..4), any::<bool>()).prop_map(|(doc, space, head)| Doc { doc, space, wrap: vec![], path: vec![], head }).boxed(),
        check_escapes,
    );
    let hostile_bodies = Part::new(
        "hostile",
        "bodies that are programs, definitions, calls, broken JSON or noise: nothing is executed, sent or bound; non-trivial: all",
        (4000, 100_000),
        |_| hostile(),
        check_hostile,
    );
    let silent = Part::new("silent", "the same bodies received by the built command, whose output must be the report only; non-trivial: the body would print", (160, 3000), |_| hostile(), check_silent).shrink(100);
    Property {
        id: "H06",
        parts: vec![docs.boxed(), escapes.boxed(), hostile_bodies.boxed(), silent.boxed()],
        known: vec![Known {
            id: "H06-escapes",
            probe: probe_escapes,
        }],
        assumptions: vec!["zeros of either sign are one number"],
    }
}
