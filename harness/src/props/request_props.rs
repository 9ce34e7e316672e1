//! H01-H03: what is sent.

use crate::cli;
use crate::ensure;
use crate::fw::{clip, Known, Obs, Outcome, Part, Property, Scratch, Tier};
use crate::gen::{any_text, edge_int, float_text, short_str};
use crate::lang::{placeholders, plain, Machine, Piece, E};
use crate::model::{same, V};
use crate::net::{self, Act, Got, Script};
use crate::run;
use crate::wire::{self, show, Wire};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub fn ok_response() -> Vec<u8> {
    b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_vec()
}

/// Waits for this many bytes, answers, and reads whatever else comes until the client closes.
pub fn expecting(n: usize) -> Script {
    Script::new(vec![Act::ReadTotal(n), Act::Send(ok_response())])
}

/// The single connection of a case.
pub fn only_conn(got: &Got) -> Result<&net::Conn, String> {
    ensure!(got.unexpected == 0, "{} connections that no request asked for", got.unexpected);
    ensure!(got.conns.len() == 1, "{} connections for one request; error {:?}, record {:?}", got.conns.len(), got.error, got.records);
    Ok(&got.conns[0])
}

// ---------------------------------------------------------------- H01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bit {
    Text(String),
    /// a placeholder, with blanks before and after the name
    Hole(String, String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Templated {
    path: Vec<Bit>,
    headers: Vec<(String, Vec<Bit>)>,
    body: Vec<Vec<Bit>>,
    /// bindings before each sending
    rounds: Vec<Vec<(String, E)>>,
    method: bool,
    host: bool,
    header_name: bool,
}

const LINE_NAMES: [&str; 5] = ["n", "x1", "_y", "Zed", "msg"];
const BODY_NAMES: [&str; 4] = ["big", "doc", "body", "B_2"];
const URL_NAMES: [&str; 3] = ["u", "id", "seg"];

fn visible(c: char) -> bool {
    !c.is_whitespace() && !c.is_control()
}

/// Text of one line, without control characters.
fn one_line(max: usize) -> BoxedStrategy<String> {
    any_text(max).prop_map(|s| s.chars().filter(|c| *c == ' ' || visible(*c)).collect::<String>()).boxed()
}

fn not_a_template(s: String) -> String {
    s.replace('`', "'")
}

fn url_text(max: usize) -> BoxedStrategy<String> {
    any_text(max).prop_map(|s| s.chars().filter(|c| visible(*c) && *c != '#' && *c != '\\').collect::<String>()).boxed()
}

fn lookalike() -> BoxedStrategy<String> {
    select(vec![
        "{", "}", "{}", "{ }", "{1}", "{a b}", "{{", "}}", "{-n}", "{n.k}", "{n[0]}", "{\"n\": 1}", "{ n", "n }", "{n,}", "${", "%7Bn%7D", "{é}",
    ])
    .prop_map(String::from)
    .boxed()
}

fn hole(names: &'static [&'static str], blanks: bool) -> BoxedStrategy<Bit> {
    let name = prop_oneof![8 => select(names), 1 => select(vec!["nosuch", "status", "null", "true", "println", "r"])];
    let blank = move || match blanks {
        true => prop_oneof![3 => Just(String::new()), 1 => select(vec![" ", "  ", "\t"]).prop_map(String::from)].boxed(),
        false => Just(String::new()).boxed(),
    };
    (blank(), name, blank()).prop_map(|(a, n, b)| Bit::Hole(a, n.to_string(), b)).boxed()
}

fn line_bits() -> BoxedStrategy<Vec<Bit>> {
    vec(
        prop_oneof![
            4 => hole(&LINE_NAMES, true),
            3 => one_line(8).prop_map(|s| Bit::Text(not_a_template(s))),
            1 => lookalike().prop_map(Bit::Text),
        ],
        0..6,
    )
    .boxed()
}

fn scalar() -> BoxedStrategy<E> {
    prop_oneof![
        edge_int().prop_map(E::Int),
        edge_int().prop_map(|i| E::Neg(Box::new(E::Int(i)))),
        float_text().prop_map(E::Float),
        any::<bool>().prop_map(E::Bool),
        Just(E::Index(Box::new(E::Arr(vec![])), Box::new(E::Int(0)))),
    ]
    .boxed()
}

/// Texts that would be placeholders if they were looked at again.
fn tricky() -> BoxedStrategy<String> {
    prop_oneof![
        select(vec!["{n}", "{x1}{msg}", "{ big }", "{id}", "{nosuch}", "a{n", "}", "{", "x}{n}", "$0", "$1", "\\0", "${name}", "%s", "{{n}}"]).prop_map(String::from),
        short_str().prop_map(|s| s.chars().filter(|c| *c == ' ' || visible(*c)).collect()),
    ]
    .boxed()
}

fn line_value() -> BoxedStrategy<E> {
    prop_oneof![
        3 => tricky().prop_map(E::Str),
        3 => one_line(12).prop_map(E::Str),
        3 => scalar(),
        1 => vec(scalar(), 0..3).prop_map(E::Arr),
        1 => (tricky(), scalar()).prop_map(|(k, v)| E::Map(vec![(E::Str(k), v)])),
        1 => vec(tricky().prop_map(E::Str), 0..3).prop_map(E::Arr),
    ]
    .boxed()
}

fn body_value(tier: Tier) -> BoxedStrategy<E> {
    let max = if tier == Tier::Quick { 40_000usize } else { 400_000 };
    prop_oneof![
        6 => line_value(),
        4 => any_text(30).prop_map(|s| E::Str(s.replace('\r', " "))),
        1 => (short_str(), 1usize..max).prop_map(|(s, n)| E::Str(s.replace('\r', " ").repeat(n / s.len().max(1)))),
    ]
    .boxed()
}

fn url_value() -> BoxedStrategy<E> {
    prop_oneof![
        4 => url_text(10).prop_map(E::Str),
        2 => edge_int().prop_map(E::Int),
        1 => float_text().prop_map(E::Float),
        1 => any::<bool>().prop_map(E::Bool),
        2 => select(vec!["{n}", "{id}", "{u}{seg}", "a{seg", "}", "a/b?c=d&e={id}", "://", "%20"]).prop_map(|s| E::Str(s.to_string())),
    ]
    .boxed()
}

fn binding(tier: Tier) -> BoxedStrategy<(String, E)> {
    prop_oneof![
        3 => (select(&LINE_NAMES[..]).prop_map(String::from), line_value()),
        2 => (select(&BODY_NAMES[..]).prop_map(String::from), body_value(tier)),
        2 => (select(&URL_NAMES[..]).prop_map(String::from), url_value()),
    ]
    .boxed()
}

fn templated(tier: Tier) -> BoxedStrategy<Templated> {
    let path = vec(
        prop_oneof![3 => hole(&URL_NAMES, false), 3 => url_text(6).prop_map(|s| Bit::Text(not_a_template(s))), 1 => select(vec!["{", "}", "{1}", "{}", "{{"]).prop_map(|s| Bit::Text(s.to_string()))],
        0..6,
    );
    let body_line = vec(
        prop_oneof![
            3 => hole(&BODY_NAMES, true),
            2 => hole(&LINE_NAMES, true),
            3 => any_text(10).prop_map(|s| Bit::Text(not_a_template(s.chars().filter(|c| !"\r\n".contains(*c)).collect()))),
            1 => lookalike().prop_map(Bit::Text),
            1 => select(vec!["{\n", "\n}", "{ \n n }"]).prop_map(|s| Bit::Text(s.to_string())),
        ],
        0..6,
    );
    (
        path,
        vec((select(vec!["X-A", "X-B", "Accept", "authorization", "Cookie"]).prop_map(String::from), line_bits()), 0..5),
        vec(body_line, 0..5),
        vec(vec(binding(tier), 0..8), 1..5),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(path, headers, body, rounds, method, host, header_name)| Templated {
            path,
            headers,
            body,
            rounds,
            method,
            host,
            header_name,
        })
        .boxed()
}

fn source(bits: &[Bit]) -> String {
    bits.iter()
        .map(|b| match b {
            Bit::Text(t) => t.clone(),
            Bit::Hole(a, n, b) => format!("{{{}{}{}}}", a, n, b),
        })
        .collect()
}

fn fill(text: &str, m: &Machine) -> Option<String> {
    let mut out = String::new();
    for p in placeholders(text) {
        match p {
            Piece::Text(t) => out.push_str(&t),
            Piece::Hole(n) => match m.vars.get(&n) {
                Some(v) => out.push_str(&v.text()?),
                None => out.push_str("null"),
            },
        }
    }
    Some(out)
}

fn check_templated(c: &Templated, obs: &mut Obs) -> Outcome {
    let methods = ["POST", "PUT", "PATCH", "DELETE"];
    let at = net::own_addr().to_string();
    let method = if c.method { "{ verb }" } else { "POST" };
    let place = if c.host { "{base}".to_string() } else { format!("http://{}", at) };
    let extra = if c.header_name { "X-{hn}" } else { "X-Last" };
    let path = source(&c.path);
    let headers: Vec<(String, String)> = c.headers.iter().map(|(n, v)| (n.clone(), source(v))).collect();
    // marked at both ends: blanks around the template are not part of it
    let body = format!("<{}>", c.body.iter().map(|l| source(l)).collect::<Vec<_>>().join("\n"));
    let mut template = format!("{} {}/{} HTTP/1.1\n", method, place, path);
    for (n, v) in &headers {
        template.push_str(&format!("{}: {}\n", n, v));
    }
    template.push_str(&format!("{}: 1\n\n{}", extra, body));

    // what every sending should be
    let mut machine = Machine::default();
    let mut text = format!("request r `{}`;\n", template);
    let mut expected = Vec::new();
    for (i, round) in c.rounds.iter().enumerate() {
        let mut lets = round.clone();
        lets.push(("verb".into(), E::Str(methods[i % 4].into())));
        lets.push(("hn".into(), E::Str(format!("N{}", i))));
        if i == 0 {
            lets.push(("base".into(), E::Str(format!("http://{}", at))));
        }
        for (n, e) in &lets {
            text.push_str(&format!("let {} = {};\n", n, plain(e)));
            let v = machine.eval(e).map_err(|_| "a generated value has no value".to_string())?;
            machine.vars.insert(n.clone(), v);
        }
        text.push_str("r();\n");
        let filled = (|| {
            let hs: Option<Vec<(String, String)>> = headers.iter().map(|(n, v)| Some((n.clone(), fill(v, &machine)?.trim().to_string()))).collect();
            Some((fill(method, &machine)?, fill(&path, &machine)?, hs?, fill(extra, &machine)?, fill(&body, &machine)?))
        })();
        let Some(filled) = filled else { return Ok(()) };
        expected.push(filled);
    }
    let holes = placeholders(&template).iter().filter(|p| matches!(p, Piece::Hole(_))).count();
    obs.nontrivial_if(holes >= 2);
    obs.label(format!("sendings:{}", c.rounds.len()));
    if expected.iter().any(|e| placeholders(&e.4).len() > 1 || placeholders(&e.1).len() > 1) {
        obs.label("values that look like placeholders");
    }
    obs.extra += c.rounds.len() as u64;
    obs.sample(clip(&text, 400));
    let scripts = expected.iter().map(|_| Script::reply(ok_response())).collect();
    let got = net::play(scripts, &|_| text.clone());
    ensure!(got.error.is_none(), "error {:?}\n{}", got.error, text);
    ensure!(got.conns.len() == expected.len() && got.unexpected == 0, "{} connections for {} sendings\n{}", got.conns.len(), expected.len(), text);
    for (i, (conn, (method, path, headers, extra, body))) in got.conns.iter().zip(&expected).enumerate() {
        let w = wire::request(&conn.bytes).map_err(|e| format!("sending {}: {}\n{}", i, e, text))?;
        let mut hs = headers.clone();
        hs.push((extra.clone(), "1".to_string()));
        let sent: Vec<_> = w.headers.iter().filter(|(n, _)| !n.eq_ignore_ascii_case("content-length")).cloned().collect();
        ensure!(w.method == *method, "sending {}: method {:?}, expected {:?}\n{}", i, w.method, method, text);
        ensure!(w.target == format!("/{}", path), "sending {}: target {:?}, expected {:?}\n{}", i, w.target, format!("/{}", path), text);
        ensure!(sent == hs, "sending {}: headers {:?}, expected {:?}\n{}", i, sent, hs, text);
        ensure!(w.body == body.as_bytes(), "sending {}: body {:?}, expected {:?}\n{}", i, show(&w.body), clip(body, 600), clip(&text, 2000));
    }
    for n in LINE_NAMES.iter().chain(&BODY_NAMES).chain(&URL_NAMES) {
        let (now, before) = (run::get(&got.context, n), machine.vars.get(*n));
        let fine = match (&now, before) {
            (Some(a), Some(b)) => same(a, b),
            (None, None) => true,
            _ => false,
        };
        ensure!(fine, "variable {} is {:?} after the sendings, {:?} before\n{}", n, now, before, text);
    }
    Ok(())
}

/// Computed values: any expression's display text, and response values of an earlier request.
fn check_chained(c: &(String, i64, Vec<String>), obs: &mut Obs) -> Outcome {
    let (token, number, list) = c;
    obs.nontrivial();
    let doc = serde_json::json!({"token": token, "n": number, "list": list}).to_string();
    if doc.contains('\\') {
        return Ok(());
    }
    let program = |at: &str| {
        format!(
            "request login `GET http://{at}/login\nHost: h`[status == 200];\nrequest r `POST http://{at}/x\nAuthorization: Bearer {{token}}\n\n<{{n}} {{list}} {{s}}>`;\nlet reply = login();\nlet token = reply.json.token;\nlet n = reply.json.n + 1;\nlet list = reply.json.list;\nlet s = reply.status;\nr()",
            at = at
        )
    };
    let mut response = ok_response();
    response.extend_from_slice(doc.as_bytes());
    let got = net::play(vec![Script::reply(response), Script::reply(ok_response())], &program);
    obs.sample(clip(&doc, 200));
    ensure!(got.error.is_none(), "error {:?} for {}", got.error, doc);
    ensure!(got.conns.len() == 2, "{} connections", got.conns.len());
    let w = wire::request(&got.conns[1].bytes)?;
    let list = V::Arr(list.iter().cloned().map(V::Str).collect()).text().unwrap_or_default();
    let body = format!("<{} {} 200>", number + 1, list);
    ensure!(w.body == body.as_bytes(), "body {:?}, expected {:?}", show(&w.body), body);
    let auth = format!("Bearer {}", token);
    ensure!(w.values("authorization") == vec![auth.trim()], "authorization {:?}, expected {:?}", w.values("authorization"), auth);
    Ok(())
}

/// Many placeholders, and long names.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyHoles {
    /// in the URL, in one header, in further headers (one each), in the body
    counts: [u32; 4],
    names: u32,
    long: u32,
    value: u32,
}

fn check_many_holes(c: &ManyHoles, obs: &mut Obs) -> Outcome {
    let name = |i: u32| format!("v{}{}", i % c.names, "_x".repeat(c.long as usize));
    let value = |i: u32| format!("<{}:{}", i % c.names, "y".repeat(((i % c.names) * c.value) as usize % 500));
    let total: u32 = c.counts.iter().sum();
    obs.nontrivial_if(total > 50 || c.long > 15);
    obs.label(match total {
        0..=50 => "up to 50 placeholders",
        51..=256 => "up to 256",
        _ => "more",
    });
    obs.sample(format!("{:?}", c));
    let mut k = 0u32;
    let mut run = |n: u32, between: &str| -> (String, String) {
        let (mut a, mut b) = (String::new(), String::new());
        for i in k..k + n {
            a.push_str(&format!("{{{}}}{}", name(i * 7), between));
            b.push_str(&format!("{}{}", value(i * 7), between));
        }
        k += n;
        (a, b)
    };
    let url = run(c.counts[0], "/");
    let one = run(c.counts[1], ",");
    let more: Vec<(String, String)> = (0..c.counts[2]).map(|_| run(1, ".")).collect();
    let body = run(c.counts[3], "\n");
    let (body, expected_body) = (body.0.trim_end().to_string(), body.1.trim_end().to_string());
    let mut template = format!("POST http://{{at}}/{}\nX-One: -{}\n", url.0, one.0);
    for (i, (h, _)) in more.iter().enumerate() {
        template.push_str(&format!("X-{}: {}\n", i, h));
    }
    template.push_str(&format!("\n{}", body));
    let lets: Vec<String> = (0..c.names).map(|i| format!("let {} = \"{}\"", name(i), value(i))).collect();
    let got = net::exchange(Script::reply(ok_response()), &template, "", &lets);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    let w = wire::request(&only_conn(&got)?.bytes)?;
    ensure!(w.target == format!("/{}", url.1), "target {:?}, expected {:?}", clip(&w.target, 2000), clip(&url.1, 2000));
    ensure!(w.values("x-one") == [format!("-{}", one.1)], "header {:?}, expected {:?}", clip(&format!("{:?}", w.values("x-one")), 2000), clip(&one.1, 2000));
    for (i, (_, v)) in more.iter().enumerate() {
        ensure!(w.values(&format!("x-{}", i)) == [v.as_str()], "header X-{} {:?}, expected {:?}", i, w.values(&format!("x-{}", i)), v);
    }
    if w.body != expected_body.as_bytes() {
        let at = w.body.iter().zip(expected_body.as_bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("body of {} bytes, expected {}; first difference at {}: {:?}", w.body.len(), expected_body.len(), at, show(&w.body[at..])));
    }
    Ok(())
}

pub fn h01() -> Property {
    let many = Part::new(
        "many",
        "up to 1300 placeholders (thorough 20 000) in URL, one header, many headers and body, with names of up to 400 characters and values of up to 500; non-trivial: more than 50 placeholders or names longer than 32 characters",
        (800, 10_000),
        |t| {
            let n = || prop_oneof![2 => Just(0u32), 3 => 0u32..40, 2 => 40u32..300];
            let most = if t == Tier::Quick { 700u32 } else { 20_000 };
            ((n(), n(), n(), prop_oneof![4 => n(), 1 => 300..most]), 1u32..30, prop_oneof![2 => Just(0u32), 2 => 1u32..40, 1 => 40u32..200], 0u32..60)
                .prop_map(|((a, b, c, d), names, long, value)| ManyHoles { counts: [a, b, c, d], names, long, value })
                .boxed()
        },
        check_many_holes,
    )
    .shrink(300);
    let send = Part::new(
        "send",
        "templates with placeholders and look-alikes in method, URL, header names, header values and body, sent one to four times with rebindings between; bytes received compared with a hand-written scanner's filling; non-trivial: at least two placeholders",
        (9000, 250_000),
        templated,
        check_templated,
    );
    let chained = Part::new(
        "chained",
        "values taken from the response of an earlier request fill the next one; non-trivial: all",
        (800, 15_000),
        |_| {
            let t = || one_line(12).prop_map(|s| s.replace('\\', "/").trim().to_string());
            (t(), 0i64..i64::MAX - 1, vec(t(), 0..4)).boxed()
        },
        check_chained,
    );
    Property {
        id: "H01",
        parts: vec![send.boxed(), many.boxed(), chained.boxed()],
        known: vec![],
        assumptions: vec!["values placed in the request line have no blanks, values placed in headers no line breaks, values placed in the body no carriage returns (they would be message syntax)"],
    }
}

// ---------------------------------------------------------------- H02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Written {
    method: String,
    /// of the URL, after host and port
    path: String,
    version: String,
    headers: Vec<(String, String)>,
    /// blanks around names and values
    blanks: Vec<(String, String)>,
    body: Vec<String>,
    /// repetitions of the body's last line, for size
    repeat: u32,
    crlf: bool,
    indent: String,
    /// blank between the words of the first line
    gap: String,
    send_plan: Vec<u32>,
}

const METHODS: [&str; 9] = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT"];

fn header_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["Host", "Accept", "X-Id", "x-id", "Cookie", "User-Agent", "Content-Type", "content-type", "Authorization", "Connection", "Accept-Encoding", "A", "Content-Encoding", "Expect-CT"]).prop_map(String::from),
        3 => "[A-Za-z][A-Za-z0-9!#$%&'*+.^_|~-]{0,14}",
    ]
    .prop_filter("not of framing", |n| !n.eq_ignore_ascii_case("content-length") && !n.eq_ignore_ascii_case("transfer-encoding"))
    .boxed()
}

fn header_value() -> BoxedStrategy<String> {
    prop_oneof![
        3 => one_line(20).prop_map(|s| s.replace(['`', '{', '}'], ":").trim().to_string()),
        3 => select(vec!["", "application/json", "text/plain; charset=utf-8", "*/*", "a: b", "a=b; c=d", "close", "keep-alive", "gzip, deflate", ":", "Multipart/Form-Data", "application/x-www-form-urlencoded; charset=utf-8", "application/x-www-form-urlencoded", "multipart/form-data", "http://a.b/c?d=e"]).prop_map(String::from),
    ]
    .boxed()
}

fn written(tier: Tier) -> BoxedStrategy<Written> {
    let max = if tier == Tier::Quick { 300_000u32 } else { 3_000_000 };
    let path = prop_oneof![
        1 => Just(String::new()),
        6 => url_text(20).prop_map(|s| format!("/{}", s.replace(['`', '{', '}'], "-"))),
        2 => url_text(12).prop_map(|s| format!("/a?{}", s.replace(['`', '{', '}'], "="))),
        1 => url_text(8).prop_map(|s| format!("?{}", s.replace(['`', '{', '}'], "="))),
        1 => (1usize..20_000).prop_map(|n| format!("/{}", "p".repeat(n))),
    ];
    let line = prop_oneof![
        5 => any_text(20).prop_map(|s| s.chars().filter(|c| !"`{}\r\n".contains(*c)).collect::<String>()),
        1 => Just(String::new()),
        2 => select(vec!["{\"a\": [1, {\"b\": null}]}", "  \"indented\": true,", "a: b", "{", "}", "POST / HTTP/1.1", "Host: x", "\t\ttab", "é中🎉", "0", "a=b&c=d", "Content-Length: 3"]).prop_map(String::from),
    ];
    let headers = prop_oneof![
        24 => vec((header_name(), header_value()), 0..8),
        4 => vec((header_name(), header_value()), 30..120),
        1 => (vec((header_name(), header_value()), 5..30), 10usize..40).prop_map(|(some, times)| {
            (0..times).flat_map(|i| some.iter().map(move |(n, v)| (format!("{}-{}", n, i), v.clone()))).collect::<Vec<_>>()
        }),
    ];
    let framing = prop_oneof![
        6 => Just(None),
        1 => (select(vec!["Content-Length", "content-length", "CONTENT-LENGTH"]), select(vec!["0", "5", "17", "100000"])).prop_map(Some),
        1 => (select(vec!["Transfer-Encoding", "transfer-encoding"]), select(vec!["chunked", "gzip, chunked", "identity"])).prop_map(Some),
    ];
    let blank = || prop_oneof![3 => Just(""), 1 => Just(" "), 1 => Just("  \t")];
    (
        (prop_oneof![select(&METHODS[..])], path, select(vec!["", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/3.0"])),
        (headers, framing, any::<prop::sample::Index>()),
        vec((blank().prop_map(String::from), blank().prop_map(String::from)), 1..4),
        (vec(line, 0..6), prop_oneof![6 => Just(1u32), 1 => 1u32..2000, 1 => 1u32..max]),
        (any::<bool>(), select(vec!["", "    ", "\t"]), select(vec![" ", "  ", "\t"])),
        prop_oneof![2 => Just(vec![]), 1 => vec(prop_oneof![1u32..20, 1u32..9000], 1..5)],
    )
        .prop_map(|((method, path, version), (mut headers, framing, at), blanks, (body, repeat), (crlf, indent, gap), send_plan)| {
            if let Some((n, v)) = framing {
                headers.insert(at.index(headers.len() + 1), (n.to_string(), v.to_string()));
            }
            // forms and multipart bodies are H03's
            headers.retain(|(n, v)| !(n.eq_ignore_ascii_case("content-type") && (v == "application/x-www-form-urlencoded" || v == "multipart/form-data")));
            Written {
                method: method.to_string(),
                path,
                version: version.to_string(),
                headers,
                blanks,
                body,
                repeat,
                crlf,
                indent: indent.to_string(),
                gap: gap.to_string(),
                send_plan,
            }
        })
        .boxed()
}

fn check_written(c: &Written, obs: &mut Obs) -> Outcome {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let mut body = c.body.clone();
    if let Some(last) = body.last_mut() {
        *last = last.repeat(c.repeat as usize / last.len().max(1) + 1);
    }
    // lines may form a placeholder together, which is H01's
    if placeholders(&body.join(nl)).iter().any(|p| matches!(p, Piece::Hole(_))) {
        body.iter_mut().for_each(|l| *l = l.replace('{', "("));
    }
    let mut template = format!("{}{}{}{}http://{{at}}{}", nl, c.indent, c.method, c.gap, c.path);
    if !c.version.is_empty() {
        template.push_str(&c.gap);
        template.push_str(&c.version);
    }
    template.push_str(nl);
    for (i, (n, v)) in c.headers.iter().enumerate() {
        let (a, b) = &c.blanks[i % c.blanks.len()];
        template.push_str(&format!("{}{}{}:{}{}{}{}", c.indent, n, a, b, v, a, nl));
    }
    template.push_str(nl);
    template.push_str(&body.join(nl));
    // blanks around the template are not part of it
    let text = body.join("\n");
    let text = text.trim_end();
    let has_body = !text.trim().is_empty();
    let framed = c.headers.iter().any(|(n, _)| n.eq_ignore_ascii_case("content-length") || n.eq_ignore_ascii_case("transfer-encoding"));
    let target = match c.path.as_str() {
        p if p.starts_with('/') => p.to_string(),
        p => format!("/{}", p),
    };
    let version = if c.version.is_empty() { "HTTP/1.1" } else { &c.version };
    let mut headers = c.headers.clone();
    // the number of bytes the message should have
    let head: usize = c.method.len() + target.len() + version.len() + 4 + headers.iter().map(|(n, v)| n.len() + v.len() + 4).sum::<usize>() + 2;
    let mut total = head;
    if has_body {
        total += text.len();
        if !framed {
            total += "Content-Length: ".len() + text.len().to_string().len() + 2;
        }
    }
    obs.nontrivial_if(c.headers.len() >= 2 || has_body);
    obs.label(c.method.clone());
    obs.label(match (has_body, framed) {
        (true, true) => "body, framed by the template",
        (true, false) => "body",
        _ => "no body",
    });
    obs.label(match total {
        0..=8191 => "up to 8 KiB",
        8192..=65535 => "up to 64 KiB",
        _ => "larger",
    });
    obs.sample(clip(&template, 300));
    net::plan_send(&c.send_plan);
    let mut got = net::exchange(expecting(total), &template, "", &[]);
    net::plan_send(&[]);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    let conn = only_conn(&got)?;
    let w = wire::request(&conn.bytes)?;
    ensure!(w.method == c.method, "method {:?}, expected {:?}", w.method, c.method);
    ensure!(w.target == target, "target {:?}, expected {:?}", clip(&w.target, 300), clip(&target, 300));
    ensure!(w.version == version, "version {:?}, expected {:?}", w.version, version);
    let expected_body = if has_body { text.as_bytes() } else { &[] };
    if w.body != expected_body {
        let at = w.body.iter().zip(expected_body).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "body of {} bytes, expected {}; first difference at {}: {:?}, expected {:?}",
            w.body.len(),
            expected_body.len(),
            at,
            show(&w.body[at.min(w.body.len())..]),
            show(&expected_body[at..])
        ));
    }
    let mut sent = w.headers.clone();
    if !framed {
        let lengths: Vec<usize> = (0..sent.len()).filter(|i| sent[*i].0.eq_ignore_ascii_case("content-length")).collect();
        match lengths[..] {
            [] => ensure!(!has_body, "a body without framing: headers {:?}", sent),
            [i] => {
                ensure!(sent[i].1 == expected_body.len().to_string(), "Content-Length {}, body of {} bytes", sent[i].1, expected_body.len());
                sent.remove(i);
            }
            _ => return Err(format!("several Content-Length headers: {:?}", sent)),
        }
    }
    for h in headers.iter_mut() {
        h.1 = h.1.trim().to_string();
    }
    ensure!(sent == headers, "headers {:?}, expected {:?}", sent, headers);
    let r = got.records.pop().ok_or("no record")?;
    ensure!(r.error.is_empty(), "error {:?}", r.error);
    ensure!(r.method == w.method && r.version == w.version, "the record says {} {}, sent was {} {}", r.method, r.version, w.method, w.version);
    let recorded: Vec<_> = r.headers.iter().map(|(n, v)| (n.trim().to_string(), v.trim().to_string())).collect();
    ensure!(recorded == w.headers, "the record's headers are {:?}, sent were {:?}", recorded, w.headers);
    ensure!(r.body.as_bytes() == w.body || (!has_body && r.body.trim().is_empty()), "the record's body is {:?}, sent was {:?}", clip(&r.body, 300), show(&w.body));
    ensure!(r.path == w.target, "the record's path is {:?}, sent was {:?}", r.path, w.target);
    Ok(())
}

/// Sizes around the buffers on the way.
fn check_sized(c: &(u32, u32, bool, Vec<u32>), obs: &mut Obs) -> Outcome {
    let (head, body, lines, plan) = c;
    let value = "v".repeat(*head as usize);
    let mut text: String = (0..*body).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    if *lines {
        text = text.replace('z', "\n");
    }
    let text = text.trim();
    let template = format!("POST http://{{at}}/\nX: {}\n\n{}", value, text);
    obs.nontrivial();
    obs.sample(format!("head value of {} bytes, body of {} bytes", head, body));
    let cl = if text.is_empty() { 0 } else { "Content-Length: \r\n".len() + text.len().to_string().len() };
    let total = "POST / HTTP/1.1\r\nX: \r\n\r\n".len() + value.len() + cl + text.len();
    net::plan_send(plan);
    let got = net::exchange(expecting(total), &template, "", &[]);
    net::plan_send(&[]);
    let conn = only_conn(&got)?;
    let w = wire::request(&conn.bytes)?;
    ensure!(w.values("x") == vec![value.as_str()], "header of {} bytes instead of {}", w.values("x").first().map_or(0, |v| v.len()), value.len());
    ensure!(w.body == text.as_bytes(), "body of {} bytes, expected {}, or different bytes", w.body.len(), text.len());
    ensure!(got.records.len() == 1 && got.records[0].error.is_empty() && got.records[0].response.status == 200, "record {:?}", got.records);
    Ok(())
}

pub fn h02() -> Property {
    let message = Part::new(
        "message",
        "method, target, version, up to 120 header lines, body lines, layouts and sizes; the bytes received are parsed strictly and compared field by field, sends accepted in pieces in a third of the cases; non-trivial: a body or at least two headers",
        (9000, 250_000),
        written,
        check_written,
    );
    let sizes = Part::new(
        "sizes",
        "head and body sizes around 8 KiB, 16 KiB and 64 KiB, bodies also up to 9 MB, with partial sends; non-trivial: all",
        (900, 15_000),
        |t| {
            let edge = move || {
                let big = if t == Tier::Quick { 200_000u32 } else { 4_000_000 };
                prop_oneof![
                    3 => (select(vec![1024u32, 4096, 8192, 16384, 32768, 65536, 131072]), -90i32..90).prop_map(|(n, d)| (n as i32 + d) as u32),
                    1 => 0u32..20_000,
                    1 => 0u32..big,
                ]
            };
            let large = prop_oneof![10 => edge(), 1 => (18u32..24, -3i32..4).prop_map(|(p, d)| ((1i32 << p) + d) as u32), 1 => 1_000_000u32..9_000_000];
            (prop_oneof![2 => 0u32..40, 1 => edge()], large, any::<bool>(), prop_oneof![1 => Just(vec![]), 2 => vec(prop_oneof![1u32..200, 1000u32..70_000], 1..6)]).boxed()
        },
        check_sized,
    );
    Property {
        id: "H02",
        parts: vec![message.boxed(), sizes.boxed()],
        known: vec![],
        assumptions: vec![
            "blanks around the whole template are not part of the message",
            "placeholder look-alikes are H01's, form and multipart bodies H03's",
        ],
    }
}

// ---------------------------------------------------------------- H03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fields {
    fields: Vec<(String, String)>,
    /// the field's value is given by a variable
    by_variable: Vec<bool>,
    blanks: Vec<(String, String)>,
    content_type: String,
    before: Vec<(String, String)>,
    length_given: bool,
}

fn field_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["a", "b", "a", "file", "user[name]", "x.y", "a b", "é", "a&b", "a=b", "a+b", "100%", "", "中文", "@x"]).prop_map(String::from),
        2 => one_line(8).prop_map(|s| s.replace(['`', '{', '}', ':', '"', '\\'], "_").trim().to_string()),
    ]
    .boxed()
}

fn field_value() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["", "1", "a b", "a+b", "a&b=c", "50%", "%41", "a:b:c", "http://x/y?z=1&w=2", "é", "中文🎉", "a;b", "\"quoted\"", "'", "~*-._", "<a href=\"x\">", "\u{1}", "a\tb", "x=@y", "&", "=", "+"]).prop_map(String::from),
        3 => one_line(16),
        1 => (short_str(), 1usize..3000).prop_map(|(s, n)| s.replace(['\n', '\r'], " ").repeat(n)),
    ]
    .prop_map(|s| s.trim().trim_start_matches('@').trim().to_string())
    .boxed()
}

fn fields() -> BoxedStrategy<Fields> {
    let blank = || prop_oneof![3 => Just(""), 2 => Just(" "), 1 => Just("  \t")];
    (
        prop_oneof![
            40 => vec((field_name(), field_value()), 1..8),
            1 => (vec((field_name(), field_value().prop_filter("short", |v| v.len() < 100)), 2..12), 20usize..100).prop_map(|(some, times)| {
                (0..times).flat_map(|i| some.iter().map(move |(n, v)| (format!("{}{}", n, i), v.clone()))).collect::<Vec<_>>()
            }),
        ],
        vec(any::<bool>(), 1..5),
        vec((blank().prop_map(String::from), blank().prop_map(String::from)), 1..4),
        select(vec!["Content-Type", "content-type", "CONTENT-TYPE"]),
        vec((select(vec!["Host", "X-A", "Accept", "X-Content-Type"]).prop_map(String::from), select(vec!["h", "*/*", "", "multipart/form-data", "application/json", "application/x-www-form-urlencoded"]).prop_map(String::from)), 0..3),
        any::<bool>(),
    )
        .prop_map(|(fields, by_variable, blanks, content_type, before, length_given)| Fields {
            fields,
            by_variable,
            blanks,
            content_type: content_type.to_string(),
            before,
            length_given,
        })
        .boxed()
}

/// The template of the fields and the bindings it needs.
fn field_lines(c: &Fields) -> (String, Vec<String>) {
    let mut lines = String::new();
    let mut lets = Vec::new();
    for (i, (n, v)) in c.fields.iter().enumerate() {
        let (a, b) = &c.blanks[i % c.blanks.len()];
        let needs_variable = v.contains('`') || !placeholders(v).iter().all(|p| matches!(p, Piece::Text(_)));
        let value = if (needs_variable || c.by_variable[i % c.by_variable.len()]) && !v.contains('"') {
            lets.push(format!("let v{} = \"{}\"", i, v));
            format!("{{v{}}}", i)
        } else if needs_variable {
            v.replace(['`', '{', '}'], "_")
        } else {
            v.clone()
        };
        lines.push_str(&format!("{}{}{}:{}{}{}\n", a, n, b, b, value, a));
    }
    (lines, lets)
}

fn expected_fields(c: &Fields) -> Vec<(String, String)> {
    c.fields
        .iter()
        .map(|(n, v)| {
            let needs_variable = v.contains('`') || !placeholders(v).iter().all(|p| matches!(p, Piece::Text(_)));
            let v = if needs_variable && v.contains('"') { v.replace(['`', '{', '}'], "_") } else { v.clone() };
            (n.clone(), v.trim().to_string())
        })
        .collect()
}

fn check_form(c: &Fields, obs: &mut Obs) -> Outcome {
    let (lines, lets) = field_lines(c);
    let headers: String = c.before.iter().map(|(n, v)| format!("{}: {}\n", n, v)).collect();
    let template = format!("POST http://{{at}}/\n{}{}: application/x-www-form-urlencoded\n\n{}", headers, c.content_type, lines);
    let expected = expected_fields(c);
    obs.nontrivial_if(expected.iter().any(|(n, v)| !n.chars().chain(v.chars()).all(|c| c.is_ascii_alphanumeric())));
    obs.label(format!("fields:{}", expected.len().min(4)));
    obs.sample(clip(&lines, 300));
    let got = net::exchange(Script::reply(ok_response()), &template, "", &lets);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    let w = wire::request(&only_conn(&got)?.bytes)?;
    let fields = wire::form(&w.body).map_err(|e| format!("{} in body {:?}", e, show(&w.body)))?;
    ensure!(fields == expected, "the server decodes {:?}, the template has {:?}; body {:?}", fields, expected, show(&w.body));
    ensure!(w.values("content-length") == vec![w.body.len().to_string().as_str()], "Content-Length {:?} for {} bytes", w.values("content-length"), w.body.len());
    ensure!(w.values("content-type") == vec!["application/x-www-form-urlencoded"], "Content-Type {:?}", w.values("content-type"));
    for (n, v) in &c.before {
        ensure!(w.values(n).contains(&v.as_str()), "header {} is gone: {:?}", n, w.headers);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FileData {
    Bytes(#[serde(with = "crate::fw_bytes")] Vec<u8>),
    Pattern(u32, u8),
    Boundaries,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Multi {
    text: Fields,
    /// position among the fields, name of the field, name of the file, contents
    files: Vec<(u8, String, String, FileData)>,
}

fn file_bytes(d: &FileData) -> Vec<u8> {
    match d {
        FileData::Bytes(b) => b.clone(),
        FileData::Pattern(n, step) => (0..*n).map(|i| (i as u8).wrapping_mul(*step | 1).wrapping_add((i >> 8) as u8)).collect(),
        FileData::Boundaries => b"--\r\n\r\n--boundary\r\n--boundary--\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n\r\n--".to_vec(),
    }
}

fn multi(tier: Tier) -> BoxedStrategy<Multi> {
    let max = if tier == Tier::Quick { 150_000u32 } else { 2_000_000 };
    let data = prop_oneof![
        3 => vec(any::<u8>(), 0..60).prop_map(FileData::Bytes),
        2 => (prop_oneof![30 => 0u32..3000, 10 => 8000u32..8400, 10 => 0u32..max, 1 => 1_000_000u32..3_000_000], any::<u8>()).prop_map(|(n, s)| FileData::Pattern(n, s)),
        1 => Just(FileData::Boundaries),
        1 => any_text(40).prop_map(|s| FileData::Bytes(s.into_bytes())),
    ];
    let file_name = prop_oneof![
        select(vec!["a.txt", "b.json", "image.png", "noext", ".hidden", "a.b.c.tar.gz", "中文.pdf", "with space.bin", "é.csv", "@at.txt", "x=y;z.html"]).prop_map(String::from),
        "[a-zA-Z0-9_-]{1,12}(\\.[a-z]{1,4})?",
    ];
    (fields(), any::<bool>(), vec((any::<u8>(), field_name(), file_name, data), 0..4))
        .prop_map(|(mut text, none, files)| {
            if none && !files.is_empty() {
                text.fields.clear();
            }
            Multi { text, files }
        })
        .boxed()
}

/// Runs a multipart request; the parts the server decodes, and those of the template.
fn multi_parts(c: &Multi, obs: &mut Obs) -> Result<(Vec<wire::PartOf>, Vec<wire::PartOf>, Vec<wire::PartOf>), String> {
    let dir = Scratch::new("h03");
    let (lines, lets) = field_lines(&c.text);
    let mut lines: Vec<String> = lines.lines().map(String::from).collect();
    let mut parts: Vec<wire::PartOf> = expected_fields(&c.text).into_iter().map(|(name, v)| wire::PartOf { name, file: None, data: v.into_bytes() }).collect();
    for (i, (at, name, file, data)) in c.files.iter().enumerate() {
        let folder = dir.0.join(format!("d{}", i));
        std::fs::create_dir_all(&folder).expect("folder");
        let path = folder.join(file);
        let data = file_bytes(data);
        std::fs::write(&path, &data).expect("file");
        let at = *at as usize % (lines.len() + 1);
        lines.insert(at, format!("{}: @{}", name, path.display()));
        parts.insert(
            at,
            wire::PartOf {
                name: name.clone(),
                file: Some(file.clone()),
                data,
            },
        );
    }
    let headers: String = c.text.before.iter().map(|(n, v)| format!("{}: {}\n", n, v)).collect();
    let template = format!("POST http://{{at}}/\n{}{}: multipart/form-data\nX-Last: 1\n\n{}", headers, c.text.content_type, lines.join("\n"));
    obs.sample(clip(&lines.join("\n"), 300));
    obs.nontrivial_if(parts.len() >= 2 || !c.files.is_empty());
    obs.label(format!("files:{}", c.files.len()));
    let got = net::exchange(Script::reply(ok_response()), &template, "", &lets);
    ensure!(got.error.is_none(), "error {:?}", got.error);
    let w: Wire = wire::request(&only_conn(&got)?.bytes)?;
    ensure!(w.values("content-length") == vec![w.body.len().to_string().as_str()], "Content-Length {:?} for {} bytes", w.values("content-length"), w.body.len());
    let types = w.values("content-type");
    ensure!(types.len() == 1, "Content-Type {:?}", types);
    let mut t = types[0].split(';');
    ensure!(t.next().is_some_and(|t| t.trim().eq_ignore_ascii_case("multipart/form-data")), "Content-Type {:?}", types);
    let boundary = t
        .find_map(|p| p.trim().strip_prefix("boundary=").map(|b| b.trim_matches('"').to_string()))
        .ok_or_else(|| format!("no boundary in {:?}", types))?;
    for (n, v) in c.text.before.iter().map(|(n, v)| (n.as_str(), v.as_str())).chain([("X-Last", "1")]) {
        ensure!(w.values(n).contains(&v), "header {} is gone: {:?}", n, w.headers);
    }
    let sent = wire::multipart(&w.body, &boundary).map_err(|e| format!("{}; boundary {:?}, body {:?}", e, boundary, show(&w.body)))?;
    // the order the library is known to send: texts, then files from the last to the first
    let mut reordered: Vec<wire::PartOf> = parts.iter().filter(|p| p.file.is_none()).cloned().collect();
    reordered.extend(parts.iter().rev().filter(|p| p.file.is_some()).cloned());
    Ok((sent, parts, reordered))
}

fn brief(parts: &[wire::PartOf]) -> String {
    format!("{:?}", parts.iter().map(|p| (p.name.as_str(), p.file.as_deref(), p.data.len(), clip(&String::from_utf8_lossy(&p.data), 60))).collect::<Vec<_>>())
}

fn check_multi(c: &Multi, obs: &mut Obs) -> Outcome {
    let (sent, parts, reordered) = multi_parts(c, obs)?;
    // listed as a known finding: the order, and nothing else
    ensure!(sent == parts || sent == reordered, "the server decodes {}, the template has {}", brief(&sent), brief(&parts));
    if parts != reordered {
        obs.label(if sent == parts { "in order" } else { "files reordered (known finding)" });
    }
    Ok(())
}

fn probe_order() -> Result<bool, String> {
    let text = Fields {
        fields: vec![("t".into(), "1".into())],
        by_variable: vec![false],
        blanks: vec![(String::new(), String::new())],
        content_type: "Content-Type".into(),
        before: vec![],
        length_given: false,
    };
    let f = |n: &str| (0u8, n.to_string(), format!("{}.txt", n), FileData::Bytes(n.as_bytes().to_vec()));
    let c = Multi { text, files: vec![f("b"), f("a")] };
    let (sent, parts, reordered) = multi_parts(&c, &mut Obs::default())?;
    match (sent == parts, sent == reordered) {
        (true, _) => Ok(false),
        (_, true) => Ok(true),
        _ => Err(format!("the server decodes {}, the template has {}", brief(&sent), brief(&parts))),
    }
}

/// A path relative to the directory of the command.
fn file_path() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        3 => select(vec!["data.bin", "@at", "@@two", "a b", "中文", "é.txt", "-x", "~", "a:b", "$HOME", "%41", "a=b;c", "..hidden", "...", "#1", "a+b", "(1)", "x'y", ":", "@", "*", "http:", "C:"]).prop_map(String::from),
        1 => "[a-zA-Z0-9@:._-]{1,10}".prop_map(|s| if s.chars().all(|c| c == '.') { "dots".to_string() } else { s }),
    ];
    (select(vec!["", "", "", "./", "sub/../", "sub//", ".//"]), vec(piece, 1..4)).prop_map(|(before, pieces)| format!("{}{}", before, pieces.join("/"))).boxed()
}

/// The command, from its own directory, with a file named relative to it.
fn check_command((c, path, by_variable): &(Fields, String, bool), obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("h03c");
    std::fs::create_dir_all(dir.0.join("sub")).expect("sub");
    let full = dir.0.join(path);
    std::fs::create_dir_all(full.parent().expect("parent")).expect("folders");
    std::fs::write(&full, b"\x00\xff\r\n--x").expect("data");
    let (lines, mut lets) = field_lines(c);
    let named = if *by_variable {
        lets.push(format!("let path = \"{}\"", path));
        "{path}".to_string()
    } else {
        path.clone()
    };
    if lets.iter().any(|l| l.contains('\0')) || lines.contains('\0') {
        return Ok(());
    }
    obs.nontrivial();
    let (conns, unexpected) = net::serve_while(vec![Script::reply(ok_response())], &|at| {
        let text = format!("{}\nrequest r `POST http://{}/\nContent-Type: multipart/form-data\n\n{}f: @{}`;\ntest t {{ r() }}", lets.join(";\n"), at, lines, named);
        std::fs::write(dir.0.join("s.fan"), text).expect("suite");
        let out = cli::run_in(&["test", "-p", "s.fan", "t"], b"", &[], Some(&dir.0));
        cli::sane(&out)
    })?;
    ensure!(conns.len() == 1 && unexpected == 0, "{} connections", conns.len());
    let w = wire::request(&conns[0].bytes)?;
    let boundary = w.values("content-type").first().and_then(|t| t.split("boundary=").nth(1)).map(|b| b.trim_matches('"').to_string()).ok_or("no boundary")?;
    let sent = wire::multipart(&w.body, &boundary)?;
    let mut parts: Vec<wire::PartOf> = expected_fields(c).into_iter().map(|(name, v)| wire::PartOf { name, file: None, data: v.into_bytes() }).collect();
    parts.push(wire::PartOf {
        name: "f".into(),
        file: Some(full.file_name().unwrap().to_string_lossy().into_owned()),
        data: b"\x00\xff\r\n--x".to_vec(),
    });
    obs.sample(clip(&format!("{}f: @{}", lines, named), 200));
    ensure!(sent == parts, "the server decodes {}, the template has {}", brief(&sent), brief(&parts));
    Ok(())
}

pub fn h03() -> Property {
    let form = Part::new(
        "form",
        "lists of name: value lines with separators, escapes, Unicode, repetitions and blanks, given literally or by variables; decoded by a hand-written form decoder; non-trivial: some character needs encoding",
        (8000, 200_000),
        |_| fields(),
        check_form,
    );
    let multipart = Part::new(
        "multipart",
        "text parts and file parts (binary, empty, large, boundary-like contents; odd file names) at any position; decoded by a hand-written RFC 2046 decoder; non-trivial: at least two parts or a file",
        (5000, 100_000),
        multi,
        check_multi,
    );
    let command = Part::new("command", "multipart requests sent by the built command with a file path relative to its directory, of any shape, given literally or by a variable; non-trivial: all", (800, 12_000), |_| (fields(), file_path(), any::<bool>()).boxed(), check_command).shrink(100);
    Property {
        id: "H03",
        parts: vec![form.boxed(), multipart.boxed(), command.boxed()],
        known: vec![Known { id: "H03-order", probe: probe_order }],
        assumptions: vec!["names and file names contain no quotation marks; files named by @path exist and are readable; boundaries are random and do not occur in the contents"],
    }
}
