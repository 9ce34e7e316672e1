//! T01 and T02: what is recorded of a request, how it is judged, and the record file.

use crate::avro::{self, A};
use crate::cli;
use crate::ensure;
use crate::fw::{clip, Known, Obs, Outcome, Part, Property, Scratch, Tier};
use crate::gen::{any_text, edge_int, layout, union, Gen, Ty, TYPES};
use crate::lang::{plain, Machine, Op, Printer, E, OPS};
use crate::model::{same, V};
use crate::net::{self, Act, Rec, Script};
use crate::props::lang_props::names;
use crate::props::response_props::same_response;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;
use ::avro as avro_crate;

fn bx(e: E) -> Box<E> {
    Box::new(e)
}
fn var(s: &str) -> E {
    E::Var(s.to_string())
}
fn string(s: &str) -> E {
    E::Str(s.to_string())
}

// ---------------------------------------------------------------- T01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Body {
    Empty,
    Text(String),
    /// a literal of the language that is JSON too
    Json(E),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Other {
    Expr(E),
    /// the first side again
    Echo,
    /// the value of the first side, or one next to it
    Value(i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Claim {
    op: Op,
    one: E,
    other: Other,
    swap: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Wire {
    Reply,
    Refused,
    /// closed without an answer
    Silence,
    Garbage,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Verdict {
    wire: Wire,
    status: u16,
    reason: String,
    headers: Vec<(String, String)>,
    body: Body,
    claims: Vec<Claim>,
    /// 1: operators are chosen so that all hold; 2: so that all but one hold
    aim: u8,
    layout: Vec<u8>,
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-z]{0,4}", 1 => "[A-Za-z0-9 é中_-]{0,10}", 1 => select(vec!["null", "true", "200", "OK", "{a}", "{status}", "1.1"]).prop_map(String::from)].boxed()
}

fn long_word() -> BoxedStrategy<String> {
    (select(vec!["a", "xy", "é", "long text "]), prop_oneof![3 => 60u32..600, 1 => 600u32..9000]).prop_map(|(t, n)| t.repeat(n as usize)).boxed()
}

fn json() -> BoxedStrategy<E> {
    let leaf = prop_oneof![
        16 => edge_int().prop_map(E::Int),
        4 => (1i64..1000).prop_map(|i| E::Neg(bx(E::Int(i)))),
        8 => (0u32..100, 1u32..100).prop_map(|(a, b)| E::Float(format!("{}.{}", a, b))),
        4 => any::<bool>().prop_map(E::Bool),
        12 => word().prop_map(E::Str),
        1 => long_word().prop_map(E::Str),
    ];
    leaf.prop_recursive(3, 20, 4, |inner| {
        prop_oneof![
            1 => vec(inner.clone(), 0..4).prop_map(E::Arr),
            2 => vec((select(vec!["k", "name", "x", "y", "id", "k1"]).prop_map(string), inner), 0..4).prop_map(E::Map),
        ]
    })
    .boxed()
}

/// Something of the response.
fn part_of_response() -> BoxedStrategy<E> {
    let key = || select(vec!["k", "name", "x", "y", "id", "k1", "missing"]);
    let json = (0usize..3, vec((key(), any::<u8>()), 3)).prop_map(|(n, steps)| {
        let mut e = var("json");
        for (k, how) in steps.into_iter().take(n) {
            e = match how % 4 {
                0 => E::Index(bx(e), bx(E::Int((how / 4 % 3) as i64))),
                1 => E::Index(bx(e), bx(string(k))),
                _ => E::Field(bx(e), k.to_string()),
            };
        }
        e
    });
    let header = (select(vec!["A", "B", "Content-Type", "X-1", "Missing"]), any::<u8>()).prop_map(|(h, how)| {
        let all = match how % 3 {
            0 if !h.contains('-') => E::Field(bx(var("headers")), h.to_string()),
            _ => E::Index(bx(var("headers")), bx(string(h))),
        };
        match how / 3 % 3 {
            0 => all,
            i => E::Index(bx(all), bx(E::Int(i as i64 - 1))),
        }
    });
    let simple = select(vec!["status", "status", "version", "reason", "headers", "body", "json"]).prop_map(var);
    union(vec![(4, simple.boxed()), (3, json.boxed()), (2, header.boxed())])
}

fn side() -> BoxedStrategy<E> {
    let free = Gen::new(2, true, false, false, true, 1);
    let part = part_of_response;
    let call = |n: &str, e: E| E::Call(n.to_string(), vec![e]);
    let arith = vec![Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];
    let compare: Vec<Op> = OPS.into_iter().filter(|o| o.is_compare()).collect();
    union(vec![
        (10, part()),
        (3, (select(arith), part(), edge_int()).prop_map(|(op, p, i)| E::Bin(op, bx(p), bx(E::Int(i)))).boxed()),
        (2, (part(), word()).prop_map(|(p, w)| E::Bin(Op::Add, bx(p), bx(E::Str(w)))).boxed()),
        (2, part().prop_map(move |p| call("length", p)).boxed()),
        (1, part().prop_map(|p| E::Call("format".into(), vec![string("<{v}>"), p])).boxed()),
        (1, (select(compare), part(), part()).prop_map(|(op, a, b)| E::Bin(op, bx(a), bx(b))).boxed()),
        (1, (select(vec![Op::And, Op::Or]), part(), part()).prop_map(|(op, a, b)| E::Bin(op, bx(a), bx(b))).boxed()),
        (1, part().prop_map(|p| E::Not(bx(p))).boxed()),
        (1, part().prop_map(|p| E::Neg(bx(p))).boxed()),
        (1, vec(part(), 0..3).prop_map(E::Arr).boxed()),
        (1, select(vec!["unbound", "r", "other"]).prop_map(var).boxed()),
        (2, free.any(2)),
        (1, free.any(0)),
    ])
}

fn claim() -> BoxedStrategy<Claim> {
    let ops: Vec<Op> = OPS.into_iter().filter(|o| o.is_compare()).collect();
    let other = prop_oneof![3 => side().prop_map(Other::Expr), 1 => Just(Other::Echo), 5 => (-1i8..2).prop_map(Other::Value)];
    (select(ops), side(), other, any::<bool>()).prop_map(|(op, one, other, swap)| Claim { op, one, other, swap }).boxed()
}

fn verdict() -> BoxedStrategy<Verdict> {
    let body = prop_oneof![2 => Just(Body::Empty), 3 => any_text(20).prop_map(Body::Text), 1 => long_word().prop_map(Body::Text), 10 => json().prop_map(Body::Json)];
    let wire = prop_oneof![12 => Just(Wire::Reply), 1 => Just(Wire::Refused), 1 => Just(Wire::Silence), 1 => Just(Wire::Garbage)];
    let header = (select(vec!["A", "B", "Content-Type", "X-1"]).prop_map(String::from), "[a-z0-9][a-z0-9 ]{0,5}[a-z0-9]");
    let status = prop_oneof![3 => Just(200u16), 2 => select(vec![201u16, 204, 301, 400, 404, 500, 503, 999]), 1 => 200u16..1000];
    let reason = prop_oneof![3 => Just("OK".to_string()), 1 => Just(String::new()), 1 => "[A-Z][a-z]{1,5}( [A-Z][a-z]{1,5})?"];
    let claims = prop_oneof![10 => vec(claim(), 0..1), 60 => vec(claim(), 1..7), 10 => vec(claim(), 20..40), 1 => vec(claim(), 40..300)];
    // some are written again, next to the first or elsewhere
    let again = prop_oneof![4 => Just(vec![]), 1 => vec((any::<prop::sample::Index>(), any::<prop::sample::Index>()), 1..4)];
    (wire, status, reason, vec(header, 0..4), body, (claims, again), 0u8..3, layout())
        .prop_map(|(wire, status, reason, headers, body, (mut claims, again), aim, layout)| {
            for (from, to) in again {
                if !claims.is_empty() {
                    let c = from.get(&claims).clone();
                    claims.insert(to.index(claims.len() + 1), c);
                }
            }
            Verdict { wire, status, reason, headers, body, claims, aim, layout }
        })
        .boxed()
}

/// A literal whose value this is, or is next to.
fn literal(v: &V, by: i8) -> Option<E> {
    Some(match v {
        V::Null => return None,
        V::Int(i) => match i.checked_add(by as i64)? {
            i if i >= 0 => E::Int(i),
            i64::MIN => return None,
            i => E::Neg(bx(E::Int(-i))),
        },
        V::Float(f) => {
            let t = format!("{}", f + by as f64);
            let t = if t.contains('.') { t } else { t + ".0" };
            if !f.is_finite() {
                return None;
            }
            match t.strip_prefix('-') {
                Some(t) => E::Neg(bx(E::Float(t.to_string()))),
                None => E::Float(t),
            }
        }
        V::Bool(b) => E::Bool(*b == (by == 0)),
        V::Str(s) if s.contains(['"', '\\']) => return None,
        V::Str(s) if by < 0 => {
            let mut c = s.chars();
            c.next_back()?;
            E::Str(c.as_str().to_string())
        }
        V::Str(s) => E::Str(s.clone() + if by == 0 { "" } else { "x" }),
        V::Arr(items) => {
            let mut out = Vec::new();
            for i in items {
                out.push(literal(i, 0)?);
            }
            if by > 0 {
                out.push(E::Int(1));
            }
            E::Arr(out)
        }
        V::Map(m) => {
            let mut out = Vec::new();
            for (k, v) in m {
                if k.contains(['"', '\\']) {
                    return None;
                }
                out.push((string(k), literal(v, 0)?));
            }
            if by > 0 {
                out.push((string("more"), E::Int(1)));
            }
            E::Map(out)
        }
    })
}

fn written_as_shown(e: &E) -> bool {
    match e {
        E::Float(t) => t.parse::<f64>().is_ok_and(|f| format!("{}", f) == *t),
        E::Arr(i) | E::Call(_, i) => i.iter().all(written_as_shown),
        E::Map(p) => p.iter().all(|(k, v)| written_as_shown(k) && written_as_shown(v)),
        E::Index(a, b) | E::Bin(_, a, b) => written_as_shown(a) && written_as_shown(b),
        E::Field(a, _) | E::Let(_, a) | E::Neg(a) | E::Not(a) => written_as_shown(a),
        E::If(..) => false,
        _ => true,
    }
}

fn blankless(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// What is expected of one assertion; None: cannot be predicted.
struct Judged {
    /// blanks removed
    text: Option<String>,
    left: Option<String>,
    op: &'static str,
    right: Option<String>,
    result: Option<bool>,
}

/// Fixes the open side of an assertion by the values of the response.
fn settle(c: &Claim, vars: &BTreeMap<String, V>) -> E {
    let mut m = Machine { vars: vars.clone(), ..Machine::default() };
    let other = match &c.other {
        Other::Expr(e) => e.clone(),
        Other::Echo => c.one.clone(),
        Other::Value(by) => {
            let v = m.eval(&c.one).unwrap_or(V::Null);
            // there is no way to write null but to have something that has it
            literal(&v, *by).unwrap_or(E::Index(bx(E::Arr(vec![])), bx(E::Int(0))))
        }
    };
    match c.swap {
        true => E::Bin(c.op, bx(other), bx(c.one.clone())),
        false => E::Bin(c.op, bx(c.one.clone()), bx(other)),
    }
}

/// The assertions of a case, with every side and operator fixed.
fn settled(c: &Verdict, vars: &BTreeMap<String, V>) -> Vec<E> {
    let odd = c.claims.iter().map(|c| c.one.size()).sum::<usize>() % c.claims.len().max(1);
    let all = OPS.into_iter().filter(|o| o.is_compare()).collect::<Vec<Op>>();
    let value = |e: &E| Machine { vars: vars.clone(), ..Machine::default() }.eval(e).unwrap_or(V::Null);
    let mut out = Vec::new();
    for (i, claim) in c.claims.iter().enumerate() {
        let mut e = settle(claim, vars);
        if let E::Bin(op, a, b) = &mut e {
            let (l, r) = (value(a), value(b));
            let want = c.aim == 1 || i != odd;
            let start = all.iter().position(|o| o == op).unwrap_or(0);
            for k in 0..all.len() {
                let o = all[(start + k) % all.len()];
                if c.aim > 0 && matches!(crate::lang::binary(o, &l, &r), Ok(V::Bool(h)) if h == want) {
                    *op = o;
                    break;
                }
            }
        }
        out.push(e);
    }
    out
}

fn assertion_text(e: &E, layout: &[u8]) -> (String, bool) {
    let mut p = Printer::new(layout);
    // a parenthesised comparison at the top is the finding T01-dropped
    if let E::Bin(op, a, b) = e {
        p.comparison(*op, a, b);
    }
    let commas = p.tokens.windows(2).any(|w| w[0] == "," && matches!(w[1].as_str(), ")" | "]" | "}"));
    (p.join(), commas)
}

fn judge(e: &E, text: &str, exact: bool, m: &mut Machine) -> Judged {
    let E::Bin(op, a, b) = e else { unreachable!() };
    m.unpredictable = false;
    let l = m.eval(a).unwrap_or(V::Null);
    let r = m.eval(b).unwrap_or(V::Null);
    let known = !m.unpredictable;
    m.unpredictable = false;
    let result = match crate::lang::binary(*op, &l, &r) {
        Ok(V::Bool(b)) => b,
        _ => unreachable!(),
    };
    Judged {
        text: (exact && written_as_shown(e)).then(|| blankless(text)),
        left: l.text().filter(|_| known),
        op: op.text(),
        right: r.text().filter(|_| known),
        result: known.then_some(result),
    }
}

fn check_asserts(r: &Rec, expected: &[Judged], shown: &[String]) -> Outcome {
    ensure!(r.asserts.len() == expected.len(), "{} assertions in the record, {} in the request: {:?}", r.asserts.len(), expected.len(), shown);
    for (i, (got, want)) in r.asserts.iter().zip(expected).enumerate() {
        let (text, left, op, right, result) = got;
        let at = || format!("assertion {} `{}` with status {} reason {:?} headers {:?} body {:?}", i, shown[i], r.response.status, r.response.reason, r.response.headers, clip(&r.response.body, 300));
        if let Some(t) = &want.text {
            ensure!(blankless(text) == *t, "text {:?}, {}", text, at());
        }
        if let Some(t) = &want.left {
            ensure!(left == t, "left side {:?}, expected {:?}, {}", left, t, at());
        }
        ensure!(op == want.op, "operator {:?}, {}", op, at());
        if let Some(t) = &want.right {
            ensure!(right == t, "right side {:?}, expected {:?}, {}", right, t, at());
        }
        if let Some(b) = want.result {
            ensure!(*result == b, "result {}, expected {} ({} {} {}), {}", result, b, left, op, right, at());
        }
    }
    check_report(r)
}

/// The report of a record shows what the record has.
fn check_report(r: &Rec) -> Outcome {
    let pass = r.error.is_empty() && r.asserts.iter().all(|a| a.4);
    let mut head = format!("=== TEST  {}\n", r.name);
    for (text, left, op, right, result) in &r.asserts {
        head.push_str(&format!("{} => {} {} {} => {}\n", text, left, op, right, result));
    }
    head.push_str(&format!("--- {}  {} (", if pass { "PASS" } else { "FAIL" }, r.name));
    let rest = r.display.strip_prefix(&head);
    ensure!(rest.is_some_and(|t| t.ends_with(')') && !t.contains('\n')), "report {:?}, expected {:?}", clip(&r.display, 1500), clip(&head, 1500));
    Ok(())
}

fn response_of(c: &Verdict) -> (Vec<u8>, String) {
    let body = match &c.body {
        Body::Empty => String::new(),
        Body::Text(t) => t.clone(),
        Body::Json(e) => plain(e),
    };
    let mut out = format!("HTTP/1.1 {:03} {}\r\n", c.status, c.reason);
    for (n, v) in &c.headers {
        out.push_str(&format!("{}: {}\r\n", n, v));
    }
    out.push_str(&format!("Content-Length: {}\r\n\r\n{}", body.len(), body));
    (out.into_bytes(), body)
}

fn script_of(c: &Verdict) -> Option<Script> {
    match c.wire {
        Wire::Reply => Some(Script::reply(response_of(c).0)),
        Wire::Refused => None,
        Wire::Silence => Some(Script::new(vec![Act::ReadRequest, Act::Finish])),
        Wire::Garbage => Some(Script::new(vec![Act::ReadRequest, Act::Send(b"no answer\r\n\r\n{\"k\": 1}".to_vec())])),
    }
}

/// The variables an assertion may see; `json` as the body has it.
fn response_vars(c: &Verdict) -> BTreeMap<String, V> {
    let mut vars = BTreeMap::new();
    let s = |t: &str| V::Str(t.to_string());
    if c.wire == Wire::Reply {
        let (_, body) = response_of(c);
        let mut headers: BTreeMap<String, V> = BTreeMap::new();
        for (n, v) in c.headers.iter().map(|(n, v)| (n.clone(), v.clone())).chain([("Content-Length".to_string(), body.len().to_string())]) {
            match headers.entry(n).or_insert(V::Arr(vec![])) {
                V::Arr(a) => a.push(V::Str(v)),
                _ => unreachable!(),
            }
        }
        vars.insert("version".to_string(), s("HTTP/1.1"));
        vars.insert("status".to_string(), V::Int(c.status as i64));
        vars.insert("reason".to_string(), s(&c.reason));
        vars.insert("headers".to_string(), V::Map(headers));
        vars.insert("body".to_string(), s(&body));
        if let Body::Json(e) = &c.body {
            if let Ok(v) = Machine::default().eval(e) {
                vars.insert("json".to_string(), v);
            }
        }
    } else {
        // there was no response: nothing to see in it
        vars.insert("version".to_string(), s(""));
        vars.insert("status".to_string(), V::Int(0));
        vars.insert("reason".to_string(), s(""));
        vars.insert("headers".to_string(), V::Map(BTreeMap::new()));
        vars.insert("body".to_string(), s(""));
    }
    vars
}

/// Bindings of the program that an assertion must not see.
fn decoys() -> String {
    let mut out = String::new();
    for n in ["status", "reason", "version", "headers", "body", "json", "unbound"] {
        out.push_str(&format!("let {} = 999;\n", n));
    }
    for t in TYPES {
        for n in names(t) {
            let v = match t {
                Ty::Int => "6",
                Ty::Float => "1.5",
                Ty::Bool => "true",
                Ty::Str => "\"s\"",
                Ty::Arr => "[1, 5, 9]",
                Ty::Map => "{\"k\": 7, \"x\": 2}",
            };
            out.push_str(&format!("let {} = {};\n", n, v));
        }
    }
    out
}

fn check_verdict(c: &Verdict, obs: &mut Obs) -> Outcome {
    let script = script_of(c);
    let up = script.is_some();
    let mut vars = response_vars(c);
    // of a body that is no JSON, what assertions can see of it is what the program can
    if let (Wire::Reply, Body::Text(_)) = (c.wire, &c.body) {
        let got = net::exchange(Script::reply(response_of(c).0), "GET http://{at}/", "", &[]);
        if let Some(V::Map(m)) = got.value {
            if let Some(v) = m.get("json") {
                vars.insert("json".to_string(), v.clone());
            }
        }
    }
    let settled: Vec<E> = settled(c, &vars);
    let texts: Vec<(String, bool)> = settled.iter().enumerate().map(|(i, e)| assertion_text(e, &c.layout[i.min(c.layout.len())..])).collect();
    let shown: Vec<String> = texts.iter().map(|t| t.0.clone()).collect();
    let got = net::play(script.into_iter().collect(), &|at| {
        let at = if up { at } else { "127.0.0.1:1" };
        let asserts = if shown.is_empty() { String::new() } else { format!("[{}]", shown.join(", ")) };
        format!("{}request other `GET http://127.0.0.1:1/`;\nrequest r `GET http://{}/`{};\nr()", decoys(), at, asserts)
    });
    obs.sample(clip(&format!("{:?} {} {:?} {:?} asserts [{}]", c.wire, c.status, c.headers, c.body, shown.join(", ")), 1000));
    if shown.len() > 100 {
        obs.label("more than 100 assertions");
    }
    if shown.iter().enumerate().any(|(i, a)| shown[..i].contains(a)) {
        obs.label("an assertion written twice");
    }
    ensure!(got.error.is_none() && got.records.len() == 1, "error {:?}, {} records, asserts {:?}", got.error, got.records.len(), shown);
    let r = &got.records[0];
    ensure!(r.error.is_empty() == (c.wire == Wire::Reply), "error {:?} of {:?}", r.error, c.wire);
    if c.wire == Wire::Reply {
        let (_, body) = response_of(c);
        let mut headers = c.headers.clone();
        headers.push(("Content-Length".to_string(), body.len().to_string()));
        same_response(&got, r, "HTTP/1.1", c.status, &c.reason, &headers, &body)?;
    }
    let mut m = Machine { vars, ..Machine::default() };
    let expected: Vec<Judged> = settled.iter().zip(&texts).map(|(e, (t, commas))| judge(e, t, !commas, &mut m)).collect();
    let held = expected.iter().filter(|j| j.result == Some(true)).count();
    obs.nontrivial_if(!expected.is_empty() && expected.iter().any(|j| j.result.is_some()));
    obs.label(format!("{:?}", c.wire));
    obs.label(match (held, expected.len()) {
        (_, 0) => "no assertion",
        (h, n) if h == n => "all hold",
        (0, _) => "none holds",
        _ => "some hold",
    });
    check_asserts(r, &expected, &shown)?;
    // variables of the program are as they were
    for n in ["status", "reason", "version", "headers", "body", "json", "unbound"] {
        let v = crate::run::get(&got.context, n);
        ensure!(v.as_ref().is_some_and(|v| same(v, &V::Int(999))), "variable {} of the program is {:?}", n, v);
    }
    Ok(())
}

// the same with the command, where evaluation can be seen

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Told {
    requests: Vec<(Verdict, Vec<bool>)>,
    calls: Vec<u8>,
}

/// An assertion that prints when it is evaluated.
fn telling(e: &E, i: usize, k: usize) -> E {
    let E::Bin(op, a, b) = e else { unreachable!() };
    let say = |side: &str| E::Call("println".into(), vec![string(&format!("saw {} {} {}", i, k, side))]);
    // println has the value null, so the side keeps its own
    let both = |side: &str, e: &E| E::Bin(Op::Or, bx(say(side)), bx(e.clone()));
    E::Bin(*op, bx(both("left", a)), bx(both("right", b)))
}

fn check_told(c: &Told, obs: &mut Obs) -> Outcome {
    let mut defs = Vec::new();
    for (i, (v, tell)) in c.requests.iter().enumerate() {
        let mut v = v.clone();
        if v.wire == Wire::Refused {
            v.wire = Wire::Silence;
        }
        if let Body::Text(_) = v.body {
            v.body = Body::Empty;
        }
        let vars = response_vars(&v);
        let settled: Vec<E> = settled(&v, &vars)
            .into_iter()
            .enumerate()
            .map(|(k, e)| {
                if tell.get(k % tell.len().max(1)).copied().unwrap_or(false) {
                    telling(&e, i, k)
                } else {
                    e
                }
            })
            .collect();
        let texts: Vec<(String, bool)> = settled.iter().map(|e| assertion_text(e, &v.layout)).collect();
        defs.push((v, settled, texts, vars));
    }
    let calls: Vec<usize> = c.calls.iter().map(|i| *i as usize % defs.len()).collect();
    let scripts: Vec<Script> = calls.iter().filter_map(|i| script_of(&defs[*i].0)).collect();
    let dir = Scratch::new("t01");
    let out = std::cell::RefCell::new(String::new());
    let (conns, unexpected) = net::serve_while(scripts, &|at| {
        let mut suite = decoys();
        for (i, (_, _, texts, _)) in defs.iter().enumerate() {
            let list: Vec<&str> = texts.iter().map(|t| t.0.as_str()).collect();
            let asserts = if list.is_empty() { String::new() } else { format!("[{}]", list.join(", ")) };
            suite.push_str(&format!("request q{} `GET http://{}/{}`{};\n", i, at, i, asserts));
        }
        let body: Vec<String> = calls.iter().map(|i| format!("q{}()", i)).collect();
        suite.push_str(&format!("test t {{ {} }}\n", body.join("; ")));
        std::fs::write(dir.0.join("s.fan"), suite).expect("suite");
        let o = cli::run_in(&["test", "t"], b"", &[], Some(&dir.0));
        cli::sane(&o)?;
        *out.borrow_mut() = o.text();
        Ok(())
    })?;
    ensure!(conns.len() == calls.len() && unexpected == 0, "{} connections for {} requests", conns.len() + unexpected, calls.len());
    // first what the assertions print, then the reports; what cannot be predicted matches anything
    let mut printed = String::new();
    let mut blocks: Vec<Vec<String>> = Vec::new();
    let mut vague = false;
    for i in &calls {
        let (v, settled, texts, vars) = &defs[*i];
        let mut m = Machine { vars: vars.clone(), ..Machine::default() };
        let mut pass = Some(v.wire == Wire::Reply);
        let mut lines = vec![format!("=== TEST  q{}", i)];
        for (e, (t, commas)) in settled.iter().zip(texts) {
            let j = judge(e, t, !commas, &mut m);
            match (&j.text, &j.left, &j.right, j.result) {
                (Some(t), Some(l), Some(r), Some(b)) => lines.push(blankless(&format!("{} => {} {} {} => {}", t, l, j.op, r, b))),
                _ => vague = true,
            }
            pass = match (pass, j.result) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            };
        }
        printed.push_str(&m.out);
        match pass {
            Some(p) => lines.push(format!("--- {}  q{} (", if p { "PASS" } else { "FAIL" }, i)),
            None => vague = true,
        }
        blocks.push(lines);
    }
    obs.nontrivial_if(!printed.is_empty() && !vague);
    obs.label(if vague { "vague" } else { "exact" });
    let out = out.into_inner();
    let Some(reports) = out.strip_prefix(&printed) else {
        return Err(format!("output {:?}, expected to start with {:?}", clip(&out, 1500), clip(&printed, 1500)));
    };
    if vague {
        return Ok(());
    }
    // a string may hold line ends, so lines are compared without blanks
    let mut expected = String::new();
    let mut got = blankless(reports);
    for b in &blocks {
        for l in b {
            expected.push_str(&blankless(l));
        }
        expected.push_str("TIME)");
    }
    // the times
    let mut plainer = String::new();
    for (n, b) in blocks.iter().enumerate() {
        let end = blankless(b.last().unwrap());
        let Some(i) = got.find(&end) else { break };
        let rest = &got[i + end.len()..];
        let Some(j) = rest.find(')') else { break };
        plainer.push_str(&got[..i + end.len()]);
        plainer.push_str("TIME)");
        got = rest[j + 1..].to_string();
        let _ = n;
    }
    plainer.push_str(&got);
    ensure!(plainer == expected, "reports {:?}, expected {:?}", clip(reports, 2500), clip(&expected, 2500));
    Ok(())
}

fn probe_dropped() -> Result<bool, String> {
    let body = "{\"ok\": false}";
    let response = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", body.len(), body);
    let got = net::exchange(Script::reply(response.into_bytes()), "GET http://{at}/", "json.ok", &[]);
    let r = got.records.first().ok_or("no record")?;
    let pass = r.display.contains("--- PASS");
    match (r.asserts.len(), pass) {
        (0, true) => Ok(true),
        (1, false) => Ok(false),
        _ => Err(format!("the assertion json.ok of {}: {:?}", body, r.display)),
    }
}

pub fn t01() -> Property {
    let verdicts = Part::new(
        "verdicts",
        "a response (or a transport error) and up to 300 assertions, some written twice, some on long texts, with every comparison operator over parts of the response, arithmetic, calls, failing sides and names only the program binds; record and report against the reference interpreter; non-trivial: an assertion whose result is predicted",
        (24_000, 800_000),
        |_| verdict(),
        check_verdict,
    );
    let command = Part::new(
        "command",
        "the built command: requests of a test with assertions that print when evaluated; evaluated once and in order, reports in order; non-trivial: something printed and every line predicted",
        (1200, 30_000),
        |_| (vec((verdict(), vec(any::<bool>(), 1..4)), 1..4), vec(any::<u8>(), 1..5)).prop_map(|(requests, calls)| Told { requests, calls }).boxed(),
        check_told,
    )
    .shrink(300);
    Property {
        id: "T01",
        parts: vec![verdicts.boxed(), command.boxed()],
        known: vec![Known {
            id: "T01-dropped",
            probe: probe_dropped,
        }],
        assumptions: vec!["assertions are comparisons at the top (others: finding T01-dropped) and bind nothing", "blanks in the text of an assertion are not compared"],
    }
}

// ---------------------------------------------------------------- T02

/// A string, perhaps a long one.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Long {
    Text(String),
    /// a piece, repeated
    Again(String, u32),
}

impl Long {
    fn text(&self) -> String {
        match self {
            Long::Text(t) => t.clone(),
            Long::Again(t, n) => t.repeat(*n as usize),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entry {
    name: Long,
    /// start, end, total, resolve, connect, write, delay, read
    times: Vec<i64>,
    host: Long,
    path: Long,
    port: u16,
    headers: Vec<(String, String)>,
    back: Vec<(String, String)>,
    body: Long,
    version: Long,
    status: u16,
    reason: Long,
    answer: Long,
    asserts: Vec<(Long, Long, Long, Long, bool)>,
    error: Long,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Written {
    entries: Vec<Entry>,
    /// (records, of which entries from, how many; test name, thread, number)
    writes: Vec<(u8, u8, Long, u32, u32)>,
    /// how much of each piece the sink accepts; 0: interrupted
    accepts: Vec<u32>,
}

fn long(tier: Tier) -> BoxedStrategy<Long> {
    let most = if tier == Tier::Quick { 2_500_000u32 } else { 20_000_000 };
    prop_oneof![
        2 => Just(Long::Text(String::new())),
        8 => any_text(12).prop_map(Long::Text),
        2 => select(vec![62u32, 63, 64, 65, 8190, 8191, 8192, 8193]).prop_map(|n| Long::Again("x".into(), n)),
        1 => (select(vec!["a", "é", "中", "🎉", "\u{0}", "\"\n"]), 1u32..2000).prop_map(|(t, n)| Long::Again(t.into(), n)),
        1 => (0u32..200).prop_flat_map(move |k| if k == 0 { (60_000u32..most).boxed() } else { (100u32..400).boxed() }).prop_map(|n| Long::Again("z".into(), n)),
    ]
    .boxed()
}

fn nanos() -> BoxedStrategy<i64> {
    prop_oneof![
        1 => Just(0i64),
        3 => edge_int(),
        1 => Just(i64::MAX),
        2 => (0u32..63).prop_map(|p| 1i64 << p),
        2 => (0u32..63).prop_map(|p| (1i64 << p) - 1),
        1 => 1_600_000_000_000_000_000i64..1_900_000_000_000_000_000,
    ]
    .boxed()
}

fn entry(tier: Tier) -> BoxedStrategy<Entry> {
    let header = || ("[A-Za-z][A-Za-z0-9-]{0,8}", "[!-~]{0,12}");
    let headers = || prop_oneof![2 => vec(header(), 0..1), 5 => vec(header(), 1..5), 1 => vec(header(), 60..70)];
    let l = || long(tier);
    let claim = (l(), l(), l(), l(), any::<bool>());
    let claims = prop_oneof![2 => vec(claim.clone(), 0..1), 5 => vec(claim.clone(), 1..4), 1 => vec(claim, 63..66)];
    let status = prop_oneof![3 => 200u16..600, 1 => any::<u16>(), 1 => select(vec![0, 63, 64, 127, 128, 8191, 8192, u16::MAX])];
    (
        (l(), vec(nanos(), 8), l(), l(), any::<u16>()),
        (headers(), headers(), l(), l(), status),
        (l(), l(), claims, l()),
    )
        .prop_map(|((name, times, host, path, port), (headers, back, body, version, status), (reason, answer, asserts, error))| Entry {
            name,
            times,
            host,
            path,
            port,
            headers,
            back,
            body,
            version,
            status,
            reason,
            answer,
            asserts,
            error,
        })
        .boxed()
}

fn number() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..10, 1 => select(vec![63, 64, 127, 128, 8191, 8192, u32::MAX - 1, u32::MAX, 1 << 31]), 1 => any::<u32>()].boxed()
}

fn written(tier: Tier) -> BoxedStrategy<Written> {
    let write = (any::<u8>(), prop_oneof![6 => Just(0u8), 24 => 1u8..5, 1 => 60u8..70], long(tier), number(), number());
    let accepts = prop_oneof![2 => Just(vec![]), 2 => vec(prop_oneof![1 => Just(0u32), 3 => 1u32..20, 2 => 20u32..5000], 1..8)];
    (vec(entry(tier), 1..5), vec(write, 0..7), accepts)
        .prop_map(|(entries, writes, mut accepts)| {
            if accepts.iter().all(|a| *a == 0) {
                accepts.clear();
            }
            Written { entries, writes, accepts }
        })
        .boxed()
}

/// A sink that accepts what the plan says, and remembers where each call ended.
#[derive(Clone, Default)]
struct Sink {
    inner: std::rc::Rc<std::cell::RefCell<Taken>>,
}
#[derive(Default)]
struct Taken {
    bytes: Vec<u8>,
    ends: Vec<usize>,
    plan: Vec<u32>,
    at: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut t = self.inner.borrow_mut();
        let mut n = buf.len();
        if !t.plan.is_empty() {
            let p = t.plan[t.at % t.plan.len()] as usize;
            t.at += 1;
            if p == 0 {
                return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
            }
            n = n.min(p);
        }
        t.bytes.extend_from_slice(&buf[..n]);
        let end = t.bytes.len();
        t.ends.push(end);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The exchange whose record an entry is made from: headers cannot be set afterwards.
fn exchange_for(e: &Entry) -> (Script, String) {
    let mut text = "POST http://{at}/\n".to_string();
    for (n, v) in &e.headers {
        text.push_str(&format!("{}: {}\n", n, v.replace(['`', '{', '}'], "")));
    }
    let mut back = "HTTP/1.1 200 OK\r\n".to_string();
    for (n, v) in &e.back {
        // nothing that decides the length of the body
        if !["content-length", "transfer-encoding"].contains(&n.to_lowercase().as_str()) {
            back.push_str(&format!("{}: {}\r\n", n, v));
        }
    }
    back.push_str("\r\n");
    (Script::reply(back.into_bytes()), text)
}

fn row(test: &str, thread: u32, number: u32, order: usize, r: &Rec) -> A {
    let s = |t: &str| A::Str(t.to_string());
    let headers = |h: &[(String, String)]| A::Arr(h.iter().map(|(n, v)| A::Arr(vec![s(n), s(v)])).collect());
    let nanos = |d: Duration| A::Long(d.as_nanos() as i64);
    let t = &r.time;
    let f = |n: &str, v: A| (n.to_string(), v);
    A::Rec(vec![
        f("name", s(test)),
        f("thread", A::Long(thread as i64)),
        f("number", A::Long(number as i64)),
        f("order", A::Long(order as i64)),
        f("time_start", nanos(t.start)),
        f("time_end", nanos(t.end)),
        f("time_total", nanos(t.total)),
        f("time_resolve", nanos(t.resolve)),
        f("time_connect", nanos(t.connect)),
        f("time_write", nanos(t.write)),
        f("time_delay", nanos(t.delay)),
        f("time_read", nanos(t.read)),
        f("request_name", s(&r.name)),
        f("request_method", s(&r.method)),
        f("request_url", s(&r.url)),
        f("request_version", s(&r.version)),
        f("request_headers", headers(&r.headers)),
        f("request_body", s(&r.body)),
        f("response_version", s(&r.response.version)),
        f("response_status", A::Long(r.response.status as i64)),
        f("response_reason", s(&r.response.reason)),
        f("response_headers", headers(&r.response.headers)),
        f("response_body", s(&r.response.body)),
        f(
            "asserts",
            A::Arr(
                r.asserts
                    .iter()
                    .map(|(expr, left, compare, right, result)| {
                        A::Rec(vec![f("expr", s(expr)), f("left", s(left)), f("compare", s(compare)), f("right", s(right)), f("result", A::Bool(*result))])
                    })
                    .collect(),
            ),
        ),
        f("error", s(&r.error)),
    ])
}

/// Fields are compared by their names, wherever the schema has them.
fn same_row(got: &A, want: &A) -> Outcome {
    let A::Rec(fields) = want else { unreachable!() };
    let A::Rec(have) = got else { return Err("a row that is no record".to_string()) };
    ensure!(have.len() == fields.len(), "{} fields, expected {}", have.len(), fields.len());
    for (n, v) in fields {
        let g = got.field(n)?;
        let same = match (g, v) {
            (A::Arr(a), A::Arr(b)) if n == "asserts" => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_row(a, b).is_ok()),
            _ => g == v,
        };
        ensure!(same, "field {} is {}, expected {}", n, clip(&format!("{:?}", g), 400), clip(&format!("{:?}", v), 400));
    }
    Ok(())
}

fn same_rows(file: &avro::File, rows: &[A]) -> Outcome {
    ensure!(file.rows.len() == rows.len(), "{} rows, expected {}", file.rows.len(), rows.len());
    for (i, (g, w)) in file.rows.iter().zip(rows).enumerate() {
        same_row(g, w).map_err(|e| format!("row {}: {}", i, e))?;
    }
    Ok(())
}

fn of_avro(v: &avro_crate::types::Value) -> A {
    use avro_crate::types::Value as X;
    match v {
        X::Null => A::Null,
        X::Boolean(b) => A::Bool(*b),
        X::Int(i) => A::Long(*i as i64),
        X::Long(i) => A::Long(*i),
        X::String(s) => A::Str(s.clone()),
        X::Bytes(b) => A::Bytes(b.clone()),
        X::Array(a) => A::Arr(a.iter().map(of_avro).collect()),
        X::Record(f) => A::Rec(f.iter().map(|(n, v)| (n.clone(), of_avro(v))).collect()),
        v => A::Str(format!("{:?}", v)),
    }
}

macro_rules! set_fields {
    ($r:expr, $e:expr) => {{
        let (r, e) = (&mut $r, $e);
        let d = |i: usize| Duration::from_nanos(e.times[i] as u64);
        r.name = e.name.text();
        r.time.start = d(0);
        r.time.end = d(1);
        r.time.total = d(2);
        r.time.resolve = d(3);
        r.time.connect = d(4);
        r.time.write = d(5);
        r.time.delay = d(6);
        r.time.read = d(7);
        r.request.url.host = e.host.text();
        r.request.url.path = e.path.text();
        r.request.url.port = e.port;
        r.request.body = e.body.text();
        r.response.version = e.version.text();
        r.response.status = e.status;
        r.response.reason = e.reason.text();
        r.response.body = e.answer.text();
        for (a, (expr, left, compare, right, result)) in r.asserts.iter_mut().zip(&e.asserts) {
            a.expr = expr.text();
            a.left = left.text();
            a.compare = compare.text();
            a.right = right.text();
            a.result = *result;
        }
        r.error = e.error.text();
    }};
}

fn check_written(c: &Written, obs: &mut Obs) -> Outcome {
    // the entries each write takes, in turn
    let picks: Vec<Vec<usize>> = c.writes.iter().map(|w| (0..w.1 as usize).map(|k| (w.0 as usize + k) % c.entries.len()).collect()).collect();
    let exchanges: Vec<(Script, String)> = c.entries.iter().map(exchange_for).collect();
    let all: Vec<usize> = picks.iter().flatten().copied().collect();
    let scripts = all.iter().map(|p| exchanges[*p].0.clone()).collect();
    let stats = std::cell::RefCell::new((0usize, 0usize));
    net::serve_while(scripts, &|at| {
        // real records, whose fields are then set as the case has it
        let mut program = String::new();
        for (i, e) in c.entries.iter().enumerate() {
            let asserts = vec!["status == 200"; e.asserts.len()].join(", ");
            let asserts = if asserts.is_empty() { asserts } else { format!("[{}]", asserts) };
            program.push_str(&format!("request q{} `{}`{};\n", i, exchanges[i].1.replace("{at}", at), asserts));
        }
        for p in &all {
            program.push_str(&format!("q{}();\n", p));
        }
        let mut context = lib::Context::new();
        let source = lib::Parser::new(&program).parse().map_err(|e| format!("refused: {} {}", e, program))?;
        context.extend(source.requests);
        lib::eval_block(&source.exprs, &mut context)?;
        let records = context.records();
        ensure!(records.len() == all.len(), "{} records of {} requests", records.len(), all.len());
        for (r, p) in records.iter().zip(&all) {
            ensure!(r.error.is_empty() && r.asserts.len() == c.entries[*p].asserts.len(), "a request failed: {:?}", r.error);
        }
        let mut records = records.into_iter();
        let sink = Sink::default();
        sink.inner.borrow_mut().plan = c.accepts.clone();
        let mut writer = lib::Writer::new(sink.clone());
        let mut rows: Vec<A> = Vec::new();
        let first = avro::read(&sink.inner.borrow().bytes, false).map_err(|e| format!("a file of no writes: {}", e))?;
        ensure!(first.rows.is_empty(), "rows in a file of no writes");
        let header = sink.inner.borrow().bytes.len();
        for (w, (_, _, test, thread, number)) in c.writes.iter().enumerate() {
            let test = test.text();
            let mut list: Vec<_> = (&mut records).take(picks[w].len()).collect();
            for (order, (r, p)) in list.iter_mut().zip(&picks[w]).enumerate() {
                set_fields!(*r, &c.entries[*p]);
                rows.push(row(&test, *thread, *number, order, &net::copy_record!(&*r)));
            }
            writer.write(&list, &test, *thread, *number);
            let taken = sink.inner.borrow();
            let file = avro::read(&taken.bytes, false).map_err(|e| format!("after write {} of {} records: {}", w, list.len(), e))?;
            same_rows(&file, &rows).map_err(|e| format!("after write {} of {} records: {}", w, list.len(), e))?;
        }
        drop(writer);
        let taken = sink.inner.borrow();
        let file = avro::read(&taken.bytes, false)?;
        same_rows(&file, &rows)?;
        *stats.borrow_mut() = (rows.len(), file.blocks.len());
        // whatever a kill leaves behind, when a call to the sink is carried out or not
        if c.accepts.is_empty() {
            for end in taken.ends.iter().filter(|e| **e >= header) {
                let part = avro::read(&taken.bytes[..*end], false)
                    .map_err(|e| format!("cut at the end of a call to the sink, byte {} of {}: {}", end, taken.bytes.len(), e))?;
                ensure!(part.rows.len() <= rows.len() && part.rows[..] == file.rows[..part.rows.len()], "a prefix of {} bytes has other rows", end);
            }
        }
        // another reader sees the same
        let reader = avro_crate::Reader::new(&taken.bytes[..]).map_err(|e| format!("another reader: {}", e))?;
        let mut n = 0;
        for (i, v) in reader.enumerate() {
            let v = v.map_err(|e| format!("another reader, row {}: {}", i, e))?;
            ensure!(i < rows.len(), "another reader sees more than {} rows", rows.len());
            same_row(&of_avro(&v), &rows[i]).map_err(|e| format!("another reader, row {}: {}", i, e))?;
            n = i + 1;
        }
        ensure!(n == rows.len(), "another reader sees {} rows of {}", n, rows.len());
        Ok(())
    })?;
    let (rows, blocks) = stats.into_inner();
    obs.nontrivial_if(rows > 1 && blocks > 1);
    obs.label(if c.accepts.is_empty() { "whole" } else { "pieces" });
    if picks.iter().any(|p| p.is_empty()) {
        obs.label("with an empty write");
    }
    if rows >= 60 {
        obs.label("60 rows and more");
    }
    Ok(())
}

/// One write of very many records.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    count: u32,
    asserts: u8,
    bodies: Vec<String>,
    thread: u32,
    number: u32,
}

fn wide() -> BoxedStrategy<Wide> {
    let count = prop_oneof![
        12 => 100u32..400,
        4 => 400u32..3000,
        6 => select(vec![127u32, 128, 129, 255, 256, 257, 258, 511, 513, 1025, 4097]),
        1 => select(vec![8190u32, 8191, 8192, 8193, 16385]),
        1 => select(vec![32767u32, 32769, 65535, 65536, 65537, 65540]),
    ];
    (count, 0u8..3, vec(any_text(6), 1..4), number(), number())
        .prop_map(|(count, asserts, bodies, thread, number)| Wide { count, asserts, bodies, thread, number })
        .boxed()
}

fn check_wide(c: &Wide, obs: &mut Obs) -> Outcome {
    net::set_world(vec![], vec![], 0);
    let asserts = ["", "[status == 0]", "[status == 1, reason == \"\"]"][c.asserts as usize % 3];
    let mut program = format!("request q `GET http://nobody.any.test/`{};\n", asserts);
    for _ in 0..c.count {
        program.push_str("q();\n");
    }
    let mut context = lib::Context::new();
    let source = lib::Parser::new(&program).parse().map_err(|e| format!("refused: {}", e))?;
    context.extend(source.requests);
    lib::eval_block(&source.exprs, &mut context)?;
    let mut records = context.records();
    ensure!(records.len() == c.count as usize, "{} records of {} requests", records.len(), c.count);
    let mut rows: Vec<A> = Vec::new();
    for (i, r) in records.iter_mut().enumerate() {
        r.response.body = format!("{} {}", c.bodies[i % c.bodies.len()], i);
        rows.push(row("wide", c.thread, c.number, i, &net::copy_record!(&*r)));
    }
    let sink = Sink::default();
    let mut writer = lib::Writer::new(sink.clone());
    writer.write(&records, "wide", c.thread, c.number);
    // and one more, which starts again
    let one = &records[..1];
    writer.write(one, "next", c.thread, c.number);
    rows.push(row("next", c.thread, c.number, 0, &net::copy_record!(&one[0])));
    drop(writer);
    obs.nontrivial();
    obs.label(match c.count {
        0..=255 => "up to 255",
        256..=65535 => "up to 65535",
        _ => "more",
    });
    let taken = sink.inner.borrow();
    let file = avro::read(&taken.bytes, false)?;
    same_rows(&file, &rows)
}

pub fn t02() -> Property {
    let history = Part::new(
        "history",
        "up to seven writes of up to 70 records, real ones with every field set to generated values, to sinks that accept all or pieces; decoded after every write, and at the end with a second reader; non-trivial: two rows in two blocks",
        (6000, 200_000),
        |tier| written(tier),
        check_written,
    )
    .shrink(400);
    let wide = Part::new(
        "wide",
        "one write of 100 to 65540 records (of requests that found nobody), and one more of a single record; non-trivial: all",
        (48, 2000),
        |_| wide(),
        check_wide,
    )
    .cpu(150.0)
    .shrink(40);
    Property {
        id: "T02",
        parts: vec![history.boxed(), wide.boxed()],
        known: vec![],
        assumptions: vec!["times are at most 2^63-1 nanoseconds", "a sink fails for good or not at all; Interrupted is tried again"],
    }
}
