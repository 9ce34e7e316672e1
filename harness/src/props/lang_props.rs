//! L01 to L05: the language.

use crate::cli;
use crate::ensure;
use crate::fw::*;
use crate::gen::{self, any_text, edge_int, float_text, key, layout, short_str, union, Gen, Ty, TYPES};
use crate::lang::{self, placeholders, plain, program_text, repair, Machine, Op, Piece, Printer, Vars, E, OPS};
use crate::model::{same, V};
use crate::net;
use crate::run::{self, Ran};
use lib::{Context, Parser};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn bx(e: E) -> Box<E> {
    Box::new(e)
}

/// Runs the program against the reference interpreter: result, and every variable afterwards.
pub fn differential(statements: &[E], layout: &[u8], prelude: &[(String, E)], obs: &mut Obs) -> Outcome {
    let mut machine = Machine::default();
    let mut context = Context::new();
    for (n, e) in prelude {
        let e = E::Let(n.clone(), bx(e.clone()));
        let _ = machine.eval(&e);
        run::run_in(&mut context, &plain(&e));
    }
    let text = program_text(statements, layout);
    obs.sample(text.clone());
    let expected = machine.block(statements);
    if machine.unpredictable {
        obs.label("unpredictable");
        return Ok(());
    }
    obs.label(match &expected {
        Ok(v) => format!("value:{}", v.kind()),
        Err(()) => "error".to_string(),
    });
    match run::run_in(&mut context, &text) {
        Ran::Refused(e) => return Err(format!("refused: {}\nprogram: {}", e, text)),
        Ran::Evaluated(got) => match (&got, &expected) {
            (Ok(got), Ok(expected)) => {
                ensure!(same(got, expected), "value {:?}, expected {:?}\nprogram: {}", got, expected, text)
            }
            (Err(_), Err(())) => {}
            (Ok(got), Err(())) => return Err(format!("value {:?}, expected an error\nprogram: {}", got, text)),
            (Err(e), Ok(expected)) => return Err(format!("error {:?}, expected {:?}\nprogram: {}", e, expected, text)),
        },
    }
    for ty in TYPES {
        for n in names(ty) {
            let (got, expected) = (run::get(&context, n), machine.vars.get(*n));
            let fine = match (&got, expected) {
                (Some(a), Some(b)) => same(a, b),
                (None, None) => true,
                _ => false,
            };
            ensure!(fine, "variable {} is {:?}, expected {:?}\nprogram: {}", n, got, expected, text);
        }
    }
    Ok(())
}

pub fn names(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::Int => &["i", "j", "e1", "letx", "_"],
        Ty::Float => &["f", "g", "E5", "iff"],
        Ty::Bool => &["p", "q", "truex", "false_"],
        Ty::Str => &["s", "t", "requested", "Let"],
        Ty::Arr => &["a", "b", "test1", "else2"],
        Ty::Map => &["m", "n", "_m_1", "If"],
    }
}

// ---------------------------------------------------------------- L01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    text: String,
}

fn tokens_soup() -> BoxedStrategy<String> {
    const T: [&str; 62] = [
        "=", "==", "!", "!=", "+", "-", "*", "/", "%", "^", "|", "||", "&", "&&", "<", "<=", "<<", ">", ">=", ">>", ",", ";", ":", ".",
        "(", ")", "{", "}", "[", "]", "\"", "`", "\"a\"", "`GET http://h`", "0", "1", "42", "1.5", "1.2.3", "9223372036854775807",
        "9223372036854775808", "1e400", "1e", "2e5", "5.", "x", "y", "_", "true", "false", "request", "let", "if", "else", "test",
        "request r `GET http://h`", "test t { 1 }", "length", "format", "#", "é", "\n",
    ];
    let t = proptest::sample::select(T.to_vec());
    let sep = proptest::sample::select(vec!["", " ", " ", "\n"]);
    vec((t, sep), 0..40).prop_map(|v| v.into_iter().map(|(t, s)| format!("{}{}", t, s)).collect()).boxed()
}

/// A program with a few characters removed, doubled, swapped or replaced.
fn mutated() -> BoxedStrategy<String> {
    let g = Gen::new(3, true, true, true, true, 2);
    let program = (vec(g.any(3), 1..5), layout()).prop_map(|(s, l)| program_text(&s, &l));
    let edit = (any::<u16>(), 0u8..5, proptest::sample::select("()[]{}\"`!-=,;:.&|<>1ea \n".chars().collect::<Vec<_>>()));
    (program, vec(edit, 1..5))
        .prop_map(|(p, edits)| {
            let mut c: Vec<char> = p.chars().collect();
            for (at, kind, ch) in edits {
                if c.is_empty() {
                    break;
                }
                let i = at as usize % c.len();
                match kind {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, ch),
                    2 => c[i] = ch,
                    3 => c.truncate(i),
                    _ => {
                        let x = c[i];
                        c.insert(i, x)
                    }
                }
            }
            c.into_iter().collect()
        })
        .boxed()
}

fn free_text() -> BoxedStrategy<String> {
    prop_oneof![vec(any::<char>(), 0..40).prop_map(|v| v.into_iter().collect::<String>()), "\\PC{0,60}", any_text(80)].boxed()
}

fn survives(text: &str, obs: &mut Obs) -> Outcome {
    match run::run(text) {
        Ran::Refused(_) => obs.label("refused"),
        Ran::Evaluated(Ok(_)) => obs.label("value"),
        Ran::Evaluated(Err(_)) => obs.label("error"),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    kinds: Vec<u8>,
    depth: u32,
    /// where the text is cut, per mille; 1000 leaves it whole
    cut: u16,
}

/// Wraps `inner` in the construct, `None` when it cannot be nested within the others.
fn nest_text(kinds: &[u8], depth: u32) -> (String, bool) {
    // opening and closing of each construct, and whether the nested text is an expression that may stand there
    const K: [(&str, &str); 16] = [
        ("(", ")"),
        ("[", "]"),
        ("{\"k\": ", "}"),
        ("-", ""),
        ("!", ""),
        ("if (true) {", "}"),
        ("if (", ") {1} else {2}"),
        ("1 + (", ")"),
        ("length([", "])"),
        ("(let x = ", ")"),
        ("(1 + ", ")"),
        ("[1, 2][", "]"),
        ("{", ": 1}"),
        ("(true && ", ")"),
        ("if (false) {1} else {", "}"),
        ("format(\"{a}\", ", ")"),
    ];
    let mut open = String::new();
    let mut close: Vec<&str> = Vec::new();
    for d in 0..depth as usize {
        let (o, c) = K[kinds[d % kinds.len()] as usize % K.len()];
        open.push_str(o);
        close.push(c);
    }
    let mut text = open;
    text.push('1');
    for c in close.into_iter().rev() {
        text.push_str(c);
    }
    (text, true)
}

/// Chains that nest without brackets.
fn chain_text(kind: u8, depth: u32) -> String {
    let n = depth as usize;
    match kind % 8 {
        0 => format!("1{}", " + 1".repeat(n)),
        1 => format!("{}1", "1 || ".repeat(n)),
        2 => format!("x{}", "[0]".repeat(n)),
        3 => format!("x{}", ".k".repeat(n)),
        4 => format!("{}1", "let x = ".repeat(n)),
        5 => format!("{}1", "- ".repeat(n)),
        6 => format!("1{}", " < 2 + 3 * 4 == 5".repeat(n / 4)),
        _ => format!("{}1", "1 == 2 < 3 + 4 * ".repeat(n / 4)),
    }
}

fn depth(tier: Tier) -> BoxedStrategy<u32> {
    let max: u32 = if tier == Tier::Quick { 30_000 } else { 200_000 };
    prop_oneof![3 => 1u32..40, 3 => 80u32..101, 2 => 101u32..200, 2 => 200u32..3000, 2 => 3000u32..max].boxed()
}

fn cut_at(text: &str, cut: u16) -> String {
    if cut >= 1000 {
        return text.to_string();
    }
    let mut i = text.len() * cut as usize / 1000;
    while !text.is_char_boundary(i) {
        i -= 1;
    }
    text[..i].to_string()
}

/// The text of a value quotes the texts within once more: as keys, or formatted, they double in size with every level.
fn quoting(kinds: &[u8], depth: u32) -> usize {
    (0..depth as usize).filter(|d| matches!(kinds[d % kinds.len()] % 16, 12 | 15)).count()
}

fn check_nest(c: &Nest, chain: bool, obs: &mut Obs) -> Outcome {
    let text = if chain { chain_text(c.kinds[0], c.depth) } else { nest_text(&c.kinds, c.depth).0 };
    let text = cut_at(&text, c.cut);
    obs.sample(clip(&text, 80));
    obs.label(match c.depth {
        0..=100 => "depth<=100",
        101..=1000 => "depth<=1000",
        _ => "deeper",
    });
    obs.nontrivial_if(c.depth >= 30);
    let ran = match !chain && quoting(&c.kinds, c.depth) > 10 {
        true => match lib::Parser::new(&text).parse() {
            Err(e) => Ran::Refused(e),
            Ok(_) => Ran::Evaluated(Err("not evaluated".to_string())),
        },
        false => run::run(&text),
    };
    match ran {
        Ran::Refused(e) => {
            obs.label("refused");
            // every construct is one or two levels
            let levels = if chain {
                c.depth
            } else {
                (0..c.depth as usize)
                    .map(|d| match c.kinds[d % c.kinds.len()] % 16 {
                        7 | 8 | 9 | 10 | 13 => 2,
                        _ => 1,
                    })
                    .sum::<u32>()
            };
            ensure!(c.cut < 1000 || levels >= 100, "expression of {} levels refused: {}\n{}", levels, e, clip(&text, 300));
        }
        Ran::Evaluated(_) => obs.label("accepted"),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    kind: u8,
    n: u32,
}

fn wide_text(c: &Wide) -> String {
    let n = c.n as usize;
    match c.kind % 7 {
        0 => format!("[{}]", "1, ".repeat(n)),
        1 => "let x = 1;\n".repeat(n),
        2 => format!("{{{}}}", (0..n).map(|i| format!("\"k{}\": {}", i, i)).collect::<Vec<_>>().join(", ")),
        3 => format!("\"{}\"", "é".repeat(n)),
        4 => format!("length(\"{}\")", " ".repeat(n)),
        5 => format!("if (true) {{ {} }}", "1;".repeat(n)),
        _ => (0..n).map(|i| format!("request r{} `GET http://h/{}`[status == 200]\ntest t{} {{ r{}() }}\n", i, i, i, i)).collect(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Body {
    #[serde(with = "crate::fw_bytes")]
    body: Vec<u8>,
}

/// Megabytes without any nesting.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat {
    pieces: Vec<String>,
    size: u32,
    /// evaluated, as the body of a response, as the text of a literal, or as a definition file
    role: u8,
}

fn flat(_: Tier) -> BoxedStrategy<Flat> {
    let piece = select_str(&[
        "1 ", "7;", "1,", "0.5 ", "1e3 ", "x ", "x;", "true ", "null,", "a-b ", "--", "!", "- ", "{x}", "{ x } ", "{", "}", "[", "]", "[]", "()", "\n", "\r\n", " ", "\t", ",", ";", ":", "\"a\",", "\"", "\\", "\\u0041", "\\\"",
        "\"k\": 1, ", "[1, 2], ", "{\"a\": null}, ", "é", "中", "\u{301}", "`", "'", "//", "# ", "&&", "||", "==", "= ", "<", "let x = 1;", "if (x) { 1 };", "x();", "(", ")", "\0", "\u{feff}", "test ", "request ", "request a `GET http://h/`;",
    ]);
    (vec(piece, 1..4), prop_oneof![1 => 60_000u32..300_000, 2 => 1_000_000u32..2_500_000], 0u8..6).prop_map(|(pieces, size, role)| Flat { pieces, size, role }).boxed()
}

fn select_str(items: &[&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(items.to_vec()).prop_map(String::from).boxed()
}

fn check_flat(c: &Flat, obs: &mut Obs) -> Outcome {
    let unit = c.pieces.concat();
    let mut text = unit.repeat(c.size as usize / unit.len() + 1);
    obs.nontrivial_if(c.size >= 1_000_000);
    obs.sample(format!("{:?} to {} bytes, role {}", c.pieces, c.size, c.role));
    match c.role % 6 {
        0 => {
            obs.label("program");
            run::run(&text);
        }
        1 => {
            obs.label("array");
            run::run(&format!("[{}]", text));
        }
        2 => {
            obs.label("string");
            text = text.replace('"', "'");
            // a value, whatever it holds
            match run::run(&format!("length(\"{}\")", text)) {
                Ran::Evaluated(Ok(V::Int(n))) => ensure!(n > 0, "length {}", n),
                Ran::Evaluated(r) => return Err(format!("a string of {} bytes: {}", text.len(), clip(&format!("{:?}", r), 200))),
                Ran::Refused(e) => return Err(format!("a string of {} bytes is refused: {}", text.len(), clip(&e, 200))),
            }
        }
        _ => {
            obs.label("body");
            let text = match c.role % 6 {
                3 => format!("[{}0]", text),
                4 => format!("{{\"a\": \"{}\"}}", text),
                _ => text,
            };
            let mut response = b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_vec();
            response.extend_from_slice(text.as_bytes());
            let mut got = net::exchange(net::Script::reply(response), "GET http://{at}/\nHost: h", "", &[]);
            ensure!(got.error.is_none(), "the call failed: {:?}", got.error);
            let r = got.records.pop().ok_or("no record")?;
            ensure!(r.error.is_empty() && r.response.status == 200 && r.response.body.len() == text.len(), "error {:?}, status {}, body of {} bytes", r.error, r.response.status, r.response.body.len());
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Levels {
    steps: Vec<u8>,
    n: u32,
    last: u8,
    /// as one program, a session of programs, or iterations of a test by the command
    role: u8,
}

/// Statements that wrap the value of `a` once more.
const WRAP: [&str; 10] = [
    "let a = [a]",
    "let a = {\"k\": a}",
    "let a = append([], a)",
    "let a = append([1], 2, a)",
    "let a = [[a]]",
    "let b = [a]; let a = {\"x\": b}",
    "let a = if (true) { [1, a] } else { a }",
    "let a = (let b = [a])",
    "let a = [append([a], 1)[0]]",
    "let a = {\"k\": {\"l\": [a]}}",
];
const LAST: [&str; 8] = ["length(format(\"{a}\", a))", "a == a", "length(format(\"{a}{b}\", append([], a), a))", "let c = [a]; let c = 0", "let c = {a: 1}; let c = 0", "a + 1", "a < a", "let a = 0"];

fn levels(tier: Tier) -> BoxedStrategy<Levels> {
    let n = prop_oneof![1 => 1u32..100, 2 => 100u32..3000, 3 => 3000u32..(if tier == Tier::Quick { 12_000 } else { 60_000 })];
    (vec(any::<u8>(), 1..4), n, any::<u8>(), 0u8..6).prop_map(|(steps, n, last, role)| Levels { steps, n, last, role }).boxed()
}

fn check_levels(c: &Levels, obs: &mut Obs) -> Outcome {
    let step: Vec<&str> = c.steps.iter().map(|s| WRAP[*s as usize % WRAP.len()]).collect();
    let mut last = LAST[c.last as usize % LAST.len()].to_string();
    if c.last >= 128 {
        // below as much nesting as an expression may have
        let (open, close, times) = [("(", ")", 90), ("if (true) { ", " }", 90), ("append([], ", ")", 45), ("length(append([], ", "))", 30), ("let d = (", ")", 45), ("{\"k\": ", "}.k", 45), ("[", "][0]", 45), ("true && (", ")", 45)][c.last as usize % 16 / 2];
        last = format!("{}{}{}", open.repeat(times), last.replace("; let c = 0", ""), close.repeat(times));
    }
    obs.nontrivial_if(c.n > 100);
    obs.sample(format!("{:?} {} times, then {}", step, c.n, last));
    let each = |text: &str, context: &mut lib::Context| -> Result<(), String> {
        let lib::Source { exprs, .. } = lib::Parser::new(text).parse()?;
        // as eval does, the value is looked at no further
        lib::eval_block(&exprs, context).map(|value| drop(value.to_string()))
    };
    let mut context = lib::Context::new();
    let run = match c.role {
        0..=2 => {
            obs.label("one program");
            let mut text = String::from("let a = 0;\n");
            for i in 0..c.n as usize {
                text.push_str(step[i % step.len()]);
                text.push_str(";\n");
            }
            text.push_str(&last);
            each(&text, &mut context)
        }
        3 | 4 => {
            obs.label("session");
            let mut run = each("let a = 0", &mut context);
            for i in 0..c.n as usize {
                run = run.and(each(step[i % step.len()], &mut context));
            }
            run.and(each(&last, &mut context))
        }
        _ => {
            obs.label("iterations");
            let dir = Scratch::new("l01");
            std::fs::write(dir.0.join("s.fan"), format!("let a = 0; test t {{ {}; let z = 0 }}", step.join("; "))).expect("file");
            let n = c.n.to_string();
            let out = cli::run(&["test", "t", "-n", &n, "-p", dir.0.to_str().unwrap()], b"", &[]);
            return cli::sane(&out);
        }
    };
    obs.label(if run.is_ok() { "value" } else { "error" });
    // what an expression may nest, values may
    ensure!(c.n as usize * 3 > 100 || last.contains("a + 1") || run.is_ok(), "{:?}", run);
    Ok(())
}

pub fn l01() -> Property {
    let soup = Part::new(
        "soup",
        "token sequences, mutated programs and free text are parsed and evaluated; non-trivial: at least two tokens",
        (240_000, 6_000_000),
        |_| {
            prop_oneof![4 => tokens_soup(), 3 => mutated(), 2 => free_text(), 1 => (tokens_soup(), free_text(), tokens_soup()).prop_map(|(a, b, c)| a + &b + &c)]
                .prop_map(|text| Text { text })
                .boxed()
        },
        |c: &Text, obs| {
            obs.nontrivial_if(c.text.trim().len() > 2);
            survives(&c.text, obs)
        },
    )
    .stack(2 << 20);
    let nest = Part::new(
        "nest",
        "one to four of 16 nesting constructs repeated to a depth, possibly cut; at most 100 levels must be accepted; non-trivial: depth at least 30",
        (8000, 80_000),
        |t| (vec(0u8..16, 1..4), depth(t), prop_oneof![3 => Just(1000u16), 1 => 0u16..1000]).prop_map(|(kinds, depth, cut)| Nest { kinds, depth, cut }).boxed(),
        |c: &Nest, obs| check_nest(c, false, obs),
    )
    .stack(2 << 20)
    .shrink(300);
    let chain = Part::new(
        "chain",
        "operator, index, field, let and prefix chains; non-trivial: length at least 30",
        (4000, 40_000),
        |t| (0u8..8, depth(t), prop_oneof![3 => Just(1000u16), 1 => 0u16..1000]).prop_map(|(k, depth, cut)| Nest { kinds: vec![k], depth, cut }).boxed(),
        |c: &Nest, obs| check_nest(c, true, obs),
    )
    .stack(2 << 20)
    .shrink(300);
    let wide = Part::new(
        "wide",
        "long flat texts (arrays, statements, maps, strings, definitions) are accepted; non-trivial: more than 500 items",
        (300, 1500),
        |t| (0u8..7, prop_oneof![1u32..2000, 2000..(if t == Tier::Quick { 20_000u32 } else { 100_000 })]).prop_map(|(kind, n)| Wide { kind, n }).boxed(),
        |c: &Wide, obs| {
            obs.nontrivial_if(c.n > 500);
            obs.sample(format!("{:?}", c));
            match run::run(&wide_text(c)) {
                Ran::Evaluated(Ok(_)) => Ok(()),
                Ran::Evaluated(Err(e)) | Ran::Refused(e) => Err(format!("{:?}: {}", c, e)),
            }
        },
    )
    .stack(2 << 20)
    .shrink(60);
    let flat = Part::new(
        "flat",
        "one to three pieces (numbers, names, strings, operators, brackets, escapes, layout) repeated to up to 2.5 MB, as a program, array, string or response body; non-trivial: a megabyte",
        (1200, 12_000),
        flat,
        check_flat,
    )
    .stack(2 << 20)
    // a hundred times what they take
    .cpu(10.0)
    .shrink(20);
    let levels = Part::new(
        "levels",
        "statements that wrap the value of a variable once more, repeated up to 12000 times (thorough: 60000) in one program, a session, or the iterations of a test, and the value then used; up to 33 times it must work; non-trivial: more than 100 times",
        (400, 4000),
        levels,
        check_levels,
    )
    .stack(2 << 20)
    .shrink(40);
    let body = Part::new(
        "body",
        "responses with arbitrary, nested, cut and mutated bodies; the request call must return; non-trivial: body of more than 4 bytes",
        (16_000, 300_000),
        |t| {
            let deep = (vec(0u8..16, 1..3), depth(t), 0u16..1001).prop_map(|(k, d, cut)| cut_at(&nest_text(&k, d).0, cut).into_bytes());
            let brackets = (proptest::sample::select(vec!["[", "{\"a\":", "[{\"a\":[", "(", "-", "!", "{\"a\":{\"b\":"]), depth(t)).prop_map(|(b, d)| b.repeat(d as usize).into_bytes());
            prop_oneof![
                2 => tokens_soup().prop_map(String::into_bytes),
                1 => mutated().prop_map(String::into_bytes),
                2 => vec(any::<u8>(), 0..200),
                1 => free_text().prop_map(String::into_bytes),
                2 => deep,
                2 => brackets,
            ]
            .prop_map(|body| Body { body })
            .boxed()
        },
        |c: &Body, obs| {
            obs.nontrivial_if(c.body.len() > 4);
            obs.sample(clip(&String::from_utf8_lossy(&c.body), 200));
            let mut response = b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_vec();
            response.extend_from_slice(&c.body);
            let mut got = net::exchange(net::Script::reply(response), "GET http://{at}/\nHost: h", "", &[]);
            ensure!(got.error.is_none(), "the call failed: {:?}", got.error);
            let r = got.records.pop().ok_or("no record")?;
            ensure!(r.error.is_empty() && r.response.status == 200, "error {:?}, status {}", r.error, r.response.status);
            Ok(())
        },
    )
    .stack(2 << 20);
    let command = Part::new(
        "command",
        "the same nests and soups given to the built command, as eval text and as a test file; it must end by itself; non-trivial: all",
        (1000, 8000),
        |t| {
            let n = (vec(0u8..16, 1..4), depth(t), prop_oneof![3 => Just(1000u16), 1 => 0u16..1000]).prop_map(|(k, d, cut)| {
                let k: Vec<u8> = if quoting(&k, d.min(5000)) > 10 { k.iter().map(|k| if matches!(k % 16, 12 | 15) { 0 } else { *k }).collect() } else { k };
                cut_at(&nest_text(&k, d.min(5000)).0, cut)
            });
            let ch = (0u8..8, depth(t)).prop_map(|(k, d)| chain_text(k, d.min(5000)));
            (prop_oneof![3 => n, 2 => ch, 2 => tokens_soup(), 2 => mutated(), 1 => free_text()], any::<bool>())
                .prop_map(|(text, file)| (text.replace('\0', " "), file))
                .boxed()
        },
        |(text, file): &(String, bool), obs| {
            obs.nontrivial();
            obs.sample(clip(text, 200));
            let out = if *file {
                obs.label("test file");
                let dir = Scratch::new("l01");
                std::fs::write(dir.0.join("s.fan"), format!("test t {{ {} }}", text)).expect("file");
                cli::run(&["test", "-p", dir.0.to_str().unwrap()], b"", &[])
            } else {
                obs.label("eval");
                cli::run(&["eval", "--", text], b"", &[])
            };
            cli::sane(&out)
        },
    )
    .shrink(100);
    Property {
        id: "L01",
        parts: vec![soup.boxed(), nest.boxed(), chain.boxed(), wide.boxed(), flat.boxed(), levels.boxed(), body.boxed(), command.boxed()],
        known: vec![],
        assumptions: vec!["a case that uses 40 s of CPU time three times over does not end", "threads have 2 MiB of stack, as the command's test threads do"],
    }
}

// ---------------------------------------------------------------- L02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    statements: Vec<E>,
    layout: Vec<u8>,
}

fn prelude() -> Vec<(String, E)> {
    let s = |x: &str| x.to_string();
    vec![
        (s("i"), E::Int(6)),
        (s("j"), E::Int(-1 + 4)),
        (s("f"), E::Float(s("1.5"))),
        (s("p"), E::Bool(true)),
        (s("q"), E::Bool(false)),
        (s("s"), E::Str(s("s"))),
        (s("a"), E::Arr(vec![E::Int(1), E::Int(5), E::Int(9)])),
        (s("m"), E::Map(vec![(E::Str(s("k")), E::Int(7)), (E::Str(s("x")), E::Int(2))])),
    ]
}

/// The variables of the prelude.
fn bound() -> Vars {
    let mut m = Machine::default();
    for (n, e) in prelude() {
        let _ = m.eval(&E::Let(n, bx(e)));
    }
    m.vars
}

/// Most programs are changed where they would fail, so that they run to their end.
fn mostly_running(statements: Vec<E>, chance: u8, vars: &Vars) -> Vec<E> {
    if chance < 220 {
        repair(&statements, vars)
    } else {
        statements
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    /// operand, and the operator before it
    items: Vec<(Op, u8, E)>,
    layout: Vec<u8>,
}

/// What an unparenthesised chain means, by the table.
fn chain_tree(items: &[(Op, u8, E)]) -> E {
    fn prefix(kind: u8, e: &E) -> E {
        match kind % 8 {
            5 => E::Neg(bx(e.clone())),
            6 => E::Not(bx(e.clone())),
            7 => E::Neg(bx(E::Not(bx(e.clone())))),
            _ => e.clone(),
        }
    }
    // repeatedly reduce the tightest operator, leftmost first
    let mut operands: Vec<E> = items.iter().map(|(_, k, e)| prefix(*k, e)).collect();
    let mut ops: Vec<Op> = items[1..].iter().map(|(o, _, _)| *o).collect();
    while !ops.is_empty() {
        let top = ops.iter().map(|o| o.level()).max().unwrap();
        let at = ops.iter().position(|o| o.level() == top).unwrap();
        let op = ops.remove(at);
        let right = operands.remove(at + 1);
        let left = std::mem::replace(&mut operands[at], E::Int(0));
        operands[at] = E::Bin(op, bx(left), bx(right));
    }
    operands.pop().unwrap()
}

fn chain_source(c: &Chain) -> String {
    let mut p = Printer::new(&c.layout);
    p.parens = 0;
    for (n, (op, k, e)) in c.items.iter().enumerate() {
        if n > 0 {
            p.tokens.push(op.text().into());
        }
        match k % 8 {
            5 => p.tokens.push("-".into()),
            6 => p.tokens.push("!".into()),
            7 => {
                p.tokens.push("-".into());
                p.tokens.push("!".into());
            }
            _ => {}
        }
        p.expr(e);
    }
    p.join()
}

fn small_operand() -> BoxedStrategy<E> {
    prop_oneof![
        8 => (0i64..12).prop_map(E::Int),
        2 => any::<bool>().prop_map(E::Bool),
        2 => proptest::sample::select(vec!["i", "j", "p", "q", "s", "f"]).prop_map(|n| E::Var(n.into())),
        1 => (0i64..4).prop_map(|i| E::Index(bx(E::Var("a".into())), bx(E::Int(i)))),
        1 => key().prop_map(|k| E::Field(bx(E::Var("m".into())), k)),
        1 => proptest::sample::select(vec!["a", "m", "s"]).prop_map(|n| E::Call("length".into(), vec![E::Var(n.into())])),
        1 => Just(E::Float("2.5".into())),
        1 => Just(E::Str("s".into())),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Literal {
    kind: u8,
    text: String,
}

fn check_literal(c: &Literal, obs: &mut Obs) -> Outcome {
    let (text, expected) = match c.kind {
        0 => (c.text.clone(), c.text.parse::<i64>().ok().map(V::Int)),
        1 => (c.text.clone(), Some(V::Float(c.text.parse().expect("float")))),
        _ => (format!("\"{}\"", c.text), Some(V::Str(c.text.clone()))),
    };
    obs.nontrivial_if(c.text.len() > 3);
    obs.label(["integer", "float", "string"][c.kind as usize]);
    for (form, wrap) in [("{}", None), ("[{}]", Some(0)), ("let x = {}; x", None), ("{\"k\": {}}", Some(1)), ("({})", None)] {
        obs.extra += 1;
        let program = form.replacen("{}", &text, 1);
        let got = run::value(&program);
        let expected = expected.clone().map(|v| match wrap {
            None => v,
            Some(0) => V::Arr(vec![v]),
            _ => V::Map(BTreeMap::from([("k".to_string(), v)])),
        });
        match (&got, &expected) {
            (Ok(a), Some(b)) => ensure!(same(a, b), "{} is {:?}, expected {:?}", program, a, b),
            (Err(_), None) => obs.label("out of range, refused"),
            (Err(e), Some(b)) => return Err(format!("{}: {}, expected {:?}", program, e, b)),
            (Ok(a), None) => return Err(format!("{} is {:?}, but cannot be represented", program, a)),
        }
    }
    Ok(())
}

/// A request or a test among the statements.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Definition {
    Request(String, Vec<E>),
    Test(String, Vec<E>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Corrupt {
    statements: Vec<E>,
    #[serde(default)]
    definitions: Vec<(u8, Definition)>,
    layout: Vec<u8>,
    kind: u8,
    at: u16,
    /// a second choice, of what is put in
    #[serde(default)]
    what: u8,
}

/// The tokens of the statements with the definitions before, between and behind them.
fn corrupt_tokens<'a>(c: &'a Corrupt) -> Printer<'a> {
    let mut p = Printer::new(&c.layout);
    let n = c.statements.len();
    for i in 0..=n {
        for (at, d) in c.definitions.iter().filter(|(at, _)| *at as usize % (n + 1) == i) {
            match d {
                Definition::Request(name, asserts) => {
                    p.tokens.extend(["request".to_string(), name.clone(), "`\nGET http://host/\n`".to_string()]);
                    // brackets behind a request are its assertions
                    p.tokens.push("[".into());
                    for (i, e) in asserts.iter().enumerate() {
                        if i > 0 {
                            p.tokens.push(",".into());
                        }
                        p.expr(e);
                    }
                    p.tokens.push("]".into());
                }
                Definition::Test(name, body) => {
                    p.tokens.extend(["test".to_string(), name.clone(), "{".to_string()]);
                    p.block(body);
                    p.tokens.push("}".into());
                }
            }
            // nothing needs closing behind a definition
            if at % 2 == 0 {
                p.tokens.push(";".into());
            }
        }
        if i < n {
            p.block(&c.statements[i..=i]);
            if p.tokens.last().map(String::as_str) != Some(";") {
                p.tokens.push(";".into());
            }
        }
    }
    p
}

/// Everything the intact text defines is there, and nothing else.
fn check_intact(c: &Corrupt, text: &str) -> Outcome {
    let source = Parser::new(text).parse().map_err(|e| format!("refused: {}: {}", e, text))?;
    ensure!(source.exprs.len() == c.statements.len(), "{} statements of {}: {}", source.exprs.len(), c.statements.len(), text);
    let mut requests = BTreeMap::new();
    let mut tests = BTreeMap::new();
    // of two definitions with one name the last one counts
    let n = c.statements.len() + 1;
    for i in 0..n {
        for (_, d) in c.definitions.iter().filter(|(at, _)| *at as usize % n == i) {
            match d {
                Definition::Request(name, asserts) => requests.insert(name.clone(), asserts.len()),
                Definition::Test(name, body) => tests.insert(name.clone(), body.len()),
            };
        }
    }
    let got: BTreeMap<String, usize> = source.requests.iter().map(|(n, (_, a))| (n.clone(), a.len())).collect();
    ensure!(got == requests, "requests {:?}, expected {:?}: {}", got, requests, text);
    let got: BTreeMap<String, usize> = source.tests.iter().map(|(n, b)| (n.clone(), b.len())).collect();
    ensure!(got == tests, "tests {:?}, expected {:?}: {}", got, tests, text);
    for (message, _) in source.requests.values() {
        ensure!(message == "\nGET http://host/\n", "template {:?}: {}", message, text);
    }
    Ok(())
}

const CORRUPTIONS: u8 = 14;

/// The corrupted text, when the corruption applies.
fn corrupt_text(c: &Corrupt) -> Option<(String, &'static str)> {
    let mut p = corrupt_tokens(c);
    let t = &p.tokens;
    let bracket = |s: &str| matches!(s, "(" | ")" | "[" | "]" | "{" | "}");
    let literal = |s: &str| s.starts_with('"') || s.starts_with(|c: char| c.is_ascii_digit()) || s == "true" || s == "false";
    let keyword = |s: &str| matches!(s, "true" | "false" | "request" | "let" | "if" | "else" | "test");
    let ident = |s: &str| s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !keyword(s);
    let infix = |s: &str| OPS.iter().any(|o| o.text() == s);
    // the tokens, and the ones on both sides ("" at the ends)
    let of = |i: usize| t.get(i).map(String::as_str).unwrap_or("");
    let before = |i: usize| if i == 0 { "" } else { of(i - 1) };
    let after = |i: usize| of(i + 1);
    let find = |keep: &dyn Fn(usize) -> bool| (0..t.len()).filter(|i| keep(*i)).collect::<Vec<usize>>();
    let remove = None;
    let (what, candidates, put): (&'static str, Vec<usize>, Option<String>) = match c.kind % CORRUPTIONS {
        0 => ("bracket removed", find(&|i| bracket(of(i))), remove),
        // put before the one that is there
        1 => {
            let candidates = find(&|i| bracket(of(i)));
            let put = candidates.get(c.at as usize % candidates.len().max(1)).map(|i| t[*i].clone());
            ("bracket doubled", candidates, put)
        }
        2 => (
            "right operand removed",
            // with nothing behind it that could take its place
            find(&|i| {
                literal(of(i))
                    && (infix(before(i)) || matches!(before(i), "!" | "="))
                    && matches!(after(i), "" | ")" | "]" | "}" | "," | ";" | ":" | "*" | "/" | "%" | "==" | "!=" | "<" | ">" | "<=" | ">=" | "&&" | "||" | "&" | "|" | "^" | "+")
            }),
            remove,
        ),
        3 => (
            "left operand removed",
            find(&|i| literal(of(i)) && matches!(before(i), "" | "(" | "[" | "{" | "," | ";" | ":" | "=") && infix(after(i)) && after(i) != "-"),
            remove,
        ),
        4 => ("= of a let removed", find(&|i| of(i) == "="), remove),
        5 => ("name removed", find(&|i| ident(of(i)) && matches!(before(i), "let" | "request" | "test")), remove),
        6 => ("colon removed", find(&|i| of(i) == ":"), remove),
        7 => (
            "comma removed",
            // what follows cannot continue the item before it
            find(&|i| of(i) == "," && !matches!(after(i), "(" | "[" | "-" | ")" | "]" | "}")),
            remove,
        ),
        8 => (
            "field name removed",
            find(&|i| ident(of(i)) && before(i) == "." && !ident(after(i)) && !(i >= 2 && literal(of(i - 2)))),
            remove,
        ),
        9 => ("template removed", find(&|i| of(i).starts_with('`')), remove),
        10 => (
            "keyword removed",
            // what is left starts a map without a colon
            find(&|i| (of(i) == "else" && of(i + 2) != "}") || (of(i) == "request" && ident(after(i))) || (of(i) == "test" && of(i + 3) != "}")),
            remove,
        ),
        11 => {
            let candidates = find(&|i| matches!(of(i), "," | ":" | "=" | ".") || (infix(of(i)) && of(i) != "-"));
            let put = candidates.get(c.at as usize % candidates.len().max(1)).map(|i| t[*i].clone());
            ("sign doubled", candidates, put)
        }
        12 => {
            let put = [":", "=", "@", "#", "$", "?", "~", "\\", "'", "é", "==", "<=", "&&", "/"][c.what as usize % 14];
            // neither may it stand where an operator may, between two operands
            let operator = infix(put);
            ("sign put in", find(&|i| !operator || matches!(before(i), "" | "(" | "[" | "{" | "," | ";" | ":" | "=" | "!" | "else" | "if" | "let" | "test" | "request") || infix(before(i))), Some(put.to_string()))
        }
        _ => {
            let put = ["let", "if", "else", "test", "request"][c.what as usize % 5];
            // inside brackets, or between an operator and its operand
            ("keyword put in", find(&|i| (infix(before(i)) || matches!(before(i), "=" | ":" | "." | "let" | "!")) && of(i) != "(" && !(put == "let" && ident(of(i)) && after(i) == "=")), Some(put.to_string()))
        }
    };
    if candidates.is_empty() {
        return None;
    }
    let at = candidates[c.at as usize % candidates.len()];
    match put {
        None => {
            p.tokens.remove(at);
        }
        Some(put) => p.tokens.insert(at, put),
    }
    if p.tokens.is_empty() {
        return None;
    }
    Some((p.join(), what))
}

pub fn l02() -> Property {
    let pairs = Part::new(
        "chains",
        "unparenthesised chains of 2 to 7 operands over all 18 operators and prefixes, against the table; non-trivial: two operators of different levels or three operands",
        (200_000, 8_000_000),
        |_| {
            let chain = |ops: Vec<Op>, prefix: BoxedStrategy<u8>, operand: BoxedStrategy<E>| vec((proptest::sample::select(ops), prefix, operand), 2..8);
            let among = |keep: fn(&Op) -> bool| OPS.into_iter().filter(keep).collect::<Vec<Op>>();
            let number = || prop_oneof![6 => (1i64..9).prop_map(E::Int), 1 => proptest::sample::select(vec!["i", "j"]).prop_map(|n| E::Var(n.into()))].boxed();
            let items = prop_oneof![
                // these mostly have a value: integers throughout, or integers compared
                4 => chain(among(|o| !o.is_compare() && o.level() > 2), prop_oneof![5 => Just(0u8), 1 => 5u8..8].boxed(), number()),
                4 => chain(among(|o| !matches!(o, Op::BitAnd | Op::BitOr | Op::BitXor)), Just(0u8).boxed(), number()),
                3 => chain(OPS.to_vec(), Just(0u8).boxed(), number()),
                3 => chain(OPS.to_vec(), (0u8..8).boxed(), small_operand()),
            ];
            (items, layout()).prop_map(|(items, layout)| Chain { items, layout }).boxed()
        },
        |c: &Chain, obs| {
            let tree = chain_tree(&c.items);
            let source = chain_source(c);
            obs.sample(source.clone());
            obs.nontrivial_if(c.items.len() > 2);
            let mut machine = Machine::default();
            let mut context = Context::new();
            for (n, e) in prelude() {
                let e = E::Let(n, bx(e));
                let _ = machine.eval(&e);
                run::run_in(&mut context, &plain(&e));
            }
            let expected = machine.eval(&tree);
            if machine.unpredictable {
                return Ok(());
            }
            obs.label(if expected.is_ok() { "value" } else { "error" });
            match (run::run_in(&mut context, &source), expected) {
                (Ran::Refused(e), _) => Err(format!("{} refused: {}", source, e)),
                (Ran::Evaluated(Ok(a)), Ok(b)) if same(&a, &b) => Ok(()),
                (Ran::Evaluated(Err(_)), Err(())) => Ok(()),
                (Ran::Evaluated(got), expected) => Err(format!("{} is {:?}, expected {:?}", source, got, expected)),
            }
        },
    );
    let trees = Part::new(
        "trees",
        "typed expression trees printed with the fewest parentheses plus redundant ones, in random layouts, against the reference interpreter; non-trivial: at least two operators",
        (50_000, 2_000_000),
        |_| {
            let g = Gen::new(4, true, true, true, true, 1);
            let vars = bound();
            (vec(g.any(4), 1..4), layout(), any::<u8>())
                .prop_map(move |(statements, layout, chance)| Program { statements: mostly_running(statements, chance, &vars), layout })
                .boxed()
        },
        |c: &Program, obs| {
            let mut ops = Vec::new();
            c.statements.iter().for_each(|e| e.ops(&mut ops));
            obs.nontrivial_if(ops.len() >= 2);
            differential(&c.statements, &c.layout, &prelude(), obs)
        },
    );
    let literals = Part::new(
        "literals",
        "integer, float and string literals in five positions keep their exact value, or are refused when not representable; non-trivial: longer than 3 characters",
        (60_000, 2_000_000),
        |_| {
            prop_oneof![
                2 => edge_int().prop_map(|i| Literal { kind: 0, text: i.to_string() }),
                1 => "[0-9]{1,22}".prop_map(|text| Literal { kind: 0, text }),
                1 => "-[0-9]{1,20}".prop_map(|text| Literal { kind: 0, text }),
                1 => (any::<u32>(), -2i128..4).prop_map(|(a, d)| Literal { kind: 0, text: (i64::MIN as i128 - 1 + d - (a % 2) as i128 * a as i128).to_string() }),
                1 => (any::<u32>(), 0i128..4).prop_map(|(a, d)| Literal { kind: 0, text: (i64::MAX as i128 - 1 + d + (a % 2) as i128 * a as i128).to_string() }),
                2 => float_text().prop_map(|text| Literal { kind: 1, text }),
                1 => "[0-9]{1,20}\\.[0-9]{0,20}([eE][-+]?[0-9]{1,3})?".prop_map(|text| Literal { kind: 1, text }),
                3 => any_text(60).prop_map(|text| Literal { kind: 2, text }),
                1 => any_text(3000).prop_map(|text| Literal { kind: 2, text }),
            ]
            .boxed()
        },
        check_literal,
    );
    let corrupt = Part::new(
        "corrupt",
        "programs with requests and tests, intact (nothing lost) and with one token removed, doubled or put in where the grammar has no place for it, which must be refused; non-trivial: the corruption applies",
        (90_000, 3_000_000),
        |_| {
            let g = Gen::new(3, true, true, true, true, 1);
            let name = || proptest::sample::select(vec!["get", "post", "t1", "_x", "Check"]).prop_map(String::from);
            let definition = prop_oneof![
                (name(), vec(g.any(2), 0..4)).prop_map(|(n, a)| Definition::Request(n, a)),
                (name(), vec(g.any(2), 1..4)).prop_map(|(n, b)| Definition::Test(n, b)),
            ];
            (vec(g.any(3), 1..4), prop_oneof![2 => Just(vec![]).boxed(), 3 => vec((any::<u8>(), definition), 1..3).boxed()], layout(), 0..CORRUPTIONS, any::<u16>(), any::<u8>())
                .prop_map(|(statements, definitions, layout, kind, at, what)| Corrupt { statements, definitions, layout, kind, at, what })
                .boxed()
        },
        |c: &Corrupt, obs| {
            check_intact(c, &corrupt_tokens(c).join())?;
            let Some((text, what)) = corrupt_text(c) else {
                obs.label("does not apply");
                return Ok(());
            };
            obs.nontrivial();
            obs.label(what);
            obs.sample(format!("{}: {}", what, text));
            // also behind and before intact statements
            for t in [text.clone(), format!("let i = 1;\n{}", text), format!("{};\nlet i = 1", text), format!("test t {{ {} }}", text)] {
                obs.extra += 1;
                if let Ran::Evaluated(r) = run::run(&t) {
                    return Err(format!("{}, but accepted with {:?}: {}", what, r, t));
                }
            }
            Ok(())
        },
    );
    Property {
        id: "L02",
        parts: vec![pairs.boxed(), trees.boxed(), literals.boxed(), corrupt.boxed()],
        known: vec![],
        assumptions: vec!["a statement that starts with ( [ - or ! is separated by a semicolon from the one before it"],
    }
}

// ---------------------------------------------------------------- L03

fn value_expr() -> BoxedStrategy<E> {
    let int = prop_oneof![
        4 => edge_int().prop_map(E::Int),
        4 => edge_int().prop_map(|i| E::Neg(bx(E::Int(i)))),
        1 => Just(E::Bin(Op::Sub, bx(E::Neg(bx(E::Int(i64::MAX)))), bx(E::Int(1)))),
    ];
    let float = prop_oneof![
        4 => float_text().prop_map(E::Float),
        3 => float_text().prop_map(|f| E::Neg(bx(E::Float(f)))),
        1 => Just(E::Bin(Op::Div, bx(E::Float("0.0".into())), bx(E::Float("0.0".into())))),
        1 => Just(E::Bin(Op::Div, bx(E::Float("1.0".into())), bx(E::Float("0.0".into())))),
        1 => Just(E::Neg(bx(E::Bin(Op::Div, bx(E::Float("1.0".into())), bx(E::Float("0.0".into())))))),
        // the float next to an integer
        2 => edge_int().prop_map(|i| E::Bin(Op::Add, bx(E::Int(i)), bx(E::Float("0.0".into())))),
    ];
    let base = prop_oneof![
        6 => int,
        4 => float,
        2 => any::<bool>().prop_map(E::Bool),
        3 => short_str().prop_map(E::Str),
        1 => Just(E::Index(bx(E::Arr(vec![])), bx(E::Int(0)))),
    ]
    .boxed();
    let item = base.clone();
    prop_oneof![
        16 => base,
        2 => vec(item.clone(), 0..3).prop_map(E::Arr),
        2 => vec((key().prop_map(E::Str), item), 0..3).prop_map(E::Map),
    ]
    .boxed()
}

pub fn l03() -> Property {
    let pairs = Part::new(
        "pairs",
        "every operator on pairs of operands of every type, half of them equal or neighbouring values, including extremes, NaN, infinities and null; non-trivial: all",
        (300_000, 12_000_000),
        |_| {
            let related = value_expr().prop_flat_map(|e| {
                let near = match &e {
                    E::Int(i) => vec![E::Int(*i), E::Int(i.saturating_add(1)), E::Int((i - 1).max(0)), E::Neg(bx(E::Int(*i))), E::Bin(Op::Add, bx(E::Int(*i)), bx(E::Float("0.0".into())))],
                    E::Float(f) => vec![e.clone(), E::Neg(bx(e.clone())), E::Bin(Op::Mul, bx(E::Float(f.clone())), bx(E::Int(1)))],
                    E::Str(s) => vec![e.clone(), E::Str(format!("{}a", s)), E::Str(s.chars().skip(1).collect()), E::Str(s.to_uppercase().replace('"', ""))],
                    E::Arr(a) => vec![e.clone(), E::Arr(a.iter().rev().cloned().collect()), E::Arr(a.iter().skip(1).cloned().collect())],
                    E::Map(m) => vec![e.clone(), E::Map(m.iter().rev().cloned().collect()), E::Map(m.iter().skip(1).cloned().collect())],
                    _ => vec![e.clone()],
                };
                (Just(e), proptest::sample::select(near))
            });
            let any_pair = (value_expr(), value_expr());
            let shift = (value_expr(), (-3i64..70).prop_map(|n| if n < 0 { E::Neg(bx(E::Int(-n))) } else { E::Int(n) }));
            (proptest::sample::select(OPS.to_vec()), prop_oneof![related.boxed(), any_pair.boxed(), shift.boxed()], any::<bool>())
                .prop_map(|(op, (a, b), swap)| if swap && !matches!(op, Op::Shl | Op::Shr) { E::Bin(op, bx(b), bx(a)) } else { E::Bin(op, bx(a), bx(b)) })
                .prop_map(|e| Program { statements: vec![e], layout: vec![] })
                .boxed()
        },
        |c: &Program, obs| {
            obs.nontrivial();
            if let E::Bin(op, ..) = &c.statements[0] {
                obs.label(format!("op {}", op.text()));
            }
            differential(&c.statements, &c.layout, &[], obs)
        },
    );
    let unary = Part::new(
        "unary",
        "prefix operators, single and nested, on values of every type; non-trivial: all",
        (40_000, 1_000_000),
        |_| {
            (value_expr(), vec(any::<bool>(), 1..4))
                .prop_map(|(e, ks)| {
                    let e = ks.into_iter().fold(e, |e, neg| if neg { E::Neg(bx(e)) } else { E::Not(bx(e)) });
                    Program { statements: vec![e], layout: vec![] }
                })
                .boxed()
        },
        |c: &Program, obs| {
            obs.nontrivial();
            differential(&c.statements, &c.layout, &[], obs)
        },
    );
    let trees = Part::new(
        "composed",
        "expression trees with bindings inside operands, so that order and short circuit show in the variables; non-trivial: an operator with a binding inside",
        (80_000, 3_000_000),
        |_| {
            let g = Gen::new(4, true, true, false, false, 3);
            let vars = bound();
            (vec(g.any(4), 1..4), any::<u8>())
                .prop_map(move |(statements, chance)| Program { statements: mostly_running(statements, chance, &vars), layout: vec![] })
                .boxed()
        },
        |c: &Program, obs| {
            let mut ops = Vec::new();
            c.statements.iter().for_each(|e| e.ops(&mut ops));
            obs.nontrivial_if(!ops.is_empty());
            differential(&c.statements, &c.layout, &prelude(), obs)
        },
    );
    let effects = Part::new(
        "effects",
        "operator trees whose leaves each bind a variable of their own: which operands are evaluated, and in which order, shows; non-trivial: at least two operators",
        (80_000, 3_000_000),
        |_| {
            let leaf = prop_oneof![
                4 => any::<bool>().prop_map(E::Bool),
                2 => (0i64..5).prop_map(E::Int),
                1 => Just(E::Index(bx(E::Arr(vec![])), bx(E::Int(0)))),
                1 => short_str().prop_map(E::Str),
                1 => Just(E::Var("unbound".into())),
            ];
            // v counts the evaluations: every leaf is [let i = i + 1 or append, leaf][1]
            let tree = leaf.prop_recursive(4, 16, 3, |inner| {
                prop_oneof![
                    4 => (proptest::sample::select(vec![Op::And, Op::Or]), inner.clone(), inner.clone()).prop_map(|(o, a, b)| E::Bin(o, bx(a), bx(b))),
                    3 => (proptest::sample::select(OPS.to_vec()), inner.clone(), inner.clone()).prop_map(|(o, a, b)| E::Bin(o, bx(a), bx(b))),
                    1 => inner.clone().prop_map(|e| E::Not(bx(e))),
                    1 => (inner.clone(), inner.clone(), inner).prop_map(|(c, a, b)| E::If(bx(c), vec![a], vec![b])),
                ]
            });
            tree.prop_map(|t| {
                fn mark(e: E, n: &mut i64) -> E {
                    match e {
                        E::Bin(o, a, b) => {
                            let a = mark(*a, n);
                            let b = mark(*b, n);
                            E::Bin(o, bx(a), bx(b))
                        }
                        E::Not(a) => E::Not(bx(mark(*a, n))),
                        E::If(c, a, b) => {
                            let c = mark(*c, n);
                            let a = a.into_iter().map(|e| mark(e, n)).collect();
                            let b = b.into_iter().map(|e| mark(e, n)).collect();
                            E::If(bx(c), a, b)
                        }
                        leaf => {
                            *n += 1;
                            let trace = E::Let("a".into(), bx(E::Call("append".into(), vec![E::Var("a".into()), E::Int(*n)])));
                            E::Index(bx(E::Arr(vec![trace, leaf])), bx(E::Int(1)))
                        }
                    }
                }
                let t = mark(t, &mut 0);
                Program { statements: vec![E::Let("a".into(), bx(E::Arr(vec![]))), t], layout: vec![] }
            })
            .boxed()
        },
        |c: &Program, obs| {
            let mut ops = Vec::new();
            c.statements.iter().for_each(|e| e.ops(&mut ops));
            obs.nontrivial_if(ops.len() > 1);
            differential(&c.statements, &c.layout, &[], obs)
        },
    );
    Property {
        id: "L03",
        parts: vec![pairs.boxed(), unary.boxed(), trees.boxed(), effects.boxed()],
        known: vec![],
        assumptions: vec!["the smallest integer % -1 may be 0 or an error"],
    }
}

// ---------------------------------------------------------------- L04

/// Something of a size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    kind: u8,
    n: u32,
    /// where to look, of a thousand parts of n
    at: Vec<u16>,
    /// how many keys are the same, and other variations
    twist: u8,
}

const LARGE: [&str; 11] = ["nested arrays", "nested maps", "an array", "a map", "statements", "appends", "a branch", "arguments", "a string", "variables", "equality"];

fn large(c: &Large) -> Vec<E> {
    let n = c.n as i64;
    let var = |s: &str| E::Var(s.into());
    let set = |s: &str, e: E| E::Let(s.into(), bx(e));
    let call = |s: &str, a: Vec<E>| E::Call(s.into(), a);
    let int = |i: i64| if i < 0 { E::Neg(bx(E::Int(-i))) } else { E::Int(i) };
    let places: Vec<i64> = c.at.iter().map(|p| (*p as i64 * (n + 2) / 1000) - 1).chain([0, n - 1, n]).collect();
    let items = |k: i64| (0..n).map(|i| E::Int(i * 7 + k)).collect::<Vec<E>>();
    let read = |name: &str| {
        let mut reads: Vec<E> = places.iter().map(|p| E::Index(bx(var(name)), bx(int(*p)))).collect();
        reads.push(call("length", vec![var(name)]));
        E::Arr(reads)
    };
    match c.kind as usize % LARGE.len() {
        // each item is a collection of its own
        k @ (0 | 1) => {
            let item = |i: i64| match (k, i % 3) {
                (0, 0) => E::Arr(vec![E::Int(i), E::Arr(vec![])]),
                (0, _) => E::Arr(vec![]),
                (_, 0) => E::Map(vec![(E::Str("id".into()), E::Int(i)), (E::Int(i), E::Map(vec![]))]),
                (_, _) => E::Map(vec![]),
            };
            let list = E::Arr((0..n).map(item).collect());
            // also without a variable
            vec![set("a", list.clone()), set("b", read("a")), set("i", E::Index(bx(list), bx(int(places[0]))))]
        }
        2 => vec![set("a", E::Arr(items(1))), set("b", read("a"))],
        3 => {
            let same = c.twist as i64 % 5 + 1;
            let key = |i: i64| match c.twist % 2 {
                0 => E::Int(i),
                _ => E::Str(format!("k{}", i)),
            };
            let pairs = (0..n).map(|i| (key(i / same), E::Int(i))).collect();
            let mut reads: Vec<E> = places.iter().map(|p| E::Index(bx(var("m")), bx(if *p < 0 { E::Str("none".into()) } else { key(p / same) }))).collect();
            reads.push(call("length", vec![var("m")]));
            vec![set("m", E::Map(pairs)), E::Arr(reads)]
        }
        4 => {
            let mut s = vec![set("i", E::Int(0))];
            s.extend((0..n).map(|k| set("i", E::Bin(if k % 3 == 0 { Op::Sub } else { Op::Add }, bx(var("i")), bx(E::Int(k))))));
            s
        }
        5 => {
            let mut s = vec![set("a", E::Arr(vec![]))];
            s.extend((0..n.min(1500)).map(|k| set("a", call("append", vec![var("a"), E::Int(k)]))));
            s.push(read("a"));
            s
        }
        6 => {
            let body: Vec<E> = std::iter::once(set("i", E::Int(5))).chain((0..n).map(|k| set("i", E::Bin(Op::BitXor, bx(var("i")), bx(E::Int(k)))))).collect();
            let (x, y) = if c.twist % 2 == 0 { (body, vec![E::Int(1)]) } else { (vec![E::Int(1)], body) };
            vec![set("s", E::If(bx(E::Bool(c.twist % 2 == 0)), x, y)), var("s")]
        }
        7 => {
            let mut all = vec![E::Arr(vec![E::Int(-0)])];
            all.extend(items(3));
            let mut holes = vec![E::Str("{x},".repeat(n as usize))];
            holes.extend(items(2));
            vec![set("a", call("append", all)), set("s", call("format", holes)), E::Arr(vec![read("a"), call("length", vec![var("s")])])]
        }
        8 => {
            let unit = ["x", "é", "a b\n", "🎉"][c.twist as usize % 4];
            vec![set("s", E::Str(unit.repeat(n as usize * 10))), E::Arr(vec![call("length", vec![var("s")]), E::Bin(Op::Eq, bx(var("s")), bx(E::Str(unit.repeat(n as usize * 10)))), E::Bin(Op::Lt, bx(var("s")), bx(E::Str(format!("{}!", unit.repeat(n as usize * 10)))))])]
        }
        9 => {
            let mut s: Vec<E> = (0..n).map(|k| set(&format!("v{}", k), E::Int(k * 3))).collect();
            s.push(E::Arr(places.iter().filter(|p| (0..n).contains(p)).map(|p| var(&format!("v{}", p))).collect()));
            s
        }
        _ => {
            let other = |p: i64| {
                let mut v = items(1);
                if (0..n).contains(&p) {
                    v[p as usize] = E::Int(-0x7fff + 0x8000 * 7);
                }
                E::Arr(v)
            };
            let mut s = vec![set("a", E::Arr(items(1)))];
            let mut all = vec![E::Bin(Op::Eq, bx(var("a")), bx(other(-1)))];
            all.push(E::Bin(Op::Eq, bx(var("a")), bx(other(places[0]))));
            all.push(E::Bin(Op::Ne, bx(var("a")), bx(other(n - 1))));
            s.push(E::Arr(all));
            s
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Steps {
    /// each step is a program of its own, in one context
    steps: Vec<Program>,
}

pub fn l04() -> Property {
    let programs = Part::new(
        "programs",
        "programs of up to 14 statements with bindings, collections, indexing, if/else and natives, from unbound or bound variables; result and every variable against the reference interpreter; non-trivial: at least 3 statements",
        (50_000, 2_000_000),
        |_| {
            let g = Gen::new(3, true, true, true, true, 3);
            let statement = {
                let mut items: Vec<(u32, BoxedStrategy<E>)> = vec![(3, g.any(3))];
                for t in TYPES {
                    items.push((2, (gen::name_of(t), g.of(t, 3)).prop_map(|(n, e)| E::Let(n, bx(e))).boxed()));
                }
                // a variable and a changed copy of it
                items.push((2, (gen::name_of(Ty::Arr), gen::name_of(Ty::Arr), g.any(1)).prop_map(|(n, m, e)| E::Let(n, bx(E::Call("append".into(), vec![E::Var(m), e])))).boxed()));
                union(items)
            };
            (vec(statement, 1..14), layout(), any::<bool>(), any::<u8>())
                .prop_map(|(mut statements, layout, bound, chance)| {
                    if bound {
                        let mut p: Vec<E> = prelude().into_iter().map(|(n, e)| E::Let(n, bx(e))).collect();
                        p.extend(statements);
                        statements = p;
                    }
                    Program { statements: mostly_running(statements, chance, &Vars::new()), layout }
                })
                .boxed()
        },
        |c: &Program, obs| {
            obs.nontrivial_if(c.statements.len() >= 3);
            differential(&c.statements, &c.layout, &[], obs)
        },
    );
    let steps = Part::new(
        "steps",
        "sequences of programs in one context, some failing half way: every variable after every step; non-trivial: a step after a failed one",
        (30_000, 1_000_000),
        |_| {
            let g = Gen::new(2, true, true, true, true, 4);
            let program = (vec(g.any(2), 1..4), layout(), any::<u8>());
            vec(program, 1..8)
                .prop_map(|steps| {
                    let mut machine = Machine::default();
                    let mut out = Vec::new();
                    for (statements, layout, chance) in steps {
                        let statements = mostly_running(statements, chance, &machine.vars);
                        let _ = machine.block(&statements);
                        out.push(Program { statements, layout });
                    }
                    Steps { steps: out }
                })
                .boxed()
        },
        |c: &Steps, obs| {
            let mut machine = Machine::default();
            let mut context = Context::new();
            let mut failed = false;
            for (n, p) in c.steps.iter().enumerate() {
                let text = program_text(&p.statements, &p.layout);
                let expected = machine.block(&p.statements);
                if machine.unpredictable {
                    return Ok(());
                }
                obs.nontrivial_if(failed);
                failed |= expected.is_err();
                obs.extra += 1;
                match (run::run_in(&mut context, &text), &expected) {
                    (Ran::Refused(e), _) => return Err(format!("step {} refused: {}: {}", n, e, text)),
                    (Ran::Evaluated(Ok(a)), Ok(b)) if same(&a, b) => {}
                    (Ran::Evaluated(Err(_)), Err(())) => {}
                    (Ran::Evaluated(got), _) => return Err(format!("step {} is {:?}, expected {:?}: {}", n, got, expected, text)),
                }
                for ty in TYPES {
                    for name in names(ty) {
                        let (got, expected) = (run::get(&context, name), machine.vars.get(*name));
                        let fine = match (&got, expected) {
                            (Some(a), Some(b)) => same(a, b),
                            (None, None) => true,
                            _ => false,
                        };
                        ensure!(fine, "after step {}: {} is {:?}, expected {:?}: {}", n, name, got, expected, text);
                    }
                }
            }
            Ok(())
        },
    );
    let collections = Part::new(
        "collections",
        "large arrays and maps with duplicate keys, read at positions around their bounds and by present and absent keys; non-trivial: more than 8 items",
        (20_000, 600_000),
        |_| {
            let k = prop_oneof![3 => key(), 2 => (0u32..30).prop_map(|i| format!("k{}", i)), 1 => (0u32..30).prop_map(|i| i.to_string())];
            // also far outside, where a position cut to fewer bits would be inside again
            let far = (proptest::sample::select(vec![8u32, 16, 31, 32, 33, 48, 62]), any::<bool>(), 0i64..70).prop_map(|(p, neg, k)| if neg { -(1i64 << p) + k } else { (1i64 << p) + k });
            let limit = (any::<bool>(), 0i64..70).prop_map(|(neg, k)| if neg { -i64::MAX + k } else { i64::MAX - k });
            let position = prop_oneof![6 => -3i64..70, 2 => far, 1 => limit];
            (vec((k.clone(), edge_int()), 0..60), vec(k, 1..6), vec(position, 1..6), any::<u8>())
                .prop_map(|(pairs, keys, idx, wrap)| (pairs, keys, idx, wrap))
                .boxed()
        },
        |(pairs, keys, idx, wrap): &(Vec<(String, i64)>, Vec<String>, Vec<i64>, u8), obs| {
            obs.nontrivial_if(pairs.len() > 8);
            let map = E::Map(pairs.iter().map(|(k, v)| (k.parse::<i64>().map(E::Int).unwrap_or(E::Str(k.clone())), E::Int(*v))).collect());
            let arr = E::Arr(pairs.iter().map(|(k, v)| if wrap % 2 == 0 { E::Int(*v) } else { E::Arr(vec![E::Str(k.clone()), E::Int(*v)]) }).collect());
            let mut s = vec![E::Let("m".into(), bx(map)), E::Let("a".into(), bx(arr))];
            let mut reads = Vec::new();
            for k in keys {
                reads.push(match k.parse::<i64>() {
                    Ok(i) if wrap % 3 == 0 => E::Index(bx(E::Var("m".into())), bx(E::Int(i))),
                    Ok(_) => E::Index(bx(E::Var("m".into())), bx(E::Str(k.clone()))),
                    Err(_) if wrap % 3 == 0 => E::Index(bx(E::Var("m".into())), bx(E::Str(k.clone()))),
                    Err(_) => E::Field(bx(E::Var("m".into())), k.clone()),
                });
            }
            for i in idx {
                let i = if *i < 0 { E::Neg(bx(E::Int(-i))) } else { E::Int(*i) };
                reads.push(E::Index(bx(E::Var("a".into())), bx(i)));
            }
            reads.push(E::Call("length".into(), vec![E::Var("m".into())]));
            reads.push(E::Call("length".into(), vec![E::Var("a".into())]));
            s.push(E::Arr(reads));
            differential(&s, &[], &[], obs)
        },
    );
    let scale = Part::new(
        "scale",
        "arrays, maps, sequences of statements, branches, arguments, strings and sets of variables of up to thousands of items (to 6 000, thorough 60 000), read at their ends and in between: result and variables against the reference interpreter; non-trivial: more than 100 items",
        (4000, 80_000),
        |tier| {
            let n = (0u32..if tier == Tier::Quick { 1260 } else { 1590 }).prop_map(|e| 2f64.powf(e as f64 / 100.0) as u32);
            (any::<u8>(), n, vec(0u16..1000, 1..4), any::<u8>()).prop_map(|(kind, n, at, twist)| Large { kind, n, at, twist }).boxed()
        },
        |c: &Large, obs| {
            obs.nontrivial_if(c.n > 100);
            obs.label(format!("of {}", LARGE[c.kind as usize % LARGE.len()]));
            differential(&large(c), &[], &[], obs).map_err(|e| clip(&e, 2000))
        },
    )
    .shrink(200);
    Property {
        id: "L04",
        parts: vec![programs.boxed(), steps.boxed(), collections.boxed(), scale.boxed()],
        known: vec![],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- L05

pub fn piece_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 ,:/?&=_.-]{0,12}",
        2 => proptest::sample::select(vec!["{", "}", "{}", "{ }", "{1}", "{a", "a}", "{a b}", "{a-b}", "{{", "}}", "{{a", "{\n", "$", "\\", "{é}", "{a.b}", "é{", "🎉"]).prop_map(String::from),
        1 => any_text(8),
    ]
    .boxed()
}

pub fn hole() -> BoxedStrategy<String> {
    (
        proptest::sample::select(vec!["", "", "", " ", "  ", "\t", "\n"]),
        proptest::sample::select(vec!["a", "b", "name", "_", "x1", "A_b", "string"]),
        proptest::sample::select(vec!["", "", "", " ", "  ", "\n "]),
    )
        .prop_map(|(l, n, r)| format!("{{{}{}{}}}", l, n, r))
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Format {
    pieces: Vec<String>,
    args: Vec<E>,
    /// arguments added to (or taken from) the right number
    off: i8,
    name: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    holes: u32,
    /// different names
    names: u32,
    /// length of the names
    long: u32,
    off: i32,
    append: bool,
}

fn format_case() -> BoxedStrategy<Format> {
    let args = prop_oneof![
        5 => value_expr(),
        2 => hole().prop_map(E::Str),
        1 => (piece_text(), hole(), piece_text()).prop_map(|(a, b, c)| E::Str(format!("{}{}{}", a, b, c))),
    ];
    (vec(prop_oneof![piece_text(), hole()], 0..9), vec(args, 12), prop_oneof![8 => Just(0i8), 1 => -1i8..2], 0u8..3)
        .prop_map(|(pieces, args, off, name)| Format { pieces, args, off, name })
        .boxed()
}

fn format_call(c: &Format) -> (E, usize) {
    let s: String = c.pieces.concat();
    let holes = placeholders(&s).iter().filter(|p| matches!(p, Piece::Hole(_))).count();
    let n = (holes as i64 + c.off as i64).clamp(0, 12) as usize;
    let mut args = vec![E::Str(s)];
    args.extend(c.args[..n].iter().cloned());
    let name = ["format", "print", "println"][c.name as usize % 3];
    (E::Call(name.into(), args), holes)
}

pub fn l05() -> Property {
    let format = Part::new(
        "format",
        "format strings of text, near-placeholders and placeholders with arguments of every type, some containing placeholders, and wrong counts; non-trivial: at least one placeholder",
        (30_000, 1_500_000),
        |_| format_case().prop_map(|mut c| { c.name = 0; c }).boxed(),
        |c: &Format, obs| {
            let (call, holes) = format_call(c);
            obs.nontrivial_if(holes > 0);
            obs.label(format!("{} placeholders", holes.min(4)));
            differential(&[call], &[], &[], obs)
        },
    );
    let natives = Part::new(
        "natives",
        "every function with 0 to 4 arguments of every type, including unknown functions; the original array unchanged; non-trivial: at least one argument",
        (24_000, 1_000_000),
        |_| {
            let big = prop_oneof![8 => value_expr(), 2 => any_text(300).prop_map(E::Str), 1 => vec(edge_int().prop_map(E::Int), 0..200).prop_map(E::Arr),
                 1 => vec(((0u32..500).prop_map(|i| E::Str(format!("k{}", i))), Just(E::Int(1))), 0..200).prop_map(E::Map),
                 4 => proptest::sample::select(vec!["a", "m", "s", "i"]).prop_map(|n| E::Var(n.into()))];
            (proptest::sample::select(vec!["length", "length", "append", "append", "append", "format", "nothing", "Length"]), vec(big, 0..5))
                .prop_map(|(n, args)| Program { statements: vec![E::Call(n.into(), args)], layout: vec![] })
                .boxed()
        },
        |c: &Program, obs| {
            if let E::Call(n, args) = &c.statements[0] {
                obs.label(format!("{}/{}", n, args.len()));
                obs.nontrivial_if(!args.is_empty());
            }
            differential(&c.statements, &c.layout, &prelude(), obs)
        },
    );
    let containers = Part::new(
        "containers",
        "arguments with several map keys: the text put in is the value's own display text; non-trivial: all",
        (4_000, 100_000),
        |_| {
            (piece_text(), piece_text(), vec((key(), value_expr()), 1..6), any::<bool>())
                .prop_filter("no placeholder", |(a, b, _, _)| {
                    let s = format!("{}{{v}}{}", a, b);
                    placeholders(&s).iter().filter(|p| matches!(p, Piece::Hole(_))).count() == 1
                })
                .boxed()
        },
        |(a, b, pairs, arr): &(String, String, Vec<(String, E)>, bool), obs| {
            obs.nontrivial();
            let map = E::Map(pairs.iter().map(|(k, v)| (E::Str(k.clone()), v.clone())).collect());
            let value = if *arr { E::Arr(vec![map]) } else { map };
            let mut context = Context::new();
            run::run_in(&mut context, &plain(&E::Let("m".into(), bx(value))));
            let Some(v) = context.get("m") else {
                obs.label("operand is an error");
                return Ok(());
            };
            let text = v.to_string();
            let expected = V::Str(format!("{}{}{}", a, text, b));
            let program = plain(&E::Call("format".into(), vec![E::Str(format!("{}{{v}}{}", a, b)), E::Var("m".into())]));
            match run::run_in(&mut context, &program) {
                Ran::Evaluated(Ok(got)) if same(&got, &expected) => Ok(()),
                Ran::Evaluated(got) => Err(format!("{:?}, expected {:?}", got, expected)),
                Ran::Refused(e) => Err(e),
            }
        },
    );
    let print = Part::new(
        "print",
        "print, println and format calls run by the built command: stdout is exactly the formatted texts, then the value of the program; non-trivial: something is printed",
        (1500, 30_000),
        |_| vec(format_case(), 1..6).boxed(),
        |c: &Vec<Format>, obs| {
            let statements: Vec<E> = c.iter().map(|f| format_call(f).0).collect();
            let text = program_text(&statements, &[]);
            if text.contains('\0') {
                return Ok(());
            }
            let mut machine = Machine::default();
            let expected = machine.block(&statements);
            if machine.unpredictable {
                return Ok(());
            }
            obs.sample(text.clone());
            obs.nontrivial_if(!machine.out.is_empty());
            let out = cli::run(&["eval", "--", &text], b"", &[]);
            cli::sane(&out)?;
            let got = String::from_utf8_lossy(&out.stdout).to_string();
            match expected {
                Ok(v) => {
                    let Some(t) = v.text() else { return Ok(()) };
                    let want = format!("{}{}\n", machine.out, t);
                    ensure!(got == want, "stdout {:?}, expected {:?}\nprogram: {}", got, want, text);
                }
                Err(()) => {
                    obs.label("error");
                    let rest = got.strip_prefix(machine.out.as_str());
                    ensure!(
                        rest.is_some_and(|r| r.trim().len() > 2),
                        "stdout {:?}, expected {:?} and an error message\nprogram: {}",
                        got,
                        machine.out,
                        text
                    );
                }
            }
            Ok(())
        },
    )
    .shrink(300);
    let many = Part::new(
        "many",
        "format strings with up to 700 placeholders (thorough 70 000), also with names of up to 300 characters, with the right number of arguments or 1, 2, 255, 256, 257 or 512 more or less; non-trivial: more than 50 placeholders",
        (900, 9_000),
        |t| {
            let most = if t == Tier::Quick { 700u32 } else { 70_000 };
            (prop_oneof![4 => 0u32..120, 4 => 120u32..700, 1 => 700..most + 1], 1u32..6, prop_oneof![3 => 1u32..10, 1 => 10u32..300], proptest::sample::select(vec![0i32, 0, 0, 0, 1, -1, 2, -2, 255, -255, 256, -256, 257, 512, -512, 65536]), any::<bool>())
                .prop_map(|(holes, names, long, off, append)| Many { holes, names, long, off: if append { off.max(0) } else { off }, append })
                .boxed()
        },
        |c: &Many, obs| {
            obs.nontrivial_if(c.holes > 50);
            obs.label(if c.off == 0 { "right number" } else { "wrong number" });
            obs.sample(format!("{:?}", c));
            let n = (c.holes as i64 + c.off as i64).max(0) as usize;
            let args: Vec<String> = (0..n).map(|i| if i % 7 == 3 { format!("\"s{}\"", i) } else { i.to_string() }).collect();
            if c.append {
                // as many elements as there are arguments
                let got = run::run(&format!("append([], {})", args.join(", ")));
                let expected = V::Arr((0..n).map(|i| if i % 7 == 3 { V::Str(format!("s{}", i)) } else { V::Int(i as i64) }).collect());
                return match got {
                    Ran::Evaluated(Ok(v)) if same(&v, &expected) => Ok(()),
                    // without any there is nothing to append
                    Ran::Evaluated(_) if n == 0 => Ok(()),
                    Ran::Refused(_) if n == 0 => Ok(()),
                    Ran::Evaluated(r) => Err(format!("append of {} elements gives {}", n, clip(&format!("{:?}", r), 300))),
                    Ran::Refused(e) => Err(format!("append of {} elements: {}", n, clip(&e, 300))),
                };
            }
            let name = |i: u32| format!("{}{}", (b'a' + (i % c.names) as u8) as char, "_".repeat(c.long as usize - 1));
            let text: String = (0..c.holes).map(|i| format!("<{{{}}}", name(i))).collect();
            let mut call = format!("format(\"{}\"", text);
            for a in &args {
                call.push_str(", ");
                call.push_str(a);
            }
            call.push(')');
            let expected: String = args.iter().map(|a| format!("<{}", a.trim_matches('"'))).collect();
            match run::run(&call) {
                Ran::Evaluated(Ok(v)) => ensure!(n == c.holes as usize && same(&v, &V::Str(expected.clone())), "{} placeholders, {} arguments: {}", c.holes, n, clip(&format!("{:?}", v), 300)),
                Ran::Evaluated(Err(e)) => ensure!(n != c.holes as usize, "{} placeholders, {} arguments: {}", c.holes, n, clip(&e, 300)),
                Ran::Refused(e) => return Err(format!("{} placeholders, {} arguments: {}", c.holes, n, clip(&e, 300))),
            }
            Ok(())
        },
    )
    .shrink(200);
    let _ = lang::truthy;
    Property {
        id: "L05",
        parts: vec![format.boxed(), many.boxed(), natives.boxed(), containers.boxed(), print.boxed()],
        known: vec![],
        assumptions: vec!["the text of an array or map is the value's own display text"],
    }
}
