//! T07 to T09: what a suite consists of, the interactive session, the command line.

use super::run_props::report;
use crate::cli;
use crate::ensure;
use crate::fw::{clip, verif_dir, Obs, Outcome, Part, Property, Scratch};
use crate::gen::{self, any_text, union, Gen, Ty, TYPES};
use crate::lang::{program_text, Machine, E};
use crate::model::V;
use crate::net::{reply_with, Answer, Farm};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- T07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    /// prints something
    Mark,
    /// binds a variable anew
    Set(u8),
    /// binds a variable to what another one has
    Take(u8, u8),
    Show(u8),
    /// defines a request
    Request(u8),
    /// defines a test that shows a variable and calls a request
    Test(u8, u8, u8),
    /// calls a request
    Call(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileOf {
    name: String,
    items: Vec<Item>,
    /// how statements are separated and how the file ends
    style: u8,
    /// kilobytes of blanks and long strings in it
    pad: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Node {
    File(FileOf),
    /// a file that is not part of the suite
    Other(String, u8),
    Dir(String, Vec<Node>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum At {
    /// the current directory, by default
    Here,
    Dot,
    Absolute,
    Relative,
    /// with a slash at the end
    Slash,
    /// through a directory and back
    Back,
    /// one of its files, absolute or relative
    File(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    nodes: Vec<Node>,
    at: At,
    /// the test asked for, with threads and number
    ask: Option<(u8, u32, u32)>,
    /// which file cannot be read as a program, and why
    spoilt: Option<(u8, u8)>,
}

fn fan_name() -> BoxedStrategy<String> {
    let fixed = vec!["a", "b", "a0", "a-b", "a.b", "a b", "ab", "A", "B", "Z", "_", "1", "2", "10", "01", "é", "z", "中", ".h", "a.txt", "-x", "~", "a+", "test", "README", "fan", "a.fan", "+", "!"];
    prop_oneof![4 => select(fixed).prop_map(|s| format!("{}.fan", s)), 1 => "[a-cA-C0-2._ -]{1,4}".prop_map(|s| format!("{}q.fan", s))].boxed()
}

fn dir_name() -> BoxedStrategy<String> {
    let fixed = vec!["a", "b", "a0", "a-b", "A", "Z", "1", "10", "2", "d", "d.fan", "a.fan", "b.txt", ".hidden", "target", "node_modules", "tests", "z", "é", "_", "a b"];
    select(fixed).prop_map(String::from).boxed()
}

fn other_name() -> BoxedStrategy<String> {
    select(vec!["x.txt", "a.fan.bak", "a.fanx", "a.FAN", "a.Fan", "fan", "a.fan~", "xfan", "x.fa", "x.tfan", "a.fan.", "a.fan ", "README.md", "a.fan.txt", "a.f an", "x.json", "a.fan.swp", "Makefile"])
        .prop_map(String::from)
        .boxed()
}

fn item() -> BoxedStrategy<Item> {
    prop_oneof![
        3 => Just(Item::Mark),
        2 => (0u8..4).prop_map(Item::Set),
        3 => (0u8..4, 0u8..4).prop_map(|(a, b)| Item::Take(a, b)),
        3 => (0u8..4).prop_map(Item::Show),
        2 => (0u8..4).prop_map(Item::Request),
        2 => (0u8..4, 0u8..4, 0u8..4).prop_map(|(t, v, r)| Item::Test(t, v, r)),
        1 => (0u8..4).prop_map(Item::Call),
    ]
    .boxed()
}

fn file_of() -> BoxedStrategy<FileOf> {
    let pad = prop_oneof![30 => Just(0u16), 1 => 1u16..20, 1 => 60u16..200];
    (fan_name(), prop_oneof![1 => Just(0usize), 8 => 1usize..7].prop_flat_map(|n| vec(item(), n)), any::<u8>(), pad).prop_map(|(name, items, style, pad)| FileOf { name, items, style, pad }).boxed()
}

fn nodes(depth: usize) -> BoxedStrategy<Vec<Node>> {
    let file = file_of().prop_map(Node::File).boxed();
    let other = (other_name(), any::<u8>()).prop_map(|(n, k)| Node::Other(n, k)).boxed();
    let mut items = vec![(8, file), (2, other)];
    if depth > 0 {
        items.push((6, (dir_name(), nodes(depth - 1)).prop_map(|(n, c)| Node::Dir(n, c)).boxed()));
    }
    vec(union(items), 1..7).boxed()
}

fn tree() -> BoxedStrategy<Tree> {
    let chain = (4usize..40, nodes(1)).prop_map(|(n, inner)| (0..n).fold(inner, |c, i| vec![Node::Dir(format!("n{}", i), c)]));
    let wide = (vec(file_of(), 30..150)).prop_map(|files| {
        files
            .into_iter()
            .enumerate()
            .map(|(i, mut f)| {
                f.name = format!("{}{}", i, f.name);
                Node::File(f)
            })
            .collect::<Vec<Node>>()
    });
    let shape = prop_oneof![20 => nodes(3).boxed(), 1 => chain.boxed(), 1 => wide.boxed()];
    let at = prop_oneof![3 => Just(At::Here), 1 => Just(At::Dot), 2 => Just(At::Absolute), 2 => Just(At::Relative), 1 => Just(At::Slash), 1 => Just(At::Back), 2 => (any::<u8>(), any::<bool>()).prop_map(|(i, a)| At::File(i, a))];
    let ask = prop_oneof![1 => Just(None), 2 => (0u8..4, 1u32..4, 1u32..5).prop_map(Some)];
    (shape, at, ask, prop::option::weighted(0.1, any::<(u8, u8)>())).prop_map(|(nodes, at, ask, spoilt)| Tree { nodes, at, ask, spoilt }).boxed()
}

/// Writes the tree; the suite's files with their paths, in no order.
fn plant<'a>(dir: &Path, nodes: &'a [Node], out: &mut Vec<(PathBuf, &'a FileOf)>) {
    for n in nodes {
        let name = match n {
            Node::File(f) => &f.name,
            Node::Other(n, _) | Node::Dir(n, _) => n,
        };
        let path = dir.join(name);
        if path.symlink_metadata().is_ok() {
            continue;
        }
        match n {
            Node::File(f) => {
                std::fs::write(&path, b"").expect("suite");
                out.push((path, f));
            }
            Node::Other(_, kind) => {
                let poison: &[u8] = match kind % 5 {
                    0 => b"println(\"poison\")",
                    1 => b"request r0 `GET http://127.0.0.1:1/poison`\nrequest r1 `GET http://127.0.0.1:1/poison`\ntest t0 { println(\"poison\") }\n",
                    2 => b"((((",
                    3 => b"\xff\xfe\x00",
                    _ => b"let v0 = \"poison\"\nlet v1 = 1 / 0\n",
                };
                std::fs::write(&path, poison).expect("suite");
            }
            Node::Dir(_, children) => {
                std::fs::create_dir(&path).expect("suite");
                plant(&path, children, out);
            }
        }
    }
}

#[derive(Default)]
struct Suite {
    vars: BTreeMap<String, String>,
    requests: BTreeMap<u8, usize>,
    /// definition, variable shown and request called
    tests: BTreeMap<u8, (usize, Option<String>, Option<u8>)>,
    lines: Vec<String>,
    calls: Vec<u8>,
    next: usize,
}

/// The text of the suite's files in their order, and what the suite does.
fn compose(files: &[(PathBuf, &FileOf)], at: &str) -> (Vec<String>, Suite) {
    let mut m = Suite::default();
    // which requests there are at all: those may be called, also before their definition
    let mut known: BTreeSet<u8> = BTreeSet::new();
    for (_, f) in files {
        known.extend(f.items.iter().filter_map(|i| match i {
            Item::Request(r) => Some(r % 4),
            _ => None,
        }));
    }
    let known: Vec<u8> = known.into_iter().collect();
    let callable = |r: u8| (!known.is_empty()).then(|| known[r as usize % known.len()]);
    // variables that are bound when the tests run
    let mut finally: BTreeSet<u8> = BTreeSet::new();
    for (_, f) in files {
        finally.extend(f.items.iter().filter_map(|i| match i {
            Item::Set(v) | Item::Take(v, _) => Some(v % 4),
            _ => None,
        }));
    }
    let mut texts = Vec::new();
    for (_, f) in files {
        let mut parts: Vec<String> = Vec::new();
        for i in &f.items {
            m.next += 1;
            let n = m.next;
            let set = |m: &mut Suite, v: u8| {
                m.vars.insert(format!("v{}", v % 4), format!("s{}", n));
                format!("let v{} = \"s{}\"", v % 4, n)
            };
            parts.push(match i {
                Item::Mark => {
                    m.lines.push(format!("mark {}", n));
                    format!("println(\"mark {}\")", n)
                }
                Item::Set(v) => set(&mut m, *v),
                Item::Take(v, w) => match m.vars.get(&format!("v{}", w % 4)).cloned() {
                    Some(was) => {
                        m.vars.insert(format!("v{}", v % 4), format!("{}.{}", was, n));
                        format!("let v{} = v{} + \".{}\"", v % 4, w % 4, n)
                    }
                    None => set(&mut m, *v),
                },
                Item::Show(v) => match m.vars.get(&format!("v{}", v % 4)).cloned() {
                    Some(was) => {
                        m.lines.push(format!("show {} {}", n, was));
                        format!("println(\"show {} {{v{}}}\", v{})", n, v % 4, v % 4)
                    }
                    None => set(&mut m, *v),
                },
                Item::Request(r) => {
                    m.requests.insert(r % 4, n);
                    format!("request r{} `GET http://{}/r{}/{}`[status == 200]", r % 4, at, r % 4, n)
                }
                Item::Test(t, v, r) => {
                    let shown = finally.contains(&(v % 4)).then(|| format!("v{}", v % 4));
                    let called = callable(*r);
                    let mut body = vec![match &shown {
                        Some(v) => format!("println(\"test {} {} {{{}}}\", {})", t % 4, n, v, v),
                        None => format!("println(\"test {} {} none\")", t % 4, n),
                    }];
                    if let Some(r) = called {
                        body.push(format!("r{}()", r));
                    }
                    m.tests.insert(t % 4, (n, shown, called));
                    format!("test t{} {{ {} }}", t % 4, body.join("; "))
                }
                Item::Call(r) => match callable(*r) {
                    Some(r) => {
                        m.calls.push(r);
                        format!("r{}()", r)
                    }
                    None => {
                        m.lines.push(format!("mark {}", n));
                        format!("println(\"mark {}\")", n)
                    }
                },
            });
            if f.pad > 0 {
                m.next += 1;
                let long = "y".repeat(f.pad as usize * 1024 / f.items.len().max(1));
                m.lines.push(format!("{} {}", m.next, long));
                parts.push(format!("println(\"{} {}\")", m.next, long));
            }
        }
        let between = ["\n", ";\n", "; ", "\r\n", "\n\n\t"][f.style as usize % 5];
        let mut text = parts.join(between);
        match (f.style / 5) % 6 {
            0 => {}
            1 => text.push('\n'),
            2 => text.push_str("\r\n\r\n"),
            3 => text = format!("\n  {}", text),
            4 => text.push_str("  "),
            _ => {
                if !parts.is_empty() {
                    text.push_str(";\n")
                }
            }
        }
        texts.push(text);
    }
    (texts, m)
}

fn check_tree(c: &Tree, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t07");
    let root = dir.0.join("root");
    std::fs::create_dir_all(root.join("a-way")).expect("scratch");
    let suite = root.join("suite");
    std::fs::create_dir(&suite).expect("scratch");
    // not below the path
    std::fs::write(root.join("before.fan"), "println(\"poison\")\nlet v0 = \"poison\"").expect("scratch");
    std::fs::write(root.join("suite.fan"), "((((").expect("scratch");
    let mut all = Vec::new();
    plant(&suite, &c.nodes, &mut all);
    let mut all: Vec<(Vec<Vec<u8>>, PathBuf, &FileOf)> = all
        .into_iter()
        .map(|(p, f)| {
            use std::os::unix::ffi::OsStrExt;
            let key = p.strip_prefix(&suite).unwrap().components().map(|c| c.as_os_str().as_bytes().to_vec()).collect();
            (key, p, f)
        })
        .collect();
    all.sort_by(|a, b| a.0.cmp(&b.0));
    let mut part: Vec<(PathBuf, &FileOf)> = all.into_iter().map(|(_, p, f)| (p, f)).collect();
    let farm = Farm::start(|target, _| (Answer::Reply(0, reply_with("{}")), target.to_string()));
    let at = farm.addr.to_string();
    let mut args: Vec<String> = vec!["test".into()];
    let mut cwd = suite.clone();
    match &c.at {
        At::Here => {}
        At::Dot => args.extend(["-p".into(), ".".into()]),
        At::Absolute => {
            cwd = root.join("a-way");
            args.extend(["--path".into(), suite.to_string_lossy().into_owned()]);
        }
        At::Relative => {
            cwd = root.clone();
            args.extend(["-p".into(), "suite".into()]);
        }
        At::Slash => {
            cwd = root.clone();
            args.extend(["-p".into(), "suite/".into()]);
        }
        At::Back => {
            cwd = root.join("a-way");
            args.extend(["-p".into(), "../suite/.".into()]);
        }
        At::File(i, absolute) => {
            if !part.is_empty() {
                // the others must have no part in it
                let (_, m) = compose(&part, &at);
                drop(m);
                let chosen = part.swap_remove(*i as usize % part.len());
                for (p, _) in &part {
                    std::fs::write(p, "println(\"poison\")\n((((").expect("suite");
                }
                let p = chosen.0.clone();
                args.push("-p".into());
                args.push(if *absolute { p.to_string_lossy().into_owned() } else { format!("./{}", p.strip_prefix(&suite).unwrap().to_string_lossy()) });
                part = vec![chosen];
                obs.label("a file");
            }
        }
    }
    let (texts, m) = compose(&part, &at);
    for ((p, _), t) in part.iter().zip(&texts) {
        std::fs::write(p, t).expect("suite");
    }
    let spoilt = c.spoilt.filter(|_| !part.is_empty());
    if let Some((i, how)) = spoilt {
        let i = i as usize % part.len();
        let mut bytes = texts[i].clone().into_bytes();
        match how % 4 {
            0 => bytes.extend_from_slice(b"\n((((\n"),
            1 => bytes.splice(0..0, *b"((((\n").for_each(drop),
            2 => bytes.extend_from_slice(b"\nprintln(\"\xe9\")\n"),
            _ => bytes.splice(0..0, *b"println(\"\xff\")\n").for_each(drop),
        }
        std::fs::write(&part[i].0, bytes).expect("suite");
    }
    let named = c.ask.filter(|_| !m.tests.is_empty()).map(|(t, threads, number)| {
        let k = *m.tests.keys().nth(t as usize % m.tests.len()).unwrap();
        (k, threads, number)
    });
    if let Some((t, threads, number)) = named {
        args.extend([format!("t{}", t), "-t".into(), threads.to_string(), "-n".into(), number.to_string()]);
    }
    let arg: Vec<&str> = args.iter().map(String::as_str).collect();
    let out = cli::run_in(&arg, b"", &[], Some(&cwd));
    cli::sane(&out)?;
    let shown: Vec<String> = part.iter().zip(&texts).map(|((p, _), t)| format!("{}: {:?}", p.strip_prefix(&root).unwrap().display(), clip(t, 300))).collect();
    let about = || format!("{:?} with files {}", args, clip(&shown.join(" | "), 2500));
    obs.sample(clip(&about(), 900));
    let dirs: BTreeSet<&Path> = part.iter().filter_map(|(p, _)| p.parent()).collect();
    obs.nontrivial_if(part.len() > 1 && dirs.len() > 1);
    obs.label(if part.len() > 20 { "more than 20 files" } else { "files" });
    if let Some((i, how)) = spoilt {
        let why = if how % 4 < 2 { "malformed" } else { "not UTF-8" };
        obs.label(why);
        let name = part[i as usize % part.len()].0.strip_prefix(&root).unwrap().display().to_string();
        let said = out.text();
        let begins = |l: &str| ["mark ", "show ", "test ", "=== TEST"].iter().any(|p| l.starts_with(p));
        let ran = said.lines().any(|l| begins(l) && !l.contains('{'));
        ensure!(!ran && farm.hits().is_empty(), "a part of the suite was run although {} is {}: {:?}, {} requests; {}", name, why, clip(&said, 300), farm.hits().len(), about());
        ensure!(!(said.trim().is_empty() && out.err_text().trim().is_empty()), "nothing is said of {}, which is {}; {}", name, why, about());
        return Ok(());
    }
    ensure!(out.code == Some(0), "exit code {:?}, stderr {:?}: {}", out.code, clip(&out.err_text(), 400), about());
    let r = report(&out.text()).map_err(|e| format!("{}: {}", e, about()))?;
    // the tests' lines
    let times = |t: u8| match named {
        None => 1,
        Some((k, _, n)) if k == t => n as usize,
        _ => 0,
    };
    let mut of_tests: Vec<String> = Vec::new();
    let mut calls: Vec<String> = Vec::new();
    for (t, (n, shown, called)) in &m.tests {
        for _ in 0..times(*t) {
            of_tests.push(format!("test {} {} {}", t, n, shown.as_ref().map_or("none", |v| m.vars.get(v).expect("bound"))));
            if let Some(r) = called {
                calls.push(format!("/r{}/{}", r, m.requests[r]));
            }
        }
    }
    of_tests.sort();
    calls.sort();
    let split = m.lines.len().min(r.rest.len());
    let (first, then) = r.rest.split_at(split);
    ensure!(
        first == m.lines,
        "top level printed {}, expected {}: {}",
        clip(&format!("{:?}", first), 1200),
        clip(&format!("{:?}", m.lines), 1200),
        about()
    );
    let mut then = then.to_vec();
    then.sort();
    ensure!(then == of_tests, "tests printed {}, expected {}: {}", clip(&format!("{:?}", then), 1200), clip(&format!("{:?}", of_tests), 1200), about());
    let hits: Vec<String> = farm.hits().iter().map(|h| h.target.clone()).collect();
    let top: Vec<String> = m.calls.iter().map(|r| format!("/r{}/{}", r, m.requests[r])).collect();
    let (early, late) = hits.split_at(top.len().min(hits.len()));
    ensure!(early == top, "top level requested {:?}, expected {:?}: {}", early, top, about());
    let mut late = late.to_vec();
    late.sort();
    ensure!(late == calls, "tests requested {:?}, expected {:?}: {}", late, calls, about());
    Ok(())
}

pub fn t07() -> Property {
    let part = Part::new(
        "trees",
        "random directory trees (names that sort unlike the rest, directories named x.fan, hidden ones, depth to 40, up to 150 files, files to 200 kB, files that are not part of the suite and would break it; in a tenth of the cases one file that is malformed or not UTF-8, which refuses the suite) given as default, relative, absolute or file path; the printed lines and the requests received against a model of the files in order; non-trivial: two files in two directories",
        (4000, 150_000),
        |_| tree(),
        check_tree,
    )
    .shrink(400);
    Property {
        id: "T07",
        parts: vec![part.boxed()],
        known: vec![],
        assumptions: vec!["regular files and directories; no symbolic links", "no file whose whole name is .fan"],
    }
}

// ---------------------------------------------------------------- T08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Line {
    Program(Vec<E>, Vec<u8>),
    /// prints and then a program
    Print(String, bool, E),
    Blank(u8),
    /// a program made malformed
    Bad(Vec<E>, u8),
    /// defines a request, then makes it
    Define(u8, bool),
    /// makes a request and keeps what the server said
    Call(u8, Ty8),
    Test,
    /// bytes that are no text
    Bytes(Vec<u8>),
    /// a literal of so many thousand characters
    Long(u8, u16),
    /// fails half way
    Half(u8, u8),
    /// a name that nothing has
    Word(u8),
}

/// which variable keeps the answer
type Ty8 = u8;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    lines: Vec<Line>,
    /// lines after this one are not evaluated
    exit: Option<u8>,
    crlf: bool,
    /// without a line end at the end
    open: bool,
    /// sizes of the pieces of input
    chunks: Vec<u16>,
}

/// The same expression with strings that stay on a line.
fn one_line(e: &E) -> E {
    let b = |e: &E| Box::new(one_line(e));
    let all = |v: &[E]| v.iter().map(one_line).collect::<Vec<E>>();
    match e {
        E::Str(s) => E::Str(s.replace(['\n', '\r'], "~")),
        E::Arr(v) => E::Arr(all(v)),
        E::Map(p) => E::Map(p.iter().map(|(k, v)| (one_line(k), one_line(v))).collect()),
        E::Index(x, y) => E::Index(b(x), b(y)),
        E::Field(x, n) => E::Field(b(x), n.clone()),
        E::Let(n, v) => E::Let(n.clone(), b(v)),
        E::Neg(x) => E::Neg(b(x)),
        E::Not(x) => E::Not(b(x)),
        E::Bin(o, x, y) => E::Bin(*o, b(x), b(y)),
        E::If(c, x, y) => E::If(b(c), all(x), all(y)),
        E::Call(n, v) => E::Call(n.clone(), all(v)),
        other => other.clone(),
    }
}

fn flat(text: String) -> String {
    text.replace("\r\n", " ").replace(['\n', '\r'], " ")
}

const WORDS: [&str; 12] = ["quit", "q", "help", "EXIT", "Exit", "clear", "_", "exit_", "stop", "end", "exit2", "reset"];

const BAD: [&str; 34] = [
    "(", ")", "1 +", "let", "let = 1", "let x 1", "\"open", "request", "request r", "request r0 `GET http://127.0.0.1:1/`[", "test t {", "test", "[1, 2", "{", "1 ]", "if (", "if (true) {", "x.", "f(", "1 2)", "else", "`", "{\"a\": }", "* 3", "[1,", "length(1,", "{\"a\": 1,", "let x =", "true &&", "1 \\", "\\", "{\"a\":", "if (true) { 1 } else", "request r9 `GET http://127.0.0.1:1/`[status ==",
];

fn is_refused(text: &str) -> bool {
    lib::Parser::new(text).parse().is_err()
}

/// A malformed line made of a program: something before or after it that no program may have there.
fn spoiled(statements: &[E], how: u8) -> String {
    let text = flat(program_text(statements, &[]));
    let bad = BAD[how as usize % BAD.len()];
    let candidate = match (how as usize / BAD.len()) % 4 {
        0 => bad.to_string(),
        1 => format!("{}; {}", text, bad),
        2 => format!("let i = 77; {} )", text),
        _ => format!("request r0 `GET http://127.0.0.1:1/spoiled` let s = \"spoiled\"; {}", bad),
    };
    if is_refused(&candidate) && candidate.trim() != "exit" {
        candidate
    } else {
        "let s = \"spoiled\"; )".to_string()
    }
}

enum Want {
    /// exactly this text
    Exact(String),
    /// these characters in any order, up to the end of the line
    Loose(String),
    /// an error message after this text; a marker line follows
    Error(String),
    /// anything at all; a marker line follows
    Any,
}

struct Played {
    input: Vec<(Vec<u8>, Want)>,
    /// what the server is to receive
    calls: Vec<String>,
    failed: usize,
    good_after: bool,
    requests: usize,
}

/// The lines as typed, with what each is to print.
fn play(c: &Session, at: &str) -> Played {
    let mut m = Machine::default();
    let mut defined: BTreeMap<u8, usize> = BTreeMap::new();
    let mut p = Played {
        input: Vec::new(),
        calls: Vec::new(),
        failed: 0,
        good_after: false,
        requests: 0,
    };
    for (n, l) in c.lines.iter().enumerate() {
        let evaluate = |m: &mut Machine, statements: &[E], text: String| -> (Vec<u8>, Want) {
            m.out.clear();
            let r = m.block(statements);
            let out = std::mem::take(&mut m.out);
            let want = match r {
                Ok(v) => match v.text() {
                    Some(t) => Want::Exact(format!("{}{}\n", out, t)),
                    None => Want::Loose(format!("{}{}", out, loose(&v))),
                },
                Err(()) => Want::Error(out),
            };
            (text.into_bytes(), want)
        };
        let mut done = match l {
            Line::Program(s, layout) => {
                let s: Vec<E> = s.iter().map(one_line).collect();
                let text = flat(program_text(&s, layout));
                evaluate(&mut m, &s, text)
            }
            Line::Print(t, newline, e) => {
                let call = E::Call(if *newline { "println" } else { "print" }.into(), vec![E::Str("{v}".into()), E::Str(t.replace(['\n', '\r'], "~"))]);
                let s = vec![call, one_line(e)];
                let text = flat(program_text(&s, &[]));
                evaluate(&mut m, &s, text)
            }
            Line::Blank(k) => (["", " ", "\t", "    ", " \t "][*k as usize % 5].as_bytes().to_vec(), Want::Exact(String::new())),
            Line::Bad(s, how) => {
                let s: Vec<E> = s.iter().map(one_line).collect();
                (spoiled(&s, *how).into_bytes(), Want::Error(String::new()))
            }
            Line::Define(r, call) => {
                let r = r % 3;
                defined.insert(r, n);
                let mut text = format!("request r{} `GET http://{}/r{}/{}`", r, at, r, n);
                if *call {
                    p.requests += 1;
                    p.calls.push(format!("/r{}/{}", r, n));
                    text.push_str(&format!(" r{}().status", r));
                    (text.into_bytes(), Want::Exact("200\n".into()))
                } else {
                    (text.into_bytes(), Want::Exact("null\n".into()))
                }
            }
            Line::Call(r, v) => {
                let r = r % 3;
                let var = ["s", "t"][*v as usize % 2];
                match defined.get(&r) {
                    Some(d) => {
                        p.requests += 1;
                        p.calls.push(format!("/r{}/{}", r, d));
                        let said = format!("said r{} {}", r, d);
                        m.vars.insert(var.into(), V::Str(said.clone()));
                        (format!("let {} = r{}().json.said", var, r).into_bytes(), Want::Exact(format!("{}\n", said)))
                    }
                    None => (format!("let {} = r{}().json.said", var, r).into_bytes(), Want::Error(String::new())),
                }
            }
            Line::Test => (b"test t { println(\"not asked for\"); let s = \"not asked for\" }".to_vec(), Want::Exact("null\n".into())),
            Line::Bytes(b) => {
                let mut b: Vec<u8> = b.iter().map(|b| if *b == b'\n' || *b == b'\r' { 0x80 } else { *b }).collect();
                b.push(0xff);
                (b, Want::Any)
            }
            Line::Long(c, k) => {
                let t: String = ((b'a' + c % 26) as char).to_string().repeat(*k as usize * 1000);
                m.vars.insert("t".into(), V::Str(t.clone()));
                (format!("let t = \"{}\"", t).into_bytes(), Want::Exact(format!("{}\n", t)))
            }
            Line::Word(w) => {
                let w = WORDS[*w as usize % WORDS.len()];
                let want = if m.vars.contains_key(w) { Want::Any } else { Want::Error(String::new()) };
                (w.as_bytes().to_vec(), want)
            }
            Line::Half(v, how) => {
                let names = ["i", "s", "a"];
                let name = names[*v as usize % 3];
                m.vars.insert(name.into(), V::Str(format!("half {}", n)));
                let fail = ["1 / 0", "nowhere_bound", "no_function()", "[1] - 1", "9223372036854775807 + 1"][*how as usize % 5];
                (format!("let {} = \"half {}\"; {}; let {} = \"late\"", name, n, fail, name).into_bytes(), Want::Error(String::new()))
            }
        };
        // a line must not be the one that ends the session, nor one that is blank by accident
        if m.unpredictable {
            break;
        }
        match std::str::from_utf8(&done.0) {
            Ok(t) if t == "exit" || (t.trim().is_empty() && !matches!(l, Line::Blank(_))) => done = (b"0".to_vec(), Want::Exact("0\n".into())),
            _ => {}
        }
        let uncertain = !matches!(done.1, Want::Exact(_));
        if matches!(done.1, Want::Error(_) | Want::Any) {
            p.failed += 1;
        } else if p.failed > 0 && !matches!(l, Line::Blank(_)) {
            p.good_after = true;
        }
        p.input.push(done);
        if uncertain {
            let mark = mark(n);
            p.input.push((format!("\"{}\"", mark).into_bytes(), Want::Exact(format!("{}\n", mark))));
        }
    }
    p
}

fn mark(n: usize) -> String {
    format!("-#-{}-#-", n)
}

fn sorted(s: &str) -> Vec<char> {
    let mut c: Vec<char> = s.chars().collect();
    c.sort();
    c
}

/// The characters of a value's text, when the order of a map's keys is open.
fn loose(v: &V) -> String {
    fn inner(v: &V, nested: bool) -> String {
        match v {
            V::Map(m) => {
                let parts: Vec<String> = m.iter().map(|(k, v)| format!("{:?}: {}", k, inner(v, true))).collect();
                let t = format!("{{{}}}", parts.join(", "));
                if nested {
                    format!("Map({})", t)
                } else {
                    t
                }
            }
            V::Arr(a) => {
                let parts: Vec<String> = a.iter().map(|v| inner(v, true)).collect();
                let t = format!("[{}]", parts.join(", "));
                if nested {
                    format!("Array({})", t)
                } else {
                    t
                }
            }
            V::Null => "Null".into(),
            V::Int(i) => format!("Integer({})", i),
            V::Float(f) => format!("Float({:?})", f),
            V::Bool(b) => format!("Boolean({})", b),
            V::Str(s) => format!("String({:?})", s),
        }
    }
    inner(v, false)
}

fn talk(out: &str, input: &[(Vec<u8>, Want)]) -> Outcome {
    let mut rest = out;
    let mut k = 0;
    while k < input.len() {
        let (line, want) = &input[k];
        let show = || clip(&String::from_utf8_lossy(line), 600);
        match want {
            Want::Exact(t) => match rest.strip_prefix(t.as_str()) {
                Some(r) => rest = r,
                None => return Err(format!("line {} {:?} is answered {:?}, expected {:?}", k, show(), clip(rest, 300), clip(t, 300))),
            },
            _ => {
                let Want::Exact(mark) = &input[k + 1].1 else { unreachable!() };
                let end = if rest.starts_with(mark.as_str()) { Some(0) } else { rest.find(&format!("\n{}", mark)).map(|i| i + 1) };
                let Some(end) = end else {
                    return Err(format!("no answer to the line after line {} {:?}: {:?}", k, show(), clip(rest, 300)));
                };
                let answer = &rest[..end];
                match want {
                    Want::Error(before) => {
                        let Some(message) = answer.strip_prefix(before.as_str()) else {
                            return Err(format!("line {} {:?} is answered {:?}, expected to start with {:?}", k, show(), clip(answer, 300), clip(before, 300)));
                        };
                        ensure!(!message.trim().is_empty(), "line {} {:?} is given no error message", k, show());
                    }
                    Want::Loose(t) => ensure!(sorted(answer) == sorted(&format!("{}\n", t)), "line {} {:?} is answered {:?}, expected {:?}", k, show(), clip(answer, 300), clip(t, 300)),
                    _ => {}
                }
                rest = &rest[end..];
            }
        }
        k += 1;
    }
    ensure!(rest.is_empty(), "more output than answers: {:?}", clip(rest, 400));
    Ok(())
}

fn said() -> Farm {
    Farm::start(|target, _| {
        let parts: Vec<&str> = target.trim_start_matches('/').split('/').collect();
        (Answer::Reply(0, reply_with(&format!("{{\"said\": \"said {}\"}}", parts.join(" ")))), target.to_string())
    })
}

fn check_session(c: &Session, obs: &mut Obs) -> Outcome {
    let farm = said();
    let mut p = play(c, &farm.addr.to_string());
    let end: &[u8] = if c.crlf { b"\r\n" } else { b"\n" };
    let mut input = Vec::new();
    for (l, _) in &p.input {
        input.extend_from_slice(l);
        input.extend_from_slice(end);
    }
    if c.exit.is_some() {
        input.extend_from_slice(b"exit");
        input.extend_from_slice(end);
        input.extend_from_slice(b"println(\"after the end\")");
        input.extend_from_slice(end);
        obs.label("exit");
    } else {
        if c.open {
            let open = input.len().saturating_sub(end.len());
            // a last blank line, or nothing
            input.truncate(open);
            obs.label("no line end at the end");
        }
        obs.label("end of input");
    }
    let out = feed(&input, &c.chunks)?;
    cli::sane(&out)?;
    let about = || clip(&String::from_utf8_lossy(&input), 3000);
    obs.sample(clip(&about(), 700));
    obs.extra += p.input.len() as u64;
    obs.nontrivial_if(p.good_after);
    if p.requests > 0 {
        obs.label("with requests");
    }
    ensure!(out.code == Some(0), "exit code {:?}, stderr {:?} for {:?}", out.code, clip(&out.err_text(), 300), about());
    let all = out.text();
    talk(&all, &p.input).map_err(|e| format!("{} in the session {:?}", e, about()))?;
    let hits: Vec<String> = farm.hits().iter().map(|h| h.target.clone()).collect();
    let calls = std::mem::take(&mut p.calls);
    ensure!(hits == calls, "requests received {:?}, made {:?} in {:?}", hits, calls, about());
    Ok(())
}

/// A session with its input in pieces.
fn feed(input: &[u8], chunks: &[u16]) -> Result<cli::Out, String> {
    if chunks.is_empty() {
        return Ok(cli::run(&[], input, &[]));
    }
    let (input, chunks) = (input.to_vec(), chunks.to_vec());
    let mut child = cli::command(&[], &[], None).spawn().expect("spawn the command");
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    std::thread::spawn(move || {
        let mut at = 0;
        let mut k = 0;
        while at < input.len() {
            let n = (chunks[k % chunks.len()] as usize).clamp(1, input.len() - at);
            if stdin.write_all(&input[at..at + n]).is_err() {
                return;
            }
            let _ = stdin.flush();
            if k < 40 {
                std::thread::sleep(Duration::from_micros(300));
            }
            at += n;
            k += 1;
        }
    });
    let err = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = stderr.read_to_end(&mut v);
        v
    });
    let out = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = stdout.read_to_end(&mut v);
        v
    });
    let started = Instant::now();
    let mut timed_out = false;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if started.elapsed() > Duration::from_secs(120) {
            timed_out = true;
            let _ = child.kill();
            break child.wait().expect("wait");
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    use std::os::unix::process::ExitStatusExt;
    Ok(cli::Out {
        code: status.code(),
        signal: status.signal(),
        stdout: out.join().unwrap_or_default(),
        stderr: err.join().unwrap_or_default(),
        timed_out,
    })
}

/// Each line is answered before the next one is given.
fn check_dialogue(c: &Session, obs: &mut Obs) -> Outcome {
    let farm = said();
    let p = play(c, &farm.addr.to_string());
    let mut child = cli::command(&[], &[], None).spawn().expect("spawn the command");
    let mut stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (sender, receiver) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut r = std::io::BufReader::new(stdout);
        let mut line = Vec::new();
        while let Ok(n) = r.read_until(b'\n', &mut line) {
            if n == 0 || sender.send(std::mem::take(&mut line)).is_err() {
                return;
            }
        }
    });
    let answer = |lines: usize| -> Result<String, String> {
        let mut t = Vec::new();
        for _ in 0..lines {
            match receiver.recv_timeout(Duration::from_secs(60)) {
                Ok(l) => t.extend(l),
                Err(_) => return Err(format!("no (complete) answer in 60 s: {:?}", clip(&String::from_utf8_lossy(&t), 300))),
            }
        }
        Ok(String::from_utf8_lossy(&t).into_owned())
    };
    let mut exact = 0;
    let mut run = || -> Outcome {
        for (k, (line, want)) in p.input.iter().enumerate() {
            let show = || clip(&String::from_utf8_lossy(line), 400);
            stdin.write_all(line).and_then(|_| stdin.write_all(b"\n")).and_then(|_| stdin.flush()).map_err(|e| format!("the session has ended before line {}: {} {}", k, show(), e))?;
            match want {
                Want::Exact(t) => {
                    let mut got = String::new();
                    // what is left of an answer that could not be foretold
                    loop {
                        got.push_str(&answer(t.lines().count()).map_err(|e| format!("line {} {:?}: {}", k, show(), e))?);
                        let marker = t.starts_with("-#-");
                        if !marker || got.ends_with(t.as_str()) {
                            break;
                        }
                    }
                    ensure!(got.ends_with(t.as_str()), "line {} {:?} is answered {:?}, expected {:?}", k, show(), clip(&got, 300), clip(t, 300));
                    exact += 1;
                }
                _ => {}
            }
        }
        Ok(())
    };
    let outcome = run();
    drop(stdin);
    let status = match outcome {
        Ok(()) => {
            let limit = Instant::now() + Duration::from_secs(60);
            loop {
                if let Some(s) = child.try_wait().expect("wait") {
                    break Some(s);
                }
                if Instant::now() > limit {
                    break None;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        Err(_) => None,
    };
    let _ = child.kill();
    let _ = child.wait();
    outcome?;
    obs.extra += p.input.len() as u64;
    obs.nontrivial_if(exact > 1);
    obs.sample(clip(&p.input.iter().map(|(l, _)| String::from_utf8_lossy(l).into_owned()).collect::<Vec<String>>().join("\n"), 500));
    ensure!(status.is_some_and(|s| s.code() == Some(0)), "at the end of the input the session ends with {:?}", status);
    Ok(())
}

fn session(lines: usize, long: bool) -> BoxedStrategy<Session> {
    let g = Gen::new(2, true, true, true, true, 3);
    let program = (vec(g.any(2), 1..4), gen::layout()).prop_map(|(s, l)| Line::Program(s, l)).boxed();
    let lets = {
        let items: Vec<(u32, BoxedStrategy<E>)> = TYPES.iter().map(|t| (1, (gen::name_of(*t), g.of(*t, 2)).prop_map(|(n, e)| E::Let(n, Box::new(e))).boxed())).collect();
        (vec(union(items), 1..3), gen::layout()).prop_map(|(s, l)| Line::Program(s, l)).boxed()
    };
    let show = select(vec![Ty::Int, Ty::Str, Ty::Arr, Ty::Map, Ty::Bool, Ty::Float]).prop_flat_map(gen::name_of).prop_map(|n| Line::Program(vec![E::Var(n)], vec![])).boxed();
    let print = (any_text(10), any::<bool>(), g.any(1)).prop_map(|(t, n, e)| Line::Print(t, n, e)).boxed();
    let bad = (vec(g.any(1), 1..3), any::<u8>()).prop_map(|(s, h)| Line::Bad(s, h)).boxed();
    let line = prop_oneof![
        6 => lets,
        3 => program,
        5 => show,
        2 => print,
        2 => any::<u8>().prop_map(Line::Blank),
        3 => bad,
        2 => (any::<u8>(), any::<bool>()).prop_map(|(r, c)| Line::Define(r, c)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(r, v)| Line::Call(r, v)),
        1 => Just(Line::Test),
        1 => vec(any::<u8>(), 0..30).prop_map(Line::Bytes),
        1 => (any::<u8>(), prop_oneof![8 => 1u16..12, 1 => 60u16..if long { 300 } else { 61 }]).prop_map(|(c, k)| Line::Long(c, k)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(v, h)| Line::Half(v, h)),
        1 => any::<u8>().prop_map(Line::Word),
    ];
    let count = prop_oneof![1200 => 1..lines, 100 => lines..lines * 12, if long { 4 } else { 1 } => lines * 50..lines * 200];
    let chunks = prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![1u16..40, 1u16..9000], 1..8)];
    (count.prop_flat_map(move |n| vec(line.clone(), n)), prop::option::weighted(0.4, any::<u8>()), prop::bool::weighted(0.2), any::<bool>(), chunks)
        .prop_map(|(lines, exit, crlf, open, chunks)| Session { lines, exit, crlf, open, chunks })
        .boxed()
}

pub fn t08() -> Property {
    let sessions = Part::new(
        "sessions",
        "sessions of up to 300 lines, some of thousands (bindings, programs, failing and malformed lines, requests defined, redefined and made, tests, blank lines, bytes, lines of 300 kB), in pieces, with CRLF, ended by exit or the end of the input: every answer, line by line, against the reference interpreter, and the requests received; non-trivial: a line that succeeds after one that failed",
        (9000, 300_000),
        |_| session(25, true),
        check_session,
    )
    .shrink(600);
    let dialogue = Part::new(
        "dialogue",
        "the same, each line given once the one before it is answered; non-trivial: two answers",
        (4000, 60_000),
        |_| session(15, false),
        check_dialogue,
    )
    .shrink(150);
    Property {
        id: "T08",
        parts: vec![sessions.boxed(), dialogue.boxed()],
        known: vec![],
        assumptions: vec!["standard input and output are pipes, not a terminal"],
    }
}

// ---------------------------------------------------------------- T09

/// An argument for an option, in one of the ways to give it.
fn given(short: &str, long: &str, value: &str, way: u8) -> Vec<String> {
    let way = if value.starts_with('-') || value.is_empty() { way % 2 * 2 } else { way % 4 };
    match way {
        0 => vec![format!("--{}={}", long, value)],
        1 => vec![format!("--{}", long), value.to_string()],
        2 => vec![format!("-{}={}", short, value)],
        _ => vec![format!("-{}", short), value.to_string()],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Option_ {
    Duration,
    Threads,
    Number,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arg {
    option: Option_,
    value: String,
    way: u8,
    named: bool,
    first: bool,
}

/// Whether the value means something: digits and a unit, digits in range.
fn meaningful(option: Option_, value: &str) -> bool {
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    match option {
        Option_::Duration => {
            let Some(unit) = value.chars().last() else { return false };
            let number = &value[..value.len() - unit.len_utf8()];
            let by: u128 = match unit {
                's' => 1,
                'm' => 60,
                'h' => 3600,
                _ => return false,
            };
            digits(number) && number.trim_start_matches('0').len() <= 20 && number.parse::<u128>().unwrap_or(0) * by <= u64::MAX as u128
        }
        Option_::Threads | Option_::Number => {
            let least = u128::from(option == Option_::Threads);
            digits(value) && value.trim_start_matches('0').len() <= 20 && (least..=u32::MAX as u128).contains(&value.parse::<u128>().unwrap_or(0))
        }
    }
}

fn number_text(limit: u128) -> BoxedStrategy<String> {
    let near: Vec<String> = (0..7).map(|i| (limit + i).saturating_sub(3).to_string()).collect();
    prop_oneof![
        4 => (0u32..100).prop_map(|n| n.to_string()),
        3 => select(near),
        1 => any::<u64>().prop_map(|n| n.to_string()),
        1 => (0u32..100, 1usize..30).prop_map(|(n, z)| format!("{}{}", "0".repeat(z), n)),
        1 => "[0-9]{18,40}",
        1 => select(vec!["4294967295", "4294967296", "4294967297", "8589934592", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "65536"]).prop_map(String::from),
    ]
    .boxed()
}

fn odd_text() -> BoxedStrategy<String> {
    let odd = select(
        vec!["", "s", "m", "h", "ss", "-1s", "-0s", "1.5s", ".5s", "1,5s", "1 s", " 1s", "1s ", "1ms", "1us", "1d", "1S", "1M", "1H", "1sec", "1min", "1hour", "1e3s", "0x5s", "1_000s", "٣s", "1ſ", "1é", "1\u{301}", "1sm", "s1", "1h30m", "1m30s", "inf", "NaN", "infs", "five", "--", "1-s", "1'", "1\ts", "1s\n", "½h", "1µ", "0", "00", "-1", "-0", "1.0", "1e3", "0x10", "0b1", "0o7", "1_0", "2 ", " 2", "two", "٣", "１", "1u32", "max", "1/2", "2*3"],
    )
    .prop_map(String::from);
    prop_oneof![4 => odd, 1 => "[0-9smh.e -]{1,5}", 1 => any_text(6)].boxed()
}

fn arg_case() -> BoxedStrategy<Arg> {
    let duration = {
        let fits = (select(vec![('s', 1u128), ('m', 60), ('h', 3600)])).prop_flat_map(|(u, by)| number_text(u64::MAX as u128 / by).prop_map(move |n| format!("{}{}", n, u)));
        let other = (number_text(1000), select(vec!["", "d", "S", "M", "H", "ms", "us", "ns", "w", " s", "sec", "é", "\u{301}", "ß", "s s"])).prop_map(|(n, u)| format!("{}{}", n, u));
        prop_oneof![5 => fits.boxed(), 2 => other.boxed(), 3 => odd_text()].prop_map(|v| (Option_::Duration, v)).boxed()
    };
    let threads = prop_oneof![2 => number_text(u32::MAX as u128), 1 => odd_text()].prop_map(|v| (Option_::Threads, v)).boxed();
    let number = prop_oneof![2 => number_text(u32::MAX as u128), 1 => odd_text()].prop_map(|v| (Option_::Number, v)).boxed();
    let both = union(vec![(4, duration), (2, threads), (2, number)]);
    (both, any::<u8>(), any::<bool>(), any::<bool>())
        .prop_map(|((option, value), way, named, first)| {
            // a plus sign is not spoken of
            let mut value: String = value.chars().filter(|c| *c != '+' && *c != '\0').collect();
            if option == Option_::Threads && meaningful(option, &value) && value.parse::<u32>().is_ok_and(|n| n > 40) {
                value = (value.parse::<u32>().unwrap() % 40 + 1).to_string();
            }
            // minus zero is zero
            if option == Option_::Number && value.starts_with('-') && value[1..].bytes().all(|b| b == b'0') {
                value = "-1".to_string();
            }
            Arg { option, value, way, named, first }
        })
        .boxed()
}

fn check_arg(c: &Arg, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t09");
    std::fs::create_dir(dir.0.join("kept")).expect("scratch");
    std::fs::write(dir.0.join("s.fan"), "println(\"START\")\ntest t { 1 / 0 }").expect("suite");
    let (short, long) = match c.option {
        Option_::Duration => ("d", "duration"),
        Option_::Threads => ("t", "threads"),
        Option_::Number => ("n", "number"),
    };
    let option = given(short, long, &c.value, c.way);
    let mut args: Vec<String> = vec!["test".into(), "-r".into(), "kept".into()];
    if c.first {
        args.extend(option.clone());
    }
    if c.named {
        args.push("t".into());
    }
    if !c.first {
        args.extend(option);
    }
    let arg: Vec<&str> = args.iter().map(String::as_str).collect();
    let out = cli::run_in(&arg, b"", &[], Some(&dir.0));
    cli::sane(&out).map_err(|e| format!("{} with {:?}", e, args))?;
    obs.sample(format!("{:?}", args));
    let started = out.text().lines().any(|l| l == "START");
    if meaningful(c.option, &c.value) {
        obs.label("accepted");
        obs.nontrivial();
        ensure!(started && out.code == Some(0), "{:?} is not accepted: exit code {:?}, stderr {:?}", args, out.code, clip(&out.err_text(), 400));
    } else {
        obs.label("refused");
        obs.nontrivial_if(c.value.chars().any(|c| c.is_ascii_digit()));
        ensure!(!started && out.stdout.is_empty(), "{:?} is not refused: {:?}", args, clip(&out.text(), 300));
        ensure!(out.code.is_some_and(|c| c != 0), "{:?} is refused with exit code {:?}", args, out.code);
        ensure!(!out.err_text().trim().is_empty(), "{:?} is refused without a message", args);
        ensure!(std::fs::read_dir(dir.0.join("kept")).is_ok_and(|mut d| d.next().is_none()), "{:?} is refused after the record files were created", args);
    }
    Ok(())
}

/// The library that makes the command's time run faster, built once per process.
fn clock_library() -> Result<PathBuf, String> {
    static BUILT: std::sync::OnceLock<Result<PathBuf, String>> = std::sync::OnceLock::new();
    BUILT
        .get_or_init(|| {
            let to = verif_dir().join("target");
            let _ = std::fs::create_dir_all(&to);
            let path = to.join("clock.so");
            let new = to.join(format!("clock-{}.so", std::process::id()));
            let out = std::process::Command::new("gcc")
                .args(["-O1", "-shared", "-fPIC", "-o"])
                .arg(&new)
                .arg(verif_dir().join("harness/clock.c"))
                .arg("-ldl")
                .output()
                .map_err(|e| e.to_string())?;
            if !out.status.success() {
                return Err(String::from_utf8_lossy(&out.stderr).into_owned());
            }
            std::fs::rename(&new, &path).map_err(|e| e.to_string())?;
            Ok(path)
        })
        .clone()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limit {
    value: u32,
    unit: char,
    threads: u32,
    number: Option<u32>,
    /// the run is to take so many ms of the machine's time
    target: u16,
}

/// How long a run of that duration takes when time runs `scale` times as fast; None: longer than the limit.
fn timed(duration: &str, threads: u32, number: Option<u32>, scale: u64, limit: Duration) -> Result<Option<Duration>, String> {
    let dir = Scratch::new("t09");
    std::fs::write(dir.0.join("s.fan"), "test t { let x = 1 }").expect("suite");
    let lib = clock_library().map_err(|e| format!("clock library: {}", e))?;
    let (lib, scale, threads) = (lib.to_string_lossy().into_owned(), scale.to_string(), threads.to_string());
    let n = number.map(|n| n.to_string());
    let mut args = vec!["test", "t", "-d", duration, "-t", &threads];
    if let Some(n) = &n {
        args.extend(["-n", n]);
    }
    let begun = Instant::now();
    let out = cli::start(&args, &[("LD_PRELOAD", &lib), ("CLOCK_SCALE", &scale)], Some(&dir.0), Some(vec![])).wait(limit);
    let took = begun.elapsed();
    if out.timed_out {
        return Ok(None);
    }
    cli::sane(&out)?;
    if out.code != Some(0) {
        return Err(format!("exit code {:?}, stderr {:?}", out.code, clip(&out.err_text(), 300)));
    }
    Ok(Some(took))
}

fn check_limit(c: &Limit, obs: &mut Obs) -> Outcome {
    let seconds = c.value as u64
        * match c.unit {
            's' => 1,
            'm' => 60,
            _ => 3600,
        };
    let duration = format!("{}{}", c.value, c.unit);
    obs.sample(format!("-d {} -t {}", duration, c.threads));
    obs.label(format!("unit {}", c.unit));
    obs.nontrivial();
    let mut last = String::new();
    // a deviation must show three times, slower each time
    for factor in [1, 3, 6] {
        let scale = (seconds * 1000 / (c.target as u64 * factor)).max(1);
        let want = Duration::from_secs_f64(seconds as f64 / scale as f64);
        let limit = want * 2 + Duration::from_secs(5);
        let took = timed(&duration, c.threads, c.number, scale, limit).map_err(|e| format!("-d {}: {}", duration, e))?;
        let fine = took.is_some_and(|t| t >= want.mul_f64(0.985) && t <= want.mul_f64(1.04) + Duration::from_millis(180));
        if fine {
            return Ok(());
        }
        last = format!("a run with -d {} takes {:?}, at {} times the speed it should take {:?}", duration, took, scale, want);
        obs.extra += 1;
    }
    // whether the clock has any influence on this program
    let control = timed("3s", 1, None, 6, Duration::from_secs(4))?;
    if control.is_some_and(|t| t > Duration::from_millis(400) && t < Duration::from_millis(1500)) {
        return Err(last);
    }
    let plain = timed("2s", 1, None, 1, Duration::from_secs(8))?;
    ensure!(plain.is_some_and(|t| t > Duration::from_millis(1950) && t < Duration::from_secs(5)), "a run with -d 2s takes {:?}", plain);
    obs.label("inconclusive: time cannot be sped up");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Eval {
    text: String,
    /// 1: in a directory with a file of this name, 2: with input, 3: both
    #[serde(default)]
    around: u8,
}

fn eval_case() -> BoxedStrategy<Eval> {
    let g = Gen::new(3, true, true, true, true, 4);
    let h = Gen::new(3, false, false, true, true, 0);
    let closed = vec(prop_oneof![3 => h.any(3), 1 => h.any(1)], 1..3).boxed();
    let program = (prop_oneof![2 => vec(g.any(3), 1..6).boxed(), 5 => closed], gen::layout()).prop_map(|(s, l)| program_text(&s, &l)).boxed();
    let tokens = select(vec![
        "let", "if", "else", "true", "false", "x", "i", "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "=", "==", "<", "-", "!", "&&", "||", "%", "1", "9223372036854775807", "9223372036854775808", "1.5", "1e", "\"a\"", "\"", "'", "\\", "\n", " ", "test", "request", "length", "append", "$HOME", "*", "--help", "-V", "#", "é", "\u{feff}", "\u{7f}",
    ]);
    let soup = vec(tokens, 0..12).prop_map(|t| t.join(" ")).boxed();
    let dash = program.clone().prop_map(|t| format!("-{}", t)).boxed();
    let text = any_text(30).prop_map(|t| format!("\"{}\"", t)).boxed();
    let long = (1usize..100, "[a-z]{1,9}").prop_map(|(n, t)| format!("\"{}\"", t.repeat(n * 100))).boxed();
    let blanks = (program.clone(), "[ \n\t]{0,3}", "[ \n\t]{0,3}").prop_map(|(p, a, b)| format!("{}{}{}", a, p, b)).boxed();
    let name = select(vec!["s.fan", "a", "x", "1", "true", "-", "help", "test", "eval", "data.json", "@s.fan", "[1]", "{}", "s"]).prop_map(String::from).boxed();
    (union(vec![(16, program), (8, soup), (4, dash), (4, text), (2, long), (4, blanks), (1, name)]), prop_oneof![5 => Just(0u8), 1 => 1u8..4])
        .prop_map(|(t, around)| Eval { text: t.chars().filter(|c| *c != '\0').collect(), around })
        .boxed()
}

fn check_eval(c: &Eval, obs: &mut Obs) -> Outcome {
    if c.text.contains("print") {
        return Ok(());
    }
    let expected: Result<(String, V), String> = match lib::Parser::new(&c.text).parse() {
        Err(e) => Err(e),
        Ok(lib::Source { exprs, requests, .. }) => {
            let mut context = lib::Context::new();
            context.extend(requests);
            lib::eval_block(&exprs, &mut context).map(|v| (v.to_string(), crate::model::of(&v)))
        }
    };
    let mut args = vec!["eval"];
    if c.text.starts_with('-') {
        args.push("--");
    }
    args.push(&c.text);
    // what lies about is not the text
    let dir = (c.around > 0).then(|| Scratch::new("t09"));
    if let Some(dir) = &dir {
        let poison = "\"poison\"";
        for n in [c.text.as_str(), c.text.trim(), c.text.trim_start_matches('@'), "s.fan", "main.fan", ".env"] {
            if c.around & 1 > 0 && !n.is_empty() && n.len() <= 255 && !n.contains('/') && n != "." && n != ".." {
                std::fs::write(dir.0.join(n), poison).expect("scratch");
                obs.label("a file of this name");
            }
        }
    }
    let input: &[u8] = if c.around & 2 > 0 { b"\"poison\"\n" } else { b"" };
    let out = cli::run_in(&args, input, &[], dir.as_ref().map(|d| d.0.as_path()));
    cli::sane(&out).map_err(|e| format!("{} with {:?}", e, clip(&c.text, 600)))?;
    obs.sample(clip(&c.text, 300));
    let got = out.text();
    match expected {
        Ok((text, value)) => {
            obs.label("value");
            obs.nontrivial_if(c.text.len() > 3);
            let fine = got == format!("{}\n", text) || (value.text().is_none() && sorted(&got) == sorted(&format!("{}\n", text)));
            ensure!(fine, "eval {:?} prints {:?}, expected {:?}", clip(&c.text, 600), clip(&got, 300), clip(&text, 300));
        }
        Err(e) => {
            obs.label("error");
            obs.nontrivial_if(c.text.len() > 3);
            let all = format!("{}{}", got, out.err_text());
            ensure!(!e.trim().is_empty() && (all.contains(e.trim()) || (e.contains('{') && sorted(all.trim()) == sorted(e.trim()))), "eval {:?} prints {:?}, expected the error {:?}", clip(&c.text, 600), clip(&all, 300), clip(&e, 300));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Soup {
    args: Vec<Vec<u8>>,
    suite: u8,
    input: Vec<u8>,
    pod: Option<Vec<u8>>,
}

fn soup() -> BoxedStrategy<Soup> {
    let known = select(vec![
        "eval", "test", "help", "--help", "-h", "--version", "-V", "-t", "-d", "-n", "-p", "-r", "-s", "--threads", "--duration", "--number", "--path", "--record", "--stat", "--", "-", "t0", "t1", "0", "1", "2", "3", "5s", "1s", "0s", "1m", "1h", "-1", "s", "kept", "suite", "suite/a.fan", "bytes", "missing", "kept/missing", "a file", ".", "", "-st", "-t2", "-n2", "-d1s", "-rkept", "-psuite", "--threads=2", "--duration=0s", "--number=2", "--path=suite", "--record=kept", "--stat=1", "-sss", "1 + 1", "1 / 0", "(", "\"a\"",
    ])
    .prop_map(|s| s.as_bytes().to_vec());
    let text = any_text(8).prop_map(|t| t.into_bytes());
    let bytes = vec(any::<u8>(), 0..8);
    let arg = prop_oneof![12 => known.boxed(), 1 => text.boxed(), 1 => bytes.boxed()];
    let free = vec(arg.clone(), 0..8);
    let test = vec(arg.clone(), 0..4).prop_map(|mut a| {
        a.insert(0, b"test".to_vec());
        a
    });
    let pair = |k: usize| {
        let (names, good): (Vec<&'static str>, Vec<&'static str>) = match k {
            0 => (vec!["-t", "--threads"], vec!["1", "2", "7", "3", "01"]),
            1 => (vec!["-d", "--duration"], vec!["0s", "1s", "0m", "0h", "00s"]),
            2 => (vec!["-n", "--number"], vec!["0", "1", "2", "100", "4294967295"]),
            3 => (vec!["-p", "--path"], vec!["suite", "suite/a.fan", ".", "missing", "bytes", "kept", "a file", "bytes/b.fan"]),
            _ => (vec!["-r", "--record"], vec!["kept", "kept", "kept", "kept", ".", "missing", "a file", "suite", "kept/missing", ""]),
        };
        let bytes = |v: Vec<&'static str>| select(v).prop_map(|s| s.as_bytes().to_vec());
        (bytes(names), prop_oneof![16 => bytes(good).boxed(), 1 => arg.clone().boxed()])
    };
    let pairs = (pair(0), pair(1), pair(2), pair(3), pair(4)).prop_flat_map(|(a, b, c, d, e)| proptest::sample::subsequence(vec![a, b, c, d, e], 1..5))
    .prop_map(|p| {
        let mut a = vec![b"test".to_vec(), b"t0".to_vec()];
        for (k, v) in p {
            a.push(k);
            a.push(v);
        }
        a
    });
    let all = prop_oneof![1 => free.boxed(), 1 => test.boxed(), 5 => pairs.boxed()];
    (all, any::<u8>(), vec(any::<u8>(), 0..20), prop::option::weighted(0.3, vec(any::<u8>(), 0..6)))
        .prop_map(|(args, suite, input, pod)| {
            // nothing outside the scratch directory: no absolute paths, no way up
            let safe = |a: &Vec<u8>| {
                let known = [&b"suite/a.fan"[..], b"kept/missing", b"bytes/b.fan"].contains(&&a[..]);
                (known || !a.contains(&b'/')) && !a.windows(2).any(|w| w == b"..")
            };
            let args: Vec<Vec<u8>> = args.into_iter().map(|a| a.into_iter().filter(|b| *b != 0).collect()).filter(safe).collect();
            let pod = pod.map(|p: Vec<u8>| p.into_iter().filter(|b| *b != 0 && *b != b'/').collect::<Vec<u8>>()).filter(|p| !p.windows(2).any(|w| w == b".."));
            Soup { args, suite, input, pod }
        })
        .boxed()
}

fn check_soup(c: &Soup, obs: &mut Obs) -> Outcome {
    use std::os::unix::ffi::OsStrExt;
    let dir = Scratch::new("t09");
    let suites: [&[u8]; 6] = [
        b"println(\"START\")\ntest t0 { let x = 1 }\ntest t1 { 1 / 0 }",
        b"println(\"START\")\ntest t0 { 1 / 0 }",
        b"((((",
        b"\xff\xfe",
        b"1 / 0\ntest t0 { 1 }",
        b"",
    ];
    let suite = suites[c.suite as usize % suites.len()];
    std::fs::create_dir(dir.0.join("kept")).expect("scratch");
    std::fs::create_dir(dir.0.join("suite")).expect("scratch");
    std::fs::create_dir(dir.0.join("bytes")).expect("scratch");
    std::fs::write(dir.0.join("suite/a.fan"), suite).expect("scratch");
    std::fs::write(dir.0.join("bytes/b.fan"), b"\xc3\x28").expect("scratch");
    std::fs::write(dir.0.join("a file"), b"x").expect("scratch");
    let mut command = cli::command(&[], &[], Some(&dir.0));
    for a in &c.args {
        command.arg(std::ffi::OsStr::from_bytes(a));
    }
    if let Some(p) = &c.pod {
        command.env("POD", std::ffi::OsStr::from_bytes(p));
    }
    // a second of duration with an endless test is as long as any of these takes, hours are cut off
    let started = Instant::now();
    let out = cli::start_command(command, Some(c.input.clone())).wait(Duration::from_millis(1500));
    let shown: Vec<String> = c.args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
    obs.sample(format!("{:?}", shown));
    if out.timed_out && started.elapsed() >= Duration::from_millis(1500) {
        // an endless test with minutes to run: what it said so far
        let err = out.err_text();
        ensure!(!err.contains("panicked at"), "the command panicked with {:?}: {:?}", shown, clip(&err, 400));
        obs.label("cut off");
        return Ok(());
    }
    cli::sane(&out).map_err(|e| format!("{} with {:?}, suite {:?}", e, shown, String::from_utf8_lossy(suite)))?;
    obs.nontrivial_if(c.args.len() > 1);
    match out.code {
        Some(0) => obs.label("exit 0"),
        _ => {
            obs.label("refused");
            ensure!(!out.err_text().trim().is_empty(), "{:?} ends with exit code {:?} and no message", shown, out.code);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    threads: u32,
    /// processes and threads the user may have
    allowed: u32,
    record: bool,
    stat: bool,
    uid: u32,
}

/// More threads than the system gives: an error message, no panic.
fn check_many(c: &Many, obs: &mut Obs) -> Outcome {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let dir = Scratch::new("t09");
    let open = |p: &Path| std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).expect("scratch");
    let kept = dir.0.join("kept");
    std::fs::create_dir(&kept).expect("scratch");
    std::fs::write(dir.0.join("s.fan"), "test t { let x = 1 }").expect("suite");
    std::fs::copy(cli::binary(), dir.0.join("command")).expect("scratch");
    for p in [&dir.0, &kept, &dir.0.join("command"), &dir.0.join("s.fan")] {
        open(p);
    }
    let t = c.threads.to_string();
    let mut args = vec!["test", "t", "-t", &t, "-d", "1s"];
    if c.record {
        args.extend(["-r", "kept"]);
    }
    if c.stat {
        args.push("-s");
    }
    let mut command = std::process::Command::new(dir.0.join("command"));
    command.args(&args).current_dir(&dir.0).env_remove("POD").env_remove("RUST_BACKTRACE");
    command.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let (uid, allowed) = (1_000_000 + c.uid, c.allowed);
    unsafe {
        command.pre_exec(move || {
            libc::setpgid(0, 0);
            let n = libc::rlimit {
                rlim_cur: allowed as u64,
                rlim_max: allowed as u64,
            };
            if libc::setrlimit(libc::RLIMIT_NPROC, &n) != 0 || libc::setgid(uid) != 0 || libc::setuid(uid) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    match command.spawn() {
        Ok(mut child) => {
            let _ = child.kill();
            let _ = child.wait();
        }
        Err(_) => {
            obs.label("inconclusive: no other user may be had");
            return Ok(());
        }
    }
    let out = cli::start_command(command, Some(vec![])).wait(Duration::from_secs(60));
    obs.sample(format!("{} threads where {} are allowed", c.threads, c.allowed));
    cli::sane(&out).map_err(|e| format!("{} with {:?} where {} threads are allowed", e, args, c.allowed))?;
    obs.nontrivial_if(c.threads > c.allowed);
    if out.code != Some(0) {
        obs.label("refused");
        ensure!(!out.err_text().trim().is_empty(), "{:?} ends with exit code {:?} and no message", args, out.code);
    }
    Ok(())
}

pub fn t09() -> Property {
    let args = Part::new(
        "values",
        "durations, threads and numbers: decimal numbers around every limit, units and look-alikes, signs, blanks, other digits; accepted exactly when they mean something, refused before anything is run; non-trivial: accepted, or refused with a digit in it",
        (12_000, 200_000),
        |_| arg_case(),
        check_arg,
    );
    let limits = Part::new(
        "limits",
        "runs of an endless test limited to seconds, minutes and hours, the command's time sped up to 9,000,000-fold; non-trivial: all",
        (110, 3000),
        |_| {
            let value = prop_oneof![2 => (1u32..10, select(vec!['m', 'h'])), 1 => (1u32..1000, select(vec!['m', 'h'])), 1 => (2u32..2000, Just('s'))];
            (value, prop_oneof![4 => Just(1u32), 1 => Just(2u32)], prop::option::weighted(0.2, 1u32..100), 350u16..700)
                .prop_map(|((value, unit), threads, number, target)| Limit { value, unit, threads, number, target })
                .boxed()
        },
        check_limit,
    )
    .shrink(6);
    let eval = Part::new(
        "eval",
        "programs, token soup, strings, texts that start with a dash, blanks and names of files, up to 90 kB, some beside files of that name or with input: what eval prints against the value or error of the library for the same text; non-trivial: longer than three characters",
        (15_000, 250_000),
        |_| eval_case(),
        check_eval,
    );
    let soup = Part::new(
        "soup",
        "random argument lists, also no text, over good, malformed and unreadable suites, missing directories and files in place of directories: no panic, no death by a signal, a message with every refusal; non-trivial: two arguments",
        (15_000, 200_000),
        |_| soup(),
        check_soup,
    );
    let many = Part::new(
        "threads",
        "more threads than the system gives to a user: no panic, a message; non-trivial: more threads than allowed",
        (120, 2000),
        |_| (2u32..3000, 2u32..60, any::<bool>(), any::<bool>(), 0u32..1_000_000).prop_map(|(threads, allowed, record, stat, uid)| Many { threads, allowed, record, stat, uid }).boxed(),
        check_many,
    )
    .shrink(20);
    Property {
        id: "T09",
        parts: vec![args.boxed(), limits.boxed(), eval.boxed(), soup.boxed(), many.boxed()],
        known: vec![],
        assumptions: vec!["minutes and hours are measured in sped up time (clock_gettime, sleeps and timed waits of the command scaled)"],
    }
}
