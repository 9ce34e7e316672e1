//! T03 to T06: runs of the built command, their reports, record files and statistics.

use crate::avro::{self, A};
use crate::cli;
use crate::ensure;
use crate::fw::{clip, Obs, Outcome, Part, Property, Scratch, Tier};
use crate::net::{reply_with, Answer, Farm, Hit};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- what a run leaves

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub lines: Vec<String>,
    pub pass: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub count: u128,
    pub sum: u128,
    pub avg: u128,
    pub max: u128,
    pub min: u128,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub blocks: Vec<Block>,
    pub stats: Vec<(String, Line)>,
    /// other lines
    pub rest: Vec<String>,
}

/// `name count=..  sum=..  avg=..  max=..  min=..`
pub fn stat_line(l: &str) -> Option<(String, Line)> {
    let (name, numbers) = l.rsplit_once(" count=")?;
    let numbers = format!("count={}", numbers);
    let mut found = BTreeMap::new();
    for w in numbers.split_whitespace() {
        let (k, v) = w.split_once('=')?;
        if found.insert(k, v.parse::<u128>().ok()?).is_some() {
            return None;
        }
    }
    if found.len() != 5 {
        return None;
    }
    Some((
        name.to_string(),
        Line {
            count: *found.get("count")?,
            sum: *found.get("sum")?,
            avg: *found.get("avg")?,
            max: *found.get("max")?,
            min: *found.get("min")?,
        },
    ))
}

/// Reads the output of a run; every report must be one block of lines.
pub fn report(out: &str) -> Result<Report, String> {
    let mut r = Report::default();
    let mut open: Option<Block> = None;
    for l in out.lines() {
        match &mut open {
            None => {
                if let Some(name) = l.strip_prefix("=== TEST  ") {
                    open = Some(Block {
                        name: name.to_string(),
                        lines: Vec::new(),
                        pass: false,
                    });
                } else if let Some((n, s)) = stat_line(l) {
                    r.stats.push((n, s));
                } else if l.starts_with("--- PASS  ") || l.starts_with("--- FAIL  ") {
                    return Err(format!("the end of a report without its start: {:?}", l));
                } else {
                    r.rest.push(l.to_string());
                }
            }
            Some(b) => {
                if l.starts_with("=== TEST  ") {
                    return Err(format!("the report {:?} starts within that of {:?}", l, b.name));
                }
                let end = l.strip_prefix("--- PASS  ").map(|t| (true, t)).or(l.strip_prefix("--- FAIL  ").map(|t| (false, t)));
                match end {
                    Some((pass, t)) => {
                        ensure!(t.starts_with(&format!("{} (", b.name)) && t.ends_with(')'), "the report of {:?} ends with {:?}", b.name, l);
                        b.pass = pass;
                        r.blocks.push(open.take().unwrap());
                    }
                    None => b.lines.push(l.to_string()),
                }
            }
        }
    }
    ensure!(open.is_none(), "a report without its end: {:?}", open);
    Ok(r)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Row {
    pub test: String,
    pub thread: i64,
    pub number: i64,
    pub order: i64,
    pub request: String,
    pub target: String,
    pub status: i64,
    pub body: String,
    pub error: bool,
    pub total_ns: i64,
}

pub fn row_of(a: &A) -> Result<Row, String> {
    let url = a.text("request_url")?;
    let target = url.split_once("://").and_then(|(_, r)| r.find('/').map(|i| r[i..].to_string())).unwrap_or_default();
    Ok(Row {
        test: a.text("name")?.to_string(),
        thread: a.long("thread")?,
        number: a.long("number")?,
        order: a.long("order")?,
        request: a.text("request_name")?.to_string(),
        target,
        status: a.long("response_status")?,
        body: a.text("response_body")?.to_string(),
        error: !a.text("error")?.is_empty(),
        total_ns: a.long("time_total")?,
    })
}

/// The rows of each record file.
pub fn files(dir: &Path, cut: bool) -> Result<Vec<Vec<Row>>, String> {
    let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    names.sort();
    let mut out = Vec::new();
    for n in names {
        let bytes = std::fs::read(&n).map_err(|e| e.to_string())?;
        if cut && bytes.is_empty() {
            // killed between the creation of the file and its first write
            out.push(Vec::new());
            continue;
        }
        let f = avro::read(&bytes, cut).map_err(|e| format!("record file {:?}: {}", n.file_name().unwrap_or_default(), e))?;
        out.push(f.rows.iter().map(row_of).collect::<Result<Vec<Row>, String>>()?);
    }
    Ok(out)
}

pub fn counts<'a>(names: impl Iterator<Item = &'a str>) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for n in names {
        *m.entry(n.to_string()).or_default() += 1;
    }
    m
}

/// The request definition a hit belongs to: the first piece of the path.
pub fn hit_name(h: &Hit) -> &str {
    h.target.trim_start_matches('/').split(['/', '?']).next().unwrap_or("")
}

/// Requests received, reports, rows and statistics tell of the same requests.
pub fn agree(hits: &[Hit], r: &Report, rows: Option<&[Vec<Row>]>, stat: bool) -> Outcome {
    let made = counts(hits.iter().map(hit_name));
    let told = counts(r.blocks.iter().map(|b| b.name.as_str()));
    ensure!(made == told, "requests received {:?}, reported {:?}", made, told);
    if let Some(rows) = rows {
        let kept = counts(rows.iter().flatten().map(|r| r.request.as_str()));
        ensure!(made == kept, "requests received {:?}, in the record files {:?}", made, kept);
    }
    if stat {
        let names: BTreeSet<&str> = r.stats.iter().map(|s| s.0.as_str()).collect();
        ensure!(names.len() == r.stats.len(), "a name appears twice in the statistics {:?}", r.stats);
        let counted: BTreeMap<String, u128> = r.stats.iter().map(|(n, l)| (n.clone(), l.count)).collect();
        ensure!(made == counted, "requests received {:?}, in the statistics {:?}", made, counted);
    } else {
        ensure!(r.stats.is_empty(), "statistics that were not asked for: {:?}", r.stats);
    }
    Ok(())
}

pub fn stats_of_rows(rows: &[Vec<Row>]) -> BTreeMap<String, Line> {
    let mut m: BTreeMap<String, Line> = BTreeMap::new();
    for r in rows.iter().flatten() {
        let ms = (r.total_ns / 1_000_000) as u128;
        let l = m.entry(r.request.clone()).or_insert(Line {
            count: 0,
            sum: 0,
            avg: 0,
            max: ms,
            min: ms,
        });
        l.count += 1;
        l.sum += ms;
        l.max = l.max.max(ms);
        l.min = l.min.min(ms);
        l.avg = l.sum / l.count;
    }
    m
}

// ---------------------------------------------------------------- T03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TestSpec {
    /// requests of an iteration
    steps: Vec<u8>,
    /// fails in this iteration (from 1), after so many requests, in this way
    fails: Option<(u32, u8, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RunCase {
    /// whether a request is answered
    requests: Vec<bool>,
    tests: Vec<TestSpec>,
    /// the test asked for; none of the suite when out of range
    name: Option<u8>,
    /// which name that no test has
    missing: u8,
    threads: Option<u32>,
    number: Option<u32>,
    record: bool,
    stat: bool,
    pod: Option<String>,
    /// an earlier run, of more requests, has left its record files
    earlier: bool,
}

const TESTS: [&str; 6] = ["t", "t1", "t10", "T", "tt", "r0"];

fn run_case(tier: Tier) -> BoxedStrategy<RunCase> {
    let most = if tier == Tier::Quick { 120u32 } else { 600 };
    let spec = (vec(any::<u8>(), 0..4), prop_oneof![2 => Just(None), 1 => (1u32..6, any::<u8>(), 0u8..5).prop_map(Some)]).prop_map(|(steps, fails)| TestSpec { steps, fails });
    let threads = prop_oneof![1 => Just(None), 2 => Just(Some(1)), 6 => (2u32..9).prop_map(Some), 1 => (9u32..40).prop_map(Some)];
    let number = prop_oneof![
        1 => Just(None),
        1 => Just(Some(0u32)),
        8 => (1u32..25).prop_map(Some),
        1 => (25u32..most).prop_map(Some),
        1 => select(vec![u32::MAX, u32::MAX - 1, 1 << 31]).prop_map(Some),
    ];
    let name = prop_oneof![2 => Just(None), 8 => (0u8..6).prop_map(Some)];
    let pod = prop_oneof![4 => Just(None), 1 => "[a-z][a-z0-9-]{0,8}".prop_map(Some)];
    (vec(prop::bool::weighted(0.85), 1..5), vec(spec, 1..6), (name, any::<u8>()), threads, number, (any::<bool>(), prop::bool::weighted(0.2)), any::<bool>(), pod)
        .prop_map(|(requests, mut tests, (name, missing), threads, number, (record, earlier), stat, pod)| {
            // most runs ask for a test there is
            let name = name.map(|n| if n == 5 { 99 } else { n % tests.len() as u8 });
            if number.is_some_and(|n| n > 10_000) {
                for t in tests.iter_mut() {
                    t.fails.get_or_insert((3, 0, 0));
                }
            }
            RunCase {
                requests,
                tests,
                name,
                missing,
                threads,
                number,
                record,
                stat,
                pod,
                earlier: earlier && record && number.is_none_or(|n| n < 40),
            }
        })
        .boxed()
}

/// A name no test of the suite has, but often much like one.
fn missing(c: &RunCase) -> String {
    let has = |n: &str| TESTS[..c.tests.len()].contains(&n);
    let names = ["nosuch", "T", "r0", "R0", "T1", "t ", " t", "t1 t", "t*", "t.", "T10", "TT", "it", "t2", "tes", "test", "t{it}"];
    let at = c.missing as usize;
    (0..names.len()).map(|i| names[(at + i) % names.len()]).find(|n| !has(n)).unwrap_or("nosuch").to_string()
}

const FAILURES: [&str; 5] = ["1 / 0", "nowhere", "nofunction()", "9223372036854775807 + 1", "[1] - 1"];

fn suite_of(c: &RunCase, at: &str) -> String {
    let mut s = "let it = 0;\n".to_string();
    for (i, _) in c.requests.iter().enumerate() {
        s.push_str(&format!("request r{} `GET http://{}/r{}`[status == 200]\n", i, at, i));
    }
    for (i, t) in c.tests.iter().enumerate() {
        let mut lines = vec!["let it = it + 1".to_string()];
        for (k, r) in t.steps.iter().enumerate() {
            lines.push(fail_line(t, k));
            lines.push(format!("r{}()", *r as usize % c.requests.len()));
        }
        lines.push(fail_line(t, t.steps.len()));
        lines.retain(|l| !l.is_empty());
        s.push_str(&format!("test {} {{\n  {};\n}}\n", TESTS[i], lines.join(";\n  ")));
    }
    s
}

fn fail_line(t: &TestSpec, k: usize) -> String {
    match t.fails {
        Some((m, after, how)) if after as usize % (t.steps.len() + 1) == k => format!("if (it == {}) {{ {} }}", m, FAILURES[how as usize % FAILURES.len()]),
        _ => String::new(),
    }
}

/// (number, order, request) of each request of a thread that may make so many iterations
fn expected_rows(c: &RunCase, t: &TestSpec, quota: u32) -> Vec<(i64, i64, String)> {
    let mut out = Vec::new();
    for i in 0..quota {
        let fails = t.fails.filter(|(m, ..)| *m == i + 1);
        let upto = match fails {
            Some((_, after, _)) => after as usize % (t.steps.len() + 1),
            None => t.steps.len(),
        };
        for (o, r) in t.steps.iter().take(upto).enumerate() {
            out.push((i as i64, o as i64, format!("r{}", *r as usize % c.requests.len())));
        }
        if fails.is_some() {
            break;
        }
    }
    out
}

fn check_run(c: &RunCase, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t03");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let answered = c.requests.clone();
    let farm = Farm::start(move |target, _| {
        let i: usize = target.trim_start_matches("/r").parse().unwrap_or(0);
        match answered.get(i) {
            Some(false) => (Answer::Drop(0), String::new()),
            _ => (Answer::Reply(0, reply_with("{}")), String::new()),
        }
    });
    let suite = suite_of(c, &farm.addr.to_string());
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let mut args: Vec<String> = vec!["test".into()];
    let name = c.name.map(|n| if (n as usize) < c.tests.len() { TESTS[n as usize].to_string() } else { missing(c) });
    args.extend(name.clone());
    if let Some(t) = c.threads {
        args.extend(["-t".to_string(), t.to_string()]);
    }
    if let Some(n) = c.number {
        args.extend(["--number".to_string(), n.to_string()]);
    }
    if c.record {
        args.extend(["-r".to_string(), kept.to_string_lossy().into_owned()]);
    }
    if c.stat {
        args.push("-s".to_string());
    }
    args.extend(["-p".to_string(), dir.0.join("s.fan").to_string_lossy().into_owned()]);
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let env: Vec<(&str, &str)> = c.pod.iter().map(|p| ("POD", p.as_str())).collect();
    if c.earlier {
        obs.label("after an earlier run");
        let old = Farm::start(|_, _| (Answer::Reply(0, reply_with("{\"earlier\": true}")), String::new()));
        let many = "old();".repeat(9);
        let tests: String = TESTS[..c.tests.len()].iter().map(|t| format!("test {} {{ {} }}\n", t, many)).collect();
        std::fs::write(dir.0.join("s.fan"), format!("request old `GET http://{}/old`\n{}", old.addr, tests)).expect("suite");
        cli::sane(&cli::run_in(&args, b"", &env, Some(&dir.0)))?;
        std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    }
    let out = cli::run_in(&args, b"", &env, Some(&dir.0));
    obs.sample(format!("{} with {}", args[1..args.len() - 2].join(" "), clip(&suite, 500)));
    let mut doing = || -> Outcome {
        cli::sane(&out)?;
        // threads that differ only in how often they repeat
        let (threads, number) = (c.threads.unwrap_or(1), c.number.unwrap_or(1));
        let mut expected: Vec<(String, Vec<(i64, i64, String)>)> = Vec::new();
        match c.name {
            None => {
                for (i, t) in c.tests.iter().enumerate() {
                    expected.push((TESTS[i].to_string(), expected_rows(c, t, 1)));
                }
            }
            Some(n) => {
                if let Some(t) = c.tests.get(n as usize) {
                    for k in 0..threads {
                        let quota = number / threads + u32::from(k < number % threads);
                        expected.push((TESTS[n as usize].to_string(), expected_rows(c, t, quota)));
                    }
                }
            }
        }
        let hits = farm.hits();
        let made = counts(hits.iter().map(hit_name));
        let asked = counts(expected.iter().flat_map(|(_, rows)| rows.iter().map(|r| r.2.as_str())));
        ensure!(made == asked, "requests received {:?}, expected {:?}", made, asked);
        let r = report(&out.text())?;
        let rows = if c.record { Some(files(&kept, false)?) } else { None };
        agree(&hits, &r, rows.as_deref(), c.stat)?;
        for b in &r.blocks {
            let good = c.requests[b.name.trim_start_matches('r').parse::<usize>().map_err(|e| e.to_string())?];
            ensure!(b.pass == good && b.lines.len() == 1, "report {:?} of a request that is {}", b, if good { "answered" } else { "not answered" });
        }
        match rows {
            None => ensure!(std::fs::read_dir(&kept).is_ok_and(|d| d.count() == 0), "record files that were not asked for"),
            Some(rows) => {
                ensure!(rows.len() == expected.len(), "{} record files of {} threads", rows.len(), expected.len());
                let mut seen = BTreeSet::new();
                let mut got: Vec<(String, Vec<(i64, i64, String)>)> = Vec::new();
                for f in &rows {
                    if let Some(first) = f.first() {
                        ensure!(f.iter().all(|r| r.thread == first.thread && r.test == first.test), "a record file with rows of several threads or tests");
                        ensure!(first.thread >= 0 && first.thread < expected.len() as i64 && seen.insert(first.thread), "thread {} of {} in a record file", first.thread, expected.len());
                        got.push((first.test.clone(), f.iter().map(|r| (r.number, r.order, r.request.clone())).collect()));
                        for r in f {
                            let good = c.requests[r.request.trim_start_matches('r').parse::<usize>().map_err(|e| e.to_string())?];
                            ensure!(r.error != good && (r.status == 200) == good && r.target == format!("/{}", r.request), "row {:?}", r);
                        }
                    }
                }
                expected.retain(|e| !e.1.is_empty());
                expected.sort();
                got.sort();
                ensure!(got == expected, "rows {}, expected {}", clip(&format!("{:?}", got), 1500), clip(&format!("{:?}", expected), 1500));
            }
        }
        obs.nontrivial_if(made.values().sum::<u128>() > 1 && expected.len() > 1);
        Ok(())
    };
    let r = doing();
    obs.label(match (c.name, c.threads) {
        (None, _) => "all tests",
        (Some(n), _) if n as usize >= c.tests.len() => "no such test",
        (_, Some(t)) if t > 1 => "threads",
        _ => "one thread",
    });
    if c.tests.iter().any(|t| t.fails.is_some()) {
        obs.label("a test that fails");
    }
    r.map_err(|e| format!("{}\nargs {:?}\nsuite {}\nstdout {}\nstderr {}", e, args, clip(&suite, 1500), clip(&out.text(), 1500), clip(&out.err_text(), 500)))
}

/// Long runs that make requests in a few iterations only, and many requests in one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongRun {
    threads: u32,
    number: u32,
    /// iteration of each thread (from 1), and how many requests it makes
    busy: Vec<(u32, u16)>,
}

fn long_run(tier: Tier) -> BoxedStrategy<LongRun> {
    let top = if tier == Tier::Quick { 70_000u32 } else { 300_000 };
    let at = || prop_oneof![3 => (select(vec![127u32, 255, 256, 32_767, 32_768, 65_535, 65_536, 65_537]), 0u32..3).prop_map(|(n, d)| n + d), 1 => 1u32..top, 1 => 1u32..600];
    let many = || prop_oneof![4 => 1u16..4, 1 => 4u16..40, 1 => 250u16..300];
    (1u32..4, prop_oneof![2 => 60_000u32..top, 1 => 200u32..2000], vec((at(), many()), 1..5))
        .prop_map(|(threads, number, mut busy)| {
            busy.sort();
            busy.dedup_by_key(|b| b.0);
            LongRun { threads, number: number * threads, busy }
        })
        .boxed()
}

fn check_long_run(c: &LongRun, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t03");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let farm = Farm::start(|_, _| (Answer::Reply(0, reply_with("1")), String::new()));
    let mut suite = format!("let it = 0;\nrequest r `GET http://{}/r`\ntest t {{ let it = it + 1;\n", farm.addr);
    for (at, many) in &c.busy {
        suite.push_str(&format!("if (it == {}) {{ {} }};\n", at, "r();".repeat(*many as usize)));
    }
    suite.push('}');
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let (t, n) = (c.threads.to_string(), c.number.to_string());
    let dest = kept.to_string_lossy().into_owned();
    // with few files, so that none may be left open
    let args = ["test", "t", "-s", "-r", &dest, "-t", &t, "-n", &n];
    let out = cli::start_command(cli::few_files(cli::command(&args, &[], Some(&dir.0)), 64), Some(vec![])).wait(Duration::from_secs(150));
    obs.nontrivial();
    obs.sample(format!("-t {} -n {}, requests in {:?}", t, n, c.busy));
    obs.label(if c.number / c.threads > 65_536 { "more than 65536 iterations" } else { "fewer" });
    let doing = || -> Outcome {
        cli::sane(&out)?;
        let r = report(&out.text())?;
        let rows = files(&kept, false)?;
        agree(&farm.hits(), &r, Some(&rows), true)?;
        let each = c.number / c.threads;
        let want: Vec<(i64, i64)> = c.busy.iter().filter(|b| b.0 <= each).flat_map(|b| (0..b.1 as i64).map(|o| (b.0 as i64 - 1, o))).collect();
        ensure!(rows.len() == c.threads as usize, "{} record files of {} threads", rows.len(), c.threads);
        for f in &rows {
            let got: Vec<(i64, i64)> = f.iter().map(|r| (r.number, r.order)).collect();
            ensure!(got == want, "rows with number and order {}, expected {}", clip(&format!("{:?}", got), 600), clip(&format!("{:?}", want), 600));
        }
        Ok(())
    };
    doing().map_err(|e| format!("{}\n-t {} -n {}\nsuite {}\nstdout {}\nstderr {}", e, t, n, clip(&suite, 1000), clip(&out.text(), 800), clip(&out.err_text(), 500)))
}

/// Very many threads: each has its share, its number and its record file.
fn check_crowd(c: &(u32, u32, u32, bool), obs: &mut Obs) -> Outcome {
    let (threads, each, rest, all) = *c;
    let dir = Scratch::new("t03");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let farm = Farm::start(|_, _| (Answer::Reply(0, reply_with("1")), String::new()));
    let mut suite = format!("request r `GET http://{}/r`\n", farm.addr);
    let number = each * threads + rest.min(threads - 1);
    let (t, n) = (threads.to_string(), number.to_string());
    let dest = kept.to_string_lossy().into_owned();
    let mut args = vec!["test", "-s", "-r", &dest];
    if all {
        for k in 0..threads {
            suite.push_str(&format!("test t{} {{ {} }}\n", k, "r();".repeat(1 + k as usize % 3)));
        }
    } else {
        suite.push_str("test t { r() }\n");
        args.extend(["t", "-t", &t, "-n", &n]);
    }
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    obs.nontrivial();
    obs.label(match threads {
        0..=64 => "up to 64 threads",
        65..=256 => "up to 256 threads",
        _ => "more than 256 threads",
    });
    obs.label(if all { "all tests" } else { "one test" });
    let out = cli::run_in(&args, b"", &[], Some(&dir.0));
    obs.sample(format!("{:?}", args[4..].to_vec()));
    let doing = || -> Outcome {
        cli::sane(&out)?;
        let r = report(&out.text())?;
        let rows = files(&kept, false)?;
        agree(&farm.hits(), &r, Some(&rows), true)?;
        ensure!(rows.len() == threads as usize, "{} record files of {} threads", rows.len(), threads);
        let mut got: Vec<(i64, String, Vec<i64>)> = Vec::new();
        for f in rows.iter().filter(|f| !f.is_empty()) {
            ensure!(f.iter().all(|r| r.thread == f[0].thread && r.test == f[0].test), "a record file with rows of several threads");
            got.push((f[0].thread, f[0].test.clone(), f.iter().map(|r| if all { r.order } else { r.number }).collect()));
        }
        got.sort();
        let numbers: BTreeSet<i64> = got.iter().map(|g| g.0).collect();
        ensure!(numbers.len() == got.len() && numbers.iter().all(|n| *n >= 0 && *n < threads as i64), "threads {:?} of {} have record files", clip(&format!("{:?}", numbers), 300), threads);
        let mut have: Vec<(String, Vec<i64>)> = got.into_iter().map(|g| (g.1, g.2)).collect();
        let mut want: Vec<(String, Vec<i64>)> = (0..threads)
            .map(|k| match all {
                true => (format!("t{}", k), (0..1 + k as i64 % 3).collect::<Vec<i64>>()),
                false => ("t".to_string(), (0..(number / threads + u32::from(k < number % threads)) as i64).collect()),
            })
            .filter(|(_, n)| !n.is_empty())
            .collect();
        have.sort();
        want.sort();
        ensure!(have == want, "rows {}, expected {}", clip(&format!("{:?}", have), 800), clip(&format!("{:?}", want), 800));
        Ok(())
    };
    doing().map_err(|e| format!("{}\n{:?}\nstdout {}\nstderr {}", e, args, clip(&out.text(), 800), clip(&out.err_text(), 500)))
}

pub fn t03() -> Property {
    let crowd = Part::new(
        "crowd",
        "40 to 600 threads (thorough: 2000) of one test with one to three iterations each, or as many tests, around powers of two; requests, reports, rows of each thread, statistics; non-trivial: all",
        (40, 600),
        |t| {
            let most = if t == Tier::Quick { 600u32 } else { 2000 };
            let threads = prop_oneof![2 => (select(vec![64u32, 128, 256, 512]), 0u32..3).prop_map(|(n, d)| n + d), 1 => 40u32..most];
            (threads, 1u32..4, any::<u16>().prop_map(u32::from), prop::bool::weighted(0.3)).boxed()
        },
        check_crowd,
    )
    .shrink(40);
    let runs = Part::new(
        "runs",
        "suites of one to five tests with up to three requests (answered or not) and a statement that fails in some iteration; with or without a name (or one there is not), up to 39 threads, numbers from 0 to 2^32-1, record files, statistics, POD; requests received, reports, rows and counts against a model; non-trivial: more than one thread and request",
        (2400, 60_000),
        run_case,
        check_run,
    )
    .shrink(200);
    let long = Part::new(
        "long",
        "runs of up to 70000 iterations per thread (thorough: 300000) with requests in a few of them, around the limits of small integers, and up to 300 requests in one, by a process that may open 64 files; rows with their numbers against the model; non-trivial: all",
        (64, 1000),
        long_run,
        check_long_run,
    )
    .shrink(60);
    Property {
        id: "T03",
        parts: vec![runs.boxed(), crowd.boxed(), long.boxed()],
        known: vec![],
        assumptions: vec!["requests of top-level statements belong to no test and are not reported"],
    }
}

// ---------------------------------------------------------------- T04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Samples {
    /// looked at after so many as well
    look: Vec<u16>,
    list: Vec<(String, u64)>,
    /// and then all of it so many times again
    again: u32,
}

fn millis() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..50,
        3 => 0u64..100_000,
        1 => select(vec![0u64, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX - 1, u64::MAX]),
        1 => any::<u64>(),
    ]
    .boxed()
}

fn request_name() -> BoxedStrategy<String> {
    prop_oneof![4 => select(vec!["a", "b", "ab", "A", "a1", "count", "sum", "_"]).prop_map(String::from), 1 => "[a-zA-Z_][a-zA-Z0-9_]{0,30}", 1 => "[a-c]"].boxed()
}

fn samples(tier: Tier) -> BoxedStrategy<Samples> {
    let most = if tier == Tier::Quick { 400 } else { 5000 };
    let sample = || (request_name(), millis());
    let list = prop_oneof![
        1 => vec(sample(), 0..2),
        8 => vec(sample(), 2..30),
        2 => vec(sample(), 30..most),
        1 => (vec(request_name(), 1..3), vec(millis(), 1..60)).prop_map(|(n, m)| m.into_iter().enumerate().map(|(i, m)| (n[i % n.len()].clone(), m)).collect::<Vec<_>>()),
    ];
    let again = prop_oneof![120 => Just(0u32), 8 => 1u32..300, 1 => select(vec![32_767u32, 65_534, 65_535, 65_536, 70_000])];
    (vec(any::<u16>(), 0..3), list, again)
        .prop_map(|(look, list, again)| {
            let again = again.min(300_000 / list.len().max(1) as u32);
            Samples { look, list, again }
        })
        .boxed()
}

fn model_stats(list: &[(String, u64)]) -> BTreeMap<String, Line> {
    let mut groups: BTreeMap<&str, Vec<u128>> = BTreeMap::new();
    for (n, m) in list {
        groups.entry(n).or_default().push(*m as u128);
    }
    groups
        .into_iter()
        .map(|(n, v)| {
            let sum: u128 = v.iter().sum();
            let count = v.len() as u128;
            (
                n.to_string(),
                Line {
                    count,
                    sum,
                    avg: sum / count,
                    max: *v.iter().max().unwrap(),
                    min: *v.iter().min().unwrap(),
                },
            )
        })
        .collect()
}

fn check_samples(c: &Samples, obs: &mut Obs) -> Outcome {
    let mut stats = lib::Stats::default();
    let look: BTreeSet<usize> = c.look.iter().map(|l| *l as usize % (c.list.len() + 1)).chain([c.list.len()]).collect();
    let names: BTreeSet<&str> = c.list.iter().map(|l| l.0.as_str()).collect();
    obs.nontrivial_if(names.len() > 1 && c.list.len() > names.len());
    for i in 0..=c.list.len() {
        if look.contains(&i) {
            let text = stats.to_string();
            let mut got = BTreeMap::new();
            for l in text.lines() {
                let (n, l) = stat_line(l).ok_or_else(|| format!("line {:?} in the statistics", l))?;
                ensure!(got.insert(n.clone(), l).is_none(), "{:?} appears twice in {:?}", n, text);
            }
            let want = model_stats(&c.list[..i]);
            ensure!(got == want, "after {} samples {:?}, expected {:?}", i, got, want);
        }
        if let Some((n, m)) = c.list.get(i) {
            stats.add(n, *m as u128);
        }
    }
    if c.again > 0 {
        for (n, m) in std::iter::repeat_n(&c.list, c.again as usize).flatten() {
            stats.add(n, *m as u128);
        }
        let times = c.again as u128 + 1;
        let mut want = model_stats(&c.list);
        for l in want.values_mut() {
            (l.count, l.sum) = (l.count * times, l.sum * times);
        }
        let got: BTreeMap<String, Line> = stats.to_string().lines().filter_map(stat_line).collect();
        ensure!(got == want, "after {} times {:?}: {:?}, expected {:?}", times, c.list, got, want);
        obs.label(if times > 65_535 { "more than 65535 of a name" } else { "again and again" });
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timed {
    /// delay of each request definition, in ms, plus so many for each further one
    delays: Vec<(u16, u16)>,
    steps: Vec<u8>,
    tests: u8,
    all: bool,
    threads: u32,
    number: u32,
    fails: bool,
}

fn check_timed(c: &Timed, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t04");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let delays = c.delays.clone();
    let seen = std::sync::Mutex::new(BTreeMap::<usize, u64>::new());
    let farm = Farm::start(move |target, _| {
        let i: usize = target.trim_start_matches("/r").parse().unwrap_or(0);
        let n = {
            let mut seen = seen.lock().unwrap();
            let n = seen.entry(i).or_default();
            *n += 1;
            *n - 1
        };
        let (base, more) = delays[i % delays.len()];
        (Answer::Reply((base as u64 + more as u64 * n).min(60), reply_with("1")), String::new())
    });
    let mut suite = String::new();
    for i in 0..c.delays.len() {
        suite.push_str(&format!("request r{} `GET http://{}/r{}`\n", i, farm.addr, i));
    }
    for t in 0..c.tests {
        let mut steps: Vec<String> = c.steps.iter().map(|s| format!("r{}()", (*s as usize + t as usize) % c.delays.len())).collect();
        if c.fails && t == 0 {
            steps.push("nowhere".to_string());
        }
        suite.push_str(&format!("test t{} {{ {} }}\n", t, steps.join("; ")));
    }
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let (t, n) = (c.threads.to_string(), c.number.to_string());
    let dest = kept.to_string_lossy().into_owned();
    let mut args = vec!["test", "-s", "-r", &dest, "-t", &t, "-n", &n];
    if !c.all {
        args.push("t0");
    }
    let out = cli::run_in(&args, b"", &[], Some(&dir.0));
    cli::sane(&out)?;
    let r = report(&out.text())?;
    let rows = files(&kept, false)?;
    agree(&farm.hits(), &r, Some(&rows), true)?;
    let want = stats_of_rows(&rows);
    let got: BTreeMap<String, Line> = r.stats.iter().cloned().collect();
    ensure!(got == want, "statistics {:?}, of the records {:?}\nsuite {}", got, want, suite);
    obs.nontrivial_if(want.len() > 1 && want.values().any(|l| l.min < l.max));
    Ok(())
}

pub fn t04() -> Property {
    let histories = Part::new(
        "histories",
        "histories of up to some hundred samples of several names, some repeated to more than 65536 of a name, durations up to 2^64-1 ms, looked at in between; against sums over the list; non-trivial: two names and a repeated one",
        (80_000, 2_000_000),
        samples,
        check_samples,
    )
    .shrink(2000);
    let runs = Part::new(
        "runs",
        "the built command with statistics and record files, one or all of several tests, threads, requests delayed differently by the server, a failing test; the statistics against the total times in the record files; non-trivial: two names, and different times for one",
        (4000, 40_000),
        |_| {
            let delay = prop_oneof![2 => (Just(0u16), Just(0u16)), 3 => (0u16..12, 0u16..4)];
            (vec(delay, 1..4), vec(any::<u8>(), 0..4), 1u8..4, any::<bool>(), 1u32..5, 1u32..9, any::<bool>())
                .prop_map(|(delays, steps, tests, all, threads, number, fails)| Timed { delays, steps, tests, all, threads, number, fails })
                .boxed()
        },
        check_timed,
    )
    .shrink(60);
    Property {
        id: "T04",
        parts: vec![histories.boxed(), runs.boxed()],
        known: vec![],
        assumptions: vec!["the sum of the samples of a name is below 2^128"],
    }
}

// ---------------------------------------------------------------- T05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Move {
    /// binds one of the shared names
    Bind(u8, String),
    /// copies one shared name to another
    Copy(u8, u8),
    /// sends everything, and keeps what comes back
    Step,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chains {
    tests: Vec<Vec<Move>>,
    /// one test by name, or all
    named: bool,
    threads: u32,
    number: u32,
    /// a top-level request whose answer all start from
    login: bool,
    pad: u32,
    delays: Vec<u8>,
}

const SHARED: [&str; 3] = ["alpha", "beta", "gamma"];

fn chains(tier: Tier) -> BoxedStrategy<Chains> {
    let most = if tier == Tier::Quick { 16u32 } else { 48 };
    let step = prop_oneof![
        2 => (0u8..3, "[a-z]{1,4}").prop_map(|(n, v)| Move::Bind(n, v)),
        1 => (0u8..3, 0u8..3).prop_map(|(a, b)| Move::Copy(a, b)),
        3 => Just(Move::Step),
    ];
    let threads = prop_oneof![1 => Just(1u32), 4 => 2u32..9, 2 => 9u32..most];
    let pad = prop_oneof![3 => 0u32..10, 2 => 100u32..3000, 1 => 8000u32..20_000];
    let delays = prop_oneof![1 => Just(vec![0u8]), 2 => vec(0u8..5, 1..8)];
    (vec(vec(step, 1..7), 1..8), any::<bool>(), threads, 1u32..7, any::<bool>(), pad, delays)
        .prop_map(|(mut tests, named, threads, each, login, pad, delays)| {
            for t in tests.iter_mut() {
                if !t.iter().any(|m| matches!(m, Move::Step)) {
                    t.push(Move::Step);
                }
            }
            Chains {
                tests,
                named,
                threads,
                number: threads * each - threads / 2,
                login,
                pad,
                delays,
            }
        })
        .boxed()
}

/// The targets a thread sends, without the tokens, from so many iterations.
fn expected_chain(moves: &[Move], iterations: u32, who: &str) -> Vec<String> {
    let mut v: Vec<String> = SHARED.iter().map(|n| format!("suite-{}", n)).collect();
    let mut sent = 0;
    let mut out = Vec::new();
    for _ in 0..iterations {
        for m in moves {
            match m {
                Move::Bind(n, t) => v[*n as usize % 3] = format!("{}-{}", who, t),
                Move::Copy(a, b) => v[*a as usize % 3] = v[*b as usize % 3].clone(),
                Move::Step => {
                    out.push(format!("/step/{}/{}/{}/{}/", v[0], v[1], v[2], sent));
                    sent += 1;
                }
            }
        }
    }
    out
}

fn split_target(t: &str) -> (String, String) {
    match t.rfind('/') {
        Some(i) => (t[..=i].to_string(), t[i + 1..].to_string()),
        None => (t.to_string(), String::new()),
    }
}

fn check_chains(c: &Chains, obs: &mut Obs) -> Outcome {
    let dir = Scratch::new("t05");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (pad, delays) = (c.pad as usize, c.delays.clone());
    let farm = Farm::start(move |_, _| {
        let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let token = format!("u{}", n);
        let filler: String = format!("{}.", token).chars().cycle().take(pad).collect();
        let body = format!("{{\"token\": \"{}\", \"pad\": \"{}\"}}", token, filler);
        (Answer::Reply(delays[n % delays.len()] as u64, reply_with(&body)), token)
    });
    let at = farm.addr;
    let mut suite = String::new();
    for n in SHARED {
        suite.push_str(&format!("let {} = \"suite-{}\";\n", n, n));
    }
    suite.push_str("let log = [];\nlet n = 0;\nlet token = \"seed\";\n");
    suite.push_str(&format!("request login `POST http://{}/login`\n", at));
    suite.push_str(&format!(
        "request step `POST http://{}/step/{{alpha}}/{{beta}}/{{gamma}}/{{n}}/{{token}}\nX-Token: {{token}}\n\n{{alpha}} {{beta}} {{gamma}} {{token}}`[json.token == json.token, json.pad == json.pad, status == 200]\n",
        at
    ));
    if c.login {
        suite.push_str("let token = login().json.token;\n");
    }
    let tests: Vec<(String, &Vec<Move>)> = c.tests.iter().enumerate().map(|(i, t)| (format!("w{}", i), t)).collect();
    for (who, moves) in &tests {
        let mut lines = Vec::new();
        for m in moves.iter() {
            match m {
                Move::Bind(n, t) => lines.push(format!("let {} = \"{}-{}\"", SHARED[*n as usize % 3], who, t)),
                Move::Copy(a, b) => lines.push(format!("let {} = {}", SHARED[*a as usize % 3], SHARED[*b as usize % 3])),
                Move::Step => lines.push("let answer = step(); let token = answer.json.token; let log = append(log, token); let n = length(log)".to_string()),
            }
        }
        suite.push_str(&format!("test {} {{ {} }}\n", who, lines.join("; ")));
    }
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let (t, n) = (c.threads.to_string(), c.number.to_string());
    let dest = kept.to_string_lossy().into_owned();
    let mut args = vec!["test", "-r", &dest];
    if c.named {
        args.extend(["w0", "-t", &t, "-n", &n]);
    }
    let out = cli::run_in(&args, b"", &[], Some(&dir.0));
    cli::sane(&out)?;
    obs.sample(format!("{} with {}", args[3..].join(" "), clip(&suite, 700)));
    obs.label(if c.named { "threads" } else { "tests" });
    let all = farm.hits();
    let (logins, hits): (Vec<Hit>, Vec<Hit>) = all.into_iter().partition(|h| h.target == "/login");
    ensure!(logins.len() == usize::from(c.login), "{} requests of the top level", logins.len());
    let seed = logins.first().map_or("seed".to_string(), |h| h.note.clone());
    let mut expected: Vec<Vec<String>> = Vec::new();
    if c.named {
        for k in 0..c.threads {
            expected.push(expected_chain(tests[0].1, c.number / c.threads + u32::from(k < c.number % c.threads), &tests[0].0));
        }
    } else {
        for (who, moves) in &tests {
            expected.push(expected_chain(moves, 1, who));
        }
    }
    expected.retain(|e| !e.is_empty());
    expected.sort();
    obs.nontrivial_if(expected.len() > 1 && hits.len() > expected.len());
    // what a request carries is of one piece
    let mut by_token: BTreeMap<String, &Hit> = BTreeMap::new();
    let mut starts = Vec::new();
    for h in &hits {
        let (head, token) = split_target(&h.target);
        let w = crate::wire::request(&h.bytes)?;
        let parts: Vec<&str> = head.split('/').collect();
        ensure!(parts.len() == 7, "target {:?}", h.target);
        let want = format!("{} {} {} {}", parts[2], parts[3], parts[4], token);
        ensure!(w.values("X-Token") == [token.as_str()] && w.body == want.as_bytes(), "a request with parts of several: {}", crate::wire::show(&h.bytes));
        if token == seed {
            starts.push(h);
        } else {
            ensure!(by_token.insert(token.clone(), h).is_none(), "the answer {} given to one thread is used twice", token);
        }
    }
    // follow each chain
    let mut got: Vec<Vec<String>> = Vec::new();
    let mut tokens: Vec<Vec<(String, String)>> = Vec::new();
    for s in starts {
        let mut chain = vec![split_target(&s.target).0];
        let mut links = vec![(s.target.clone(), s.note.clone())];
        let mut at = s;
        while let Some(h) = by_token.remove(&at.note) {
            chain.push(split_target(&h.target).0);
            links.push((h.target.clone(), h.note.clone()));
            at = h;
        }
        got.push(chain);
        tokens.push(links);
    }
    ensure!(by_token.is_empty(), "requests with answers from nowhere: {:?}", by_token.keys());
    got.sort();
    ensure!(got == expected, "chains {}, expected {}\nsuite {}", clip(&format!("{:?}", got), 1500), clip(&format!("{:?}", expected), 1500), clip(&suite, 1500));
    // record files
    let mut rows: Vec<Vec<(String, String)>> = Vec::new();
    for f in files(&kept, false)? {
        let mut links = Vec::new();
        for r in f {
            let token = r.body.split('"').nth(3).unwrap_or("").to_string();
            links.push((r.target, token));
        }
        if !links.is_empty() {
            rows.push(links);
        }
    }
    rows.sort();
    tokens.sort();
    ensure!(rows == tokens, "record files {}, requests received {}", clip(&format!("{:?}", rows), 1500), clip(&format!("{:?}", tokens), 1500));
    // reports
    let r = report(&out.text())?;
    let mut told: Vec<String> = Vec::new();
    for b in &r.blocks {
        ensure!(b.name == "step" && b.pass && b.lines.len() == 3, "report {}", clip(&format!("{:?}", b), 600));
        let token = b.lines[0].split(" == ").nth(2).and_then(|t| t.strip_suffix(" => true")).unwrap_or("").to_string();
        let filler: String = format!("{}.", token).chars().cycle().take(pad).collect();
        let want = format!("json.pad == json.pad => {} == {} => true", filler, filler);
        ensure!(b.lines[1] == want && b.lines[2] == "status == 200 => 200 == 200 => true", "a report with lines of several: {}", clip(&format!("{:?}", b), 1500));
        told.push(token);
    }
    told.sort();
    let mut issued: Vec<String> = hits.iter().map(|h| h.note.clone()).collect();
    issued.sort();
    ensure!(told == issued, "reports of {:?}, answers {:?}", told, issued);
    ensure!(r.rest.is_empty(), "lines outside of reports: {}", clip(&format!("{:?}", r.rest), 600));
    Ok(())
}

pub fn t05() -> Property {
    let part = Part::new(
        "chains",
        "tests (all, or one by up to 47 threads) that bind and copy shared names and send them with the token the server gave in the last answer, so that every use of another's value breaks a chain; requests received, record files and reports followed token by token; answers of up to 20 kB in the reports; non-trivial: two chains and one longer than one",
        (2400, 60_000),
        chains,
        check_chains,
    )
    .shrink(150);
    Property {
        id: "T05",
        parts: vec![part.boxed()],
        known: vec![],
        assumptions: vec!["schedules are those of the operating system, varied by delays of the server"],
    }
}

// ---------------------------------------------------------------- T06

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Stop {
    /// SIGINT so many ms after the first request
    Interrupt(u16),
    /// SIGINT in a run with a duration that is not over yet
    Early(u16),
    /// SIGINT twice, the second so many ms after the first
    Twice(u16, u16),
    /// the duration, one second
    Duration,
    /// the duration, and SIGINT so many ms after it
    Both(u16),
    /// SIGKILL so many ms after the start
    Kill(u16),
    /// SIGKILL right after the request with this number
    KillAt(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stopped {
    stop: Stop,
    threads: u32,
    /// delays of the requests of an iteration
    steps: Vec<u16>,
    stat: bool,
    /// all tests, each once
    all: bool,
    pad: u32,
}

struct Chain {
    /// (target, token answered)
    links: Vec<(String, String)>,
    /// when each iteration started
    starts: Vec<Instant>,
}

/// Chains of requests by the tokens they carry; `/K/TOKEN` is step K of an iteration.
fn chains_of(hits: &[Hit]) -> Result<Vec<Chain>, String> {
    let mut by_token: BTreeMap<String, &Hit> = BTreeMap::new();
    let mut firsts = Vec::new();
    for h in hits {
        let (_, token) = split_target(&h.target);
        if token == "seed" {
            firsts.push(h);
        } else {
            ensure!(by_token.insert(token.clone(), h).is_none(), "answer {} used twice", token);
        }
    }
    let mut out = Vec::new();
    for f in firsts {
        let mut c = Chain {
            links: Vec::new(),
            starts: Vec::new(),
        };
        let mut at = Some(f);
        while let Some(h) = at {
            if h.target.starts_with("/r0/") {
                c.starts.push(h.at);
            }
            c.links.push((h.target.clone(), h.note.clone()));
            at = by_token.remove(&h.note);
        }
        out.push(c);
    }
    ensure!(by_token.is_empty(), "requests with answers from nowhere");
    Ok(out)
}

struct Ended {
    /// iterations started so long after the stop, in ms, when late
    late: Option<String>,
    requests: usize,
    iterations: usize,
}

fn stopped(c: &Stopped, scale: u64) -> Result<Ended, String> {
    let dir = Scratch::new("t06");
    let kept = dir.0.join("kept");
    std::fs::create_dir_all(&kept).expect("scratch");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (steps, pad) = (c.steps.clone(), c.pad as usize);
    let farm = Farm::start(move |target, _| {
        let n = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let k: usize = target.trim_start_matches("/r").split('/').next().and_then(|k| k.parse().ok()).unwrap_or(0);
        let token = format!("u{}", n);
        (
            Answer::Reply(steps[k % steps.len()] as u64 * scale, reply_with(&format!("{{\"token\": \"{}\", \"pad\": \"{}\"}}", token, "x".repeat(pad)))),
            token,
        )
    });
    let mut suite = "let token = \"seed\"\n".to_string();
    for k in 0..c.steps.len() {
        suite.push_str(&format!("request r{} `GET http://{}/r{}/{{token}}`[status == 200]\n", k, farm.addr, k));
    }
    let body: Vec<String> = (0..c.steps.len()).map(|k| format!("let token = r{}().json.token", k)).collect();
    for t in 0..(if c.all { c.threads } else { 1 }) {
        suite.push_str(&format!("test t{} {{ {} }}\n", t, body.join("; ")));
    }
    std::fs::write(dir.0.join("s.fan"), &suite).expect("suite");
    let (t, dest) = (c.threads.to_string(), kept.to_string_lossy().into_owned());
    let mut args = vec!["test", "-r", &dest];
    if c.stat {
        args.push("-s");
    }
    if !c.all {
        args.extend(["t0", "-t", &t]);
        match c.stop {
            Stop::Duration | Stop::Both(_) => args.extend(["-d", "1s"]),
            Stop::Early(_) => args.extend(["-d", "3000s"]),
            _ => args.extend(["-n", "1000000000"]),
        }
    }
    let begun = Instant::now();
    let run = cli::start(&args, &[], Some(&dir.0), Some(vec![]));
    let first = |run: &cli::Running| -> Result<(), String> {
        let limit = Instant::now() + Duration::from_secs(20);
        while farm.count() == 0 {
            if Instant::now() > limit {
                cli::kill(&run.child, libc::SIGKILL);
                return Err("no request in 20 s".to_string());
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        Ok(())
    };
    let at = match c.stop {
        Stop::Interrupt(ms) | Stop::Early(ms) => {
            first(&run)?;
            std::thread::sleep(Duration::from_millis(ms as u64 * scale));
            let at = Instant::now();
            cli::kill(&run.child, libc::SIGINT);
            at
        }
        Stop::Twice(ms, more) => {
            first(&run)?;
            std::thread::sleep(Duration::from_millis(ms as u64 * scale));
            let at = Instant::now();
            cli::kill(&run.child, libc::SIGINT);
            std::thread::sleep(Duration::from_millis(more as u64 * scale));
            cli::kill(&run.child, libc::SIGINT);
            at
        }
        Stop::Duration | Stop::Both(_) => {
            first(&run)?;
            let at = Instant::now() + Duration::from_secs(1);
            if let Stop::Both(ms) = c.stop {
                std::thread::sleep(Duration::from_millis(1000 + ms as u64));
                cli::kill(&run.child, libc::SIGINT);
            }
            at
        }
        Stop::Kill(ms) => {
            std::thread::sleep(Duration::from_millis(ms as u64));
            cli::kill(&run.child, libc::SIGKILL);
            Instant::now()
        }
        Stop::KillAt(n) => {
            first(&run)?;
            let limit = Instant::now() + Duration::from_secs(5);
            while farm.count() <= n as usize && Instant::now() < limit {
                std::thread::sleep(Duration::from_micros(20));
            }
            cli::kill(&run.child, libc::SIGKILL);
            Instant::now()
        }
    };
    let out = run.wait(Duration::from_secs(120));
    let wall = begun.elapsed();
    let killed = matches!(c.stop, Stop::Kill(_) | Stop::KillAt(_));
    let hits = farm.hits();
    let chains = chains_of(&hits)?;
    let rows = files(&kept, killed)?;
    ensure!(rows.len() <= c.threads as usize, "{} record files of {} threads", rows.len(), c.threads);
    let iteration = c.steps.len();
    // each file is the start of one chain
    let mut left: Vec<&Chain> = chains.iter().collect();
    let mut iterations = 0;
    for f in &rows {
        let Some(head) = f.first() else { continue };
        for (i, r) in f.iter().enumerate() {
            let place = (r.number, r.order, r.thread, r.test.as_str());
            let want = ((i / iteration) as i64, (i % iteration) as i64, head.thread, head.test.as_str());
            ensure!(place == want, "row {} of a record file is {:?}, expected {:?}", i, place, want);
        }
        ensure!(f.len() % iteration == 0, "{} rows of iterations of {} requests", f.len(), iteration);
        let links: Vec<(String, String)> = f.iter().map(|r| (r.target.clone(), r.body.split('"').nth(3).unwrap_or("").to_string())).collect();
        let Some(p) = left.iter().position(|c| c.links[0] == links[0]) else {
            return Err(format!("a record file of requests that were not made: {:?}", links[0]));
        };
        let chain = left.remove(p);
        ensure!(chain.links.len() >= links.len() && chain.links[..links.len()] == links[..], "a record file with other requests than its thread made");
        let done = f.len() / iteration;
        ensure!(done + 1 >= chain.starts.len(), "{} iterations in the record file of a thread that has started {}", done, chain.starts.len());
        iterations += done;
    }
    for c in left {
        ensure!(c.starts.len() <= 1, "no rows in the record file of a thread that has started {} iterations", c.starts.len());
    }
    let mut late = None;
    if !killed {
        cli::sane(&out).map_err(|e| format!("{} (stopped by {:?})", e, c.stop))?;
        ensure!(out.code == Some(0), "exit code {:?}, stderr {:?}", out.code, clip(&out.err_text(), 500));
        for c in &chains {
            ensure!(c.links.len() % iteration == 0, "an iteration was not completed: {} requests of iterations of {}", c.links.len(), iteration);
        }
        let r = report(&out.text())?;
        agree(&hits, &r, Some(&rows), c.stat)?;
        ensure!(r.blocks.iter().all(|b| b.pass && b.lines.len() == 1), "a report of a request that was answered: {:?}", r.blocks.iter().find(|b| !b.pass));
        if c.stat {
            let got: BTreeMap<String, Line> = r.stats.iter().cloned().collect();
            ensure!(got == stats_of_rows(&rows), "statistics {:?}, of the records {:?}", got, stats_of_rows(&rows));
        }
        if matches!(c.stop, Stop::Duration | Stop::Both(_)) {
            ensure!(wall >= Duration::from_millis(990), "a run of 1 s ends after {:?}", wall);
        }
        if !c.all {
            let margin = Duration::from_millis(120 * scale);
            let worst = chains.iter().flat_map(|c| &c.starts).max();
            if let Some(w) = worst.filter(|w| **w > at + margin) {
                late = Some(format!("an iteration was started {:?} after the stop", *w - at));
            }
        }
    }
    Ok(Ended {
        late,
        requests: hits.len(),
        iterations,
    })
}

fn check_stopped(c: &Stopped, obs: &mut Obs) -> Outcome {
    let e = stopped(c, 1).map_err(|e| format!("{}; {:?}", e, c))?;
    obs.nontrivial_if(e.requests > c.steps.len() || e.iterations > 0);
    obs.label(match c.stop {
        Stop::Interrupt(_) => "interrupt",
        Stop::Early(_) => "interrupt before the end of the duration",
        Stop::Twice(..) => "interrupt twice",
        Stop::Duration => "duration",
        Stop::Both(_) => "duration and interrupt",
        Stop::Kill(_) | Stop::KillAt(_) => "kill",
    });
    if e.late.is_none() {
        return Ok(());
    }
    // slower, to tell the machine's delays from the program's; each must show it again
    obs.label("confirming");
    for scale in [3, 3, 6] {
        obs.extra += 1;
        match stopped(c, scale).map_err(|e| format!("{}; {:?}", e, c))?.late {
            None => return Ok(()),
            Some(l) if scale == 6 => return Err(format!("{} (with delays six times as long); {:?}", l, c)),
            _ => {}
        }
    }
    Ok(())
}

pub fn t06() -> Property {
    let slow = || (vec(60u16..200, 1..4), 1u32..6);
    let fast = || (vec(0u16..4, 1..4), 1u32..9);
    let make = |stop: Stop, (steps, threads): (Vec<u16>, u32), stat: bool, all: bool, pad: u32| Stopped { stop, threads, steps, stat, all, pad };
    let interrupt = Part::new(
        "interrupt",
        "SIGINT at a random moment, or two, to runs of iterations that take some hundred ms, also before a duration is over; iterations started after it, whole iterations, reports, record files, statistics; non-trivial: more than an iteration of requests",
        (500, 8000),
        move |_| {
            let stop = prop_oneof![4 => (0u16..500).prop_map(Stop::Interrupt), 2 => (0u16..500).prop_map(Stop::Early), 1 => (0u16..300, prop_oneof![1 => Just(0u16), 3 => 0u16..300]).prop_map(|(a, b)| Stop::Twice(a, b))];
            (stop, slow(), any::<bool>()).prop_map(move |(s, p, stat)| make(s, p, stat, false, 0)).boxed()
        },
        check_stopped,
    )
    .shrink(8);
    let quick = Part::new(
        "interrupt-fast",
        "SIGINT at a random moment to runs of many short iterations; the same; non-trivial: more than an iteration of requests",
        (2500, 60_000),
        move |_| (prop_oneof![Just(0u16), 0u16..150].prop_map(Stop::Interrupt), fast(), any::<bool>(), 0u32..3000).prop_map(move |(s, p, stat, pad)| make(s, p, stat, false, pad)).boxed(),
        check_stopped,
    )
    .shrink(8);
    let duration = Part::new(
        "duration",
        "a duration of one second with iterations of all lengths; the same; non-trivial: more than an iteration of requests",
        (240, 4000),
        move |_| {
            let pace = prop_oneof![2 => slow().boxed(), 1 => (vec(10u16..60, 1..4), 1u32..6).boxed()];
            let stop = prop_oneof![5 => Just(Stop::Duration), 1 => (0u16..200).prop_map(Stop::Both)];
            (stop, pace, any::<bool>()).prop_map(move |(s, p, stat)| make(s, p, stat, false, 0)).boxed()
        },
        check_stopped,
    )
    .shrink(4);
    let patient = Part::new(
        "patient",
        "the same stops in the middle of iterations that take 3 to 12 s (thorough: 40 s); non-trivial: all",
        (24, 240),
        move |t| {
            let most = if t == Tier::Quick { 12_000u16 } else { 40_000 };
            let stop = prop_oneof![(0u16..900).prop_map(Stop::Interrupt), (0u16..900).prop_map(Stop::Early), (0u16..900, 0u16..900).prop_map(|(a, b)| Stop::Twice(a, b)), Just(Stop::Duration), (0u16..900).prop_map(Stop::Both)];
            let steps = (vec(0u16..100, 0..2), 3000u16..most, vec(0u16..100, 0..2)).prop_map(|(a, b, c)| [a, vec![b], c].concat());
            (stop, steps, 1u32..5, any::<bool>()).prop_map(move |(s, steps, threads, stat)| make(s, (steps, threads), stat, false, 0)).boxed()
        },
        check_stopped,
    )
    .shrink(3);
    let kill = Part::new(
        "kill",
        "SIGKILL at a random moment, from before the first request on, to runs of one or all tests; record files readable, the thread's own requests from the first on, at most the iteration in progress missing; non-trivial: more than an iteration of requests",
        (700, 60_000),
        move |_| {
            let stop = prop_oneof![1 => (0u16..200).prop_map(Stop::Kill), 2 => (0u16..120).prop_map(Stop::KillAt)];
            (stop, fast(), any::<bool>(), prop::bool::weighted(0.15), prop_oneof![3 => 0u32..10, 1 => 20_000u32..60_000])
                .prop_map(move |(s, p, stat, all, pad)| make(s, p, stat, all, pad))
                .boxed()
        },
        check_stopped,
    )
    .shrink(20);
    Property {
        id: "T06",
        parts: vec![kill.boxed(), quick.boxed(), interrupt.boxed(), duration.boxed(), patient.boxed()],
        known: vec![],
        assumptions: vec!["an iteration started within 120 ms of the stop (of six times slower runs: 720 ms) is taken for one started before it", "SIGKILL of the process, not a loss of power"],
    }
}
