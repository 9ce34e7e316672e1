//! The framework: parts of a check, seeded generation with proptest, shrinking, evidence, replay,
//! and a parent that survives (and reports) crashes and hangs of the code under test.

use proptest::strategy::BoxedStrategy;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn verif_dir() -> PathBuf {
    match std::env::var("VERIF_DIR") {
        Ok(dir) => PathBuf::from(dir),
        Err(_) => Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf(),
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    /// further executions of the code under test within the case
    pub extra: u64,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into())
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into())
    }
}

/// Err is a violation of the property; a panic inside the harness is an error of the check.
pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

#[derive(Default, Serialize, Deserialize)]
pub struct PartOut {
    pub evaluations: u64,
    pub executions: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(serde_json::Value, String)>,
    pub harness_error: Option<String>,
    pub wall_s: f64,
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
}

pub trait PartDyn: Send + Sync {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn run(&self, id: &str, env: &Env) -> PartOut;
    fn replay(&self, case: serde_json::Value) -> Result<Outcome, String>;
}

pub struct Part<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub threads: usize,
    pub shrink_iters: u32,
    pub stack: usize,
    pub cpu_limit: f64,
    pub wall_limit: f64,
    pub strategy: Box<dyn Fn(Tier) -> BoxedStrategy<C> + Send + Sync>,
    pub check: Box<dyn Fn(&C, &mut Obs) -> Outcome + Send + Sync>,
}

impl<C: Debug + Clone + Serialize + DeserializeOwned + 'static> Part<C> {
    pub fn new<S, F>(name: &'static str, rule: &'static str, (quick, thorough): (u32, u32), strategy: S, check: F) -> Self
    where
        S: Fn(Tier) -> BoxedStrategy<C> + Send + Sync + 'static,
        F: Fn(&C, &mut Obs) -> Outcome + Send + Sync + 'static,
    {
        Part {
            name,
            rule,
            quick,
            thorough,
            threads: 1,
            shrink_iters: 3000,
            stack: 8 << 20,
            cpu_limit: 40.0,
            wall_limit: 200.0,
            strategy: Box::new(strategy),
            check: Box::new(check),
        }
    }
    /// seconds of processor time a case may use
    pub fn cpu(mut self, seconds: f64) -> Self {
        self.cpu_limit = seconds;
        self
    }
    /// seconds a case may wait
    pub fn wall(mut self, seconds: f64) -> Self {
        self.wall_limit = seconds;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink_iters = n;
        self
    }
    pub fn stack(mut self, n: usize) -> Self {
        self.stack = n;
        self
    }
    pub fn boxed(self) -> Box<dyn PartDyn> {
        Box::new(self)
    }
}

pub fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let in_case = IN_CASE.with(|b| *b.borrow());
        PANIC.with(|p| *p.borrow_mut() = Some((location, message)));
        if !in_case {
            default(info);
        }
    }));
}

/// Runs the check on a case. Ok(outcome), or Err for an error of the harness.
pub fn guarded<C>(check: &dyn Fn(&C, &mut Obs) -> Outcome, case: &C, obs: &mut Obs) -> Result<Outcome, String> {
    IN_CASE.with(|b| *b.borrow_mut() = true);
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(case, obs)));
    IN_CASE.with(|b| *b.borrow_mut() = false);
    match result {
        Ok(outcome) => Ok(outcome),
        Err(_) => {
            let (location, message) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a file of this crate is given relative to it, one of the code under test by its own path
            if location.starts_with("src/") || location.contains("harness/src/") || location.contains("/proptest-") {
                Err(format!("harness panic at {}: {}", location, message))
            } else {
                Ok(Err(format!("panic at {}: {}", location, message)))
            }
        }
    }
}

// ---- the case being run, readable by the parent after a crash ----

const SLOT: usize = 4 << 20;
const MAX_WORKERS: usize = 16;

struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
static SLOTS: std::sync::OnceLock<Slots> = std::sync::OnceLock::new();

fn open_slots(path: &Path) {
    let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
    file.set_len((SLOT * MAX_WORKERS) as u64).expect("slot size");
    use std::os::fd::AsRawFd;
    let base = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOT * MAX_WORKERS,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            file.as_raw_fd(),
            0,
        )
    };
    assert!(base != libc::MAP_FAILED, "mmap");
    let _ = SLOTS.set(Slots { base: base as *mut u8 });
}

fn write_slot(worker: usize, part: &str, case: &str) {
    if let Some(slots) = SLOTS.get() {
        let text = format!("{}\n{}", part, case);
        if text.len() + 8 <= SLOT {
            unsafe {
                let p = slots.base.add(worker * SLOT);
                std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(8), text.len());
                std::ptr::write_volatile(p as *mut u64, text.len() as u64);
            }
        }
    }
}

fn clear_slot(worker: usize) {
    if let Some(slots) = SLOTS.get() {
        unsafe { std::ptr::write_volatile(slots.base.add(worker * SLOT) as *mut u64, 0) }
    }
}

fn read_slots(path: &Path) -> Vec<(String, serde_json::Value)> {
    let mut out = Vec::new();
    use std::os::unix::fs::FileExt;
    let Ok(file) = std::fs::File::open(path) else { return out };
    for worker in 0..MAX_WORKERS {
        let mut len = [0u8; 8];
        if file.read_exact_at(&mut len, (worker * SLOT) as u64).is_err() {
            break;
        }
        let len = u64::from_ne_bytes(len) as usize;
        if len > 0 && len + 8 <= SLOT {
            let mut text = vec![0u8; len];
            if file.read_exact_at(&mut text, (worker * SLOT + 8) as u64).is_ok() {
                if let Ok(text) = String::from_utf8(text) {
                    if let Some((part, case)) = text.split_once('\n') {
                        if let Ok(case) = serde_json::from_str(case) {
                            out.push((part.to_string(), case));
                        }
                    }
                }
            }
        }
    }
    out
}

// ---- watchdog: CPU time spent on one case ----

struct Watch {
    clock: libc::clockid_t,
    case: AtomicU64,
    cpu_limit: f64,
    wall_limit: f64,
    done: AtomicBool,
}

fn thread_clock() -> libc::clockid_t {
    unsafe {
        let mut clock: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
        clock
    }
}

fn clock_s(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut t) != 0 {
            return -1.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

const EXIT_CPU: i32 = 97;
const EXIT_WALL: i32 = 98;

/// Another process of the check has found something.
static STOPPED: AtomicBool = AtomicBool::new(false);
static STOP_FILE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

fn watch(watches: Vec<Arc<Watch>>) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, f64, Instant)> = watches.iter().map(|w| (u64::MAX, clock_s(w.clock), Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(300));
            if STOP_FILE.get().is_some_and(|f| f.exists()) {
                STOPPED.store(true, Ordering::SeqCst);
            }
            let mut all = true;
            for (w, last) in watches.iter().zip(last.iter_mut()) {
                if w.done.load(Ordering::SeqCst) {
                    continue;
                }
                all = false;
                let case = w.case.load(Ordering::SeqCst);
                let cpu = clock_s(w.clock);
                if case != last.0 {
                    *last = (case, cpu, Instant::now());
                } else if cpu - last.1 > w.cpu_limit {
                    unsafe { libc::_exit(EXIT_CPU) }
                } else if last.2.elapsed().as_secs_f64() > w.wall_limit {
                    unsafe { libc::_exit(EXIT_WALL) }
                }
            }
            if all {
                break;
            }
        }
    });
}

pub fn rng_seed(seed: u64, id: &str, part: &str, shard: usize, worker: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let h = hash_of(&format!("{}/{}/{}/{}/{}/{}", seed, id, part, shard, worker, i));
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

impl<C: Debug + Clone + Serialize + DeserializeOwned + 'static> PartDyn for Part<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn run(&self, id: &str, env: &Env) -> PartOut {
        let started = Instant::now();
        let total = match env.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        } as usize;
        // a part of the cases only (development aid)
        let total = match std::env::var("VERIF_PERCENT").ok().and_then(|p| p.parse::<usize>().ok()) {
            Some(percent) => (total * percent / 100).max(total.min(20)),
            None => total,
        };
        let slots = env.shards * self.threads;
        let out = Mutex::new(PartOut::default());
        let stop = AtomicBool::new(false);
        let barrier = std::sync::Barrier::new(self.threads + 1);
        let watches: Mutex<Vec<Arc<Watch>>> = Mutex::new(Vec::new());
        std::thread::scope(|scope| {
            for worker in 0..self.threads {
                let index = env.shard * self.threads + worker;
                let cases = total / slots + usize::from(index < total % slots);
                let (out, stop, barrier, watches) = (&out, &stop, &barrier, &watches);
                let body = move || {
                    let watch = Arc::new(Watch {
                        clock: thread_clock(),
                        case: AtomicU64::new(0),
                        // what used up the limit among others may be faster alone
                    cpu_limit: self.cpu_limit / 2.0,
                        wall_limit: self.wall_limit,
                        done: AtomicBool::new(false),
                    });
                    watches.lock().unwrap().push(watch.clone());
                    barrier.wait();
                    if cases > 0 {
                        self.work(id, env, worker, cases as u32, out, stop, &watch);
                    }
                    watch.done.store(true, Ordering::SeqCst);
                };
                std::thread::Builder::new().stack_size(self.stack).spawn_scoped(scope, body).expect("spawn");
            }
            barrier.wait();
            watch(watches.lock().unwrap().clone());
        });
        let mut out = out.into_inner().unwrap();
        out.wall_s = started.elapsed().as_secs_f64();
        out
    }
    fn replay(&self, case: serde_json::Value) -> Result<Outcome, String> {
        let raw = case;
        let _: C = serde_json::from_value(raw.clone()).map_err(|e| format!("replay file: {}", e))?;
        std::thread::scope(|scope| {
            let body = || {
                let w = Arc::new(Watch {
                    clock: thread_clock(),
                    case: AtomicU64::new(0),
                    cpu_limit: self.cpu_limit,
                    wall_limit: self.wall_limit,
                    done: AtomicBool::new(false),
                });
                watch(vec![w.clone()]);
                let mut obs = Obs::default();
                let case: C = serde_json::from_value(raw.clone()).expect("case");
                let r = guarded(&*self.check, &case, &mut obs);
                w.done.store(true, Ordering::SeqCst);
                r
            };
            std::thread::Builder::new().stack_size(self.stack).spawn_scoped(scope, body).expect("spawn").join().expect("replay")
        })
    }
}

impl<C: Debug + Clone + Serialize + DeserializeOwned + 'static> Part<C> {
    #[allow(clippy::too_many_arguments)]
    fn work(&self, id: &str, env: &Env, worker: usize, cases: u32, out: &Mutex<PartOut>, stop: &AtomicBool, watch: &Watch) {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: if std::env::var_os("VERIF_NO_SHRINK").is_some() { 0 } else { self.shrink_iters },
            max_shrink_time: 60_000,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(env.seed, id, self.name, env.shard, worker));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)(env.tier).no_shrink_if(self.shrink_iters == 0);
        let failed = std::cell::Cell::new(false);
        let harness: RefCell<Option<String>> = RefCell::new(None);
        let local = RefCell::new(PartOut::default());
        let result = runner.run(&strategy, |case| {
            if harness.borrow().is_some() || ((stop.load(Ordering::Relaxed) || STOPPED.load(Ordering::Relaxed)) && !failed.get()) {
                return Ok(());
            }
            let json = serde_json::to_string(&case).expect("case to json");
            write_slot(worker, self.name, &json);
            watch.case.fetch_add(1, Ordering::SeqCst);
            let mut obs = Obs::default();
            let r = guarded(&*self.check, &case, &mut obs);
            clear_slot(worker);
            match r {
                Err(e) => {
                    *harness.borrow_mut() = Some(format!("{} [case {}]", e, clip(&json, 2000)));
                    stop.store(true, Ordering::Relaxed);
                    Ok(())
                }
                Ok(outcome) => {
                    if !failed.get() {
                        let mut local = local.borrow_mut();
                        local.evaluations += 1;
                        local.executions += 1 + obs.extra;
                        for l in obs.labels {
                            *local.labels.entry(l).or_default() += 1;
                        }
                        if obs.nontrivial && local.distinct.insert(hash_of(&json)) && local.samples.len() < 2 {
                            let s = obs.sample.unwrap_or(json);
                            local.samples.push(clip(&s, 600));
                        }
                    }
                    outcome.map_err(|e| {
                        failed.set(true);
                        stop.store(true, Ordering::Relaxed);
                        TestCaseError::fail(e)
                    })
                }
            }
        });
        let local = local.into_inner();
        let mut out = out.lock().unwrap();
        out.evaluations += local.evaluations;
        out.executions += local.executions;
        out.distinct.extend(local.distinct);
        for (l, n) in local.labels {
            *out.labels.entry(l).or_default() += n;
        }
        if out.samples.len() < 3 {
            out.samples.extend(local.samples);
        }
        if let Some(e) = harness.into_inner() {
            out.harness_error = Some(e);
        }
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                out.failure = Some((serde_json::to_value(&case).expect("json"), reason.message().to_string()));
            }
            Err(TestError::Abort(reason)) => out.harness_error = Some(format!("generation aborted: {}", reason)),
        }
    }
}

trait NoShrinkIf<C> {
    fn no_shrink_if(self, b: bool) -> BoxedStrategy<C>;
}
impl<C: Debug + 'static> NoShrinkIf<C> for BoxedStrategy<C> {
    fn no_shrink_if(self, b: bool) -> BoxedStrategy<C> {
        if b {
            self.no_shrink().boxed()
        } else {
            self
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}... ({} bytes)", &s[..i], s.len())
}

/// A listed genuine defect that is not repaired: its own fixed input, and what it is expected to show.
pub struct Known {
    /// the id in known_findings.jsonl
    pub id: &'static str,
    /// Ok(true): fails exactly as listed; Ok(false): does not fail any more; Err: fails in another way
    pub probe: fn() -> Result<bool, String>,
}

pub struct Property {
    pub id: &'static str,
    pub parts: Vec<Box<dyn PartDyn>>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Serialize, Deserialize)]
struct ChildOut {
    parts: BTreeMap<String, PartOut>,
}

/// Code under test that fills the memory fails by itself, before it takes the memory of the others.
fn limit_memory(id: &str) {
    // T09 starts as many threads as a user may have
    if id != "T09" {
        let limit = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &limit) };
    }
}

pub fn child_main(property: &Property, shard: usize, shards: usize, dir: &Path, only: Option<&str>) -> i32 {
    limit_memory(property.id);
    open_slots(&dir.join(format!("slots{}", shard)));
    let env = Env {
        tier: tier(),
        seed: seed(),
        shard,
        shards,
    };
    let mut out = ChildOut { parts: BTreeMap::new() };
    let _ = STOP_FILE.set(dir.join("stop"));
    for part in &property.parts {
        if only.is_some_and(|o| o != part.name()) {
            continue;
        }
        if dir.join("stop").exists() {
            break;
        }
        let p = part.run(property.id, &env);
        let bad = p.failure.is_some() || p.harness_error.is_some();
        out.parts.insert(part.name().to_string(), p);
        if bad {
            let _ = std::fs::write(dir.join("stop"), b"");
            break;
        }
    }
    std::fs::write(dir.join(format!("out{}", shard)), serde_json::to_vec(&out).expect("json")).expect("write out");
    0
}

fn signal_of(status: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    status.signal()
}

#[derive(PartialEq, Debug, Clone)]
enum End {
    Fine,
    Violates(String),
    Crash(i32),
    Cpu,
    Wall,
    Other(String),
}

/// Replays a case in a process of its own.
fn replay_end(id: &str, part: &str, case: &serde_json::Value, dir: &Path) -> End {
    let file = dir.join("try.json");
    std::fs::write(&file, serde_json::to_vec(&serde_json::json!({"property": id, "part": part, "case": case})).unwrap()).unwrap();
    let output = Command::new(std::env::current_exe().unwrap())
        .args([id, "--replay-raw", file.to_str().unwrap()])
        .stdin(Stdio::null())
        .output()
        .expect("replay process");
    if let Some(s) = signal_of(&output.status) {
        return End::Crash(s);
    }
    match output.status.code() {
        Some(0) => End::Fine,
        Some(1) => End::Violates(String::from_utf8_lossy(&output.stdout).trim().to_string()),
        Some(EXIT_CPU) => End::Cpu,
        Some(EXIT_WALL) => End::Wall,
        _ => End::Other(String::from_utf8_lossy(&output.stderr).trim().to_string()),
    }
}

pub fn replay_raw(property: &Property, file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
    let name = v["part"].as_str().unwrap_or("");
    let Some(part) = property.parts.iter().find(|p| p.name() == name) else {
        eprintln!("no part {}", name);
        return 2;
    };
    limit_memory(property.id);
    match part.replay(v["case"].clone()) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            println!("{}", e);
            1
        }
        Err(e) => {
            eprintln!("{}", e);
            2
        }
    }
}

/// Smaller versions of a case, for failures that end the process.
fn reductions(v: &serde_json::Value) -> Vec<serde_json::Value> {
    use serde_json::Value as J;
    let mut out = Vec::new();
    match v {
        J::String(s) => {
            let chars: Vec<char> = s.chars().collect();
            let n = chars.len();
            for parts in [2usize, 4, 8] {
                if n >= parts {
                    for i in 0..parts {
                        let (a, b) = (n * i / parts, n * (i + 1) / parts);
                        out.push(J::String(chars[..a].iter().chain(&chars[b..]).collect()));
                    }
                }
            }
            if n <= 12 {
                for i in 0..n {
                    out.push(J::String(chars[..i].iter().chain(&chars[i + 1..]).collect()));
                }
            }
        }
        J::Array(items) => {
            for i in 0..items.len() {
                let mut c = items.clone();
                c.remove(i);
                out.push(J::Array(c));
            }
            for (i, item) in items.iter().enumerate() {
                for r in reductions(item) {
                    let mut c = items.clone();
                    c[i] = r;
                    out.push(J::Array(c));
                }
            }
        }
        J::Object(map) => {
            for (k, item) in map {
                for r in reductions(item) {
                    let mut c = map.clone();
                    c.insert(k.clone(), r);
                    out.push(J::Object(c));
                }
            }
        }
        _ => {}
    }
    out
}

fn shrink_end(id: &str, part: &str, case: serde_json::Value, end: &End, dir: &Path) -> serde_json::Value {
    let started = Instant::now();
    let budget = Duration::from_secs(if *end == End::Cpu { 100 } else { 40 });
    let mut best = case;
    'outer: loop {
        for candidate in reductions(&best) {
            if started.elapsed() > budget {
                break 'outer;
            }
            if replay_end(id, part, &candidate, dir) == *end {
                best = candidate;
                continue 'outer;
            }
        }
        break;
    }
    best
}

pub fn parent_main(property: &Property, only: Option<&str>) -> i32 {
    let started = Instant::now();
    let verif = verif_dir();
    let dir = scratch("parent");
    // cases that mostly wait share the processors
    let shards = match property.id {
        "H09" | "H10" | "T06" => 24usize,
        _ => 8,
    };
    let children: Vec<_> = (0..shards)
        .map(|shard| {
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.arg(property.id).arg("--child").arg(shard.to_string()).arg(shards.to_string()).arg(&dir);
            if let Some(o) = only {
                c.arg(o);
            }
            c.stdin(Stdio::null());
            c.stdout(std::fs::File::create(dir.join(format!("stdout{}", shard))).unwrap());
            c.stderr(std::fs::File::create(dir.join(format!("stderr{}", shard))).unwrap());
            c.spawn().expect("child")
        })
        .collect();
    let mut total: BTreeMap<String, PartOut> = BTreeMap::new();
    let mut errors: Vec<String> = Vec::new();
    let mut violations: Vec<(String, serde_json::Value, String)> = Vec::new();
    // a process that has ended inside a case has found something: the others need not go on
    let mut children = children;
    let mut ended: Vec<Option<ExitStatus>> = vec![None; children.len()];
    while ended.iter().any(|e| e.is_none()) {
        for (shard, child) in children.iter_mut().enumerate() {
            if ended[shard].is_none() {
                ended[shard] = child.try_wait().expect("wait");
                if ended[shard].is_some() && !dir.join(format!("out{}", shard)).exists() {
                    let _ = std::fs::write(dir.join("stop"), b"");
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (shard, status) in ended.into_iter().enumerate() {
        let status = status.expect("ended");
        let stderr = std::fs::read_to_string(dir.join(format!("stderr{}", shard))).unwrap_or_default();
        let out = std::fs::read(dir.join(format!("out{}", shard))).ok();
        match out.and_then(|b| serde_json::from_slice::<ChildOut>(&b).ok()) {
            Some(out) => {
                for (name, p) in out.parts {
                    if let Some((case, message)) = &p.failure {
                        violations.push((name.clone(), case.clone(), message.clone()));
                    }
                    if let Some(e) = &p.harness_error {
                        errors.push(format!("{}: {}", name, e));
                    }
                    let t = total.entry(name).or_default();
                    t.evaluations += p.evaluations;
                    t.executions += p.executions;
                    t.distinct.extend(p.distinct);
                    for (l, n) in p.labels {
                        *t.labels.entry(l).or_default() += n;
                    }
                    t.wall_s = t.wall_s.max(p.wall_s);
                    if t.samples.len() < 6 {
                        t.samples.extend(p.samples.into_iter().take(1));
                    }
                }
            }
            None => {
                // the process ended inside a case
                let _ = std::fs::write(dir.join("stop"), b"");
                let slots = read_slots(&dir.join(format!("slots{}", shard)));
                let mut explained = false;
                if violations.is_empty() {
                    for (part, case) in slots {
                        let end = replay_end(property.id, &part, &case, &dir);
                        let confirmed = match end {
                            // a case that waits for ever has been seen to twice by now
                            End::Wall => true,
                            End::Crash(_) | End::Cpu => replay_end(property.id, &part, &case, &dir) == end,
                            End::Violates(_) => true,
                            _ => false,
                        };
                        if confirmed {
                            explained = true;
                            let what = match &end {
                                End::Crash(s) => format!("the process dies with signal {} (stack overflow or abort)", s),
                                End::Cpu => "does not end: the CPU time limit of the case was used up three times".to_string(),
                                End::Wall => "does not end: the case was still waiting after 200 s, twice".to_string(),
                                End::Violates(m) => m.clone(),
                                _ => String::new(),
                            };
                            let case = match end {
                                End::Violates(_) | End::Wall => case,
                                _ => shrink_end(property.id, &part, case, &end, &dir),
                            };
                            violations.push((part, case, what));
                            break;
                        }
                    }
                } else {
                    explained = true;
                }
                if !explained {
                    errors.push(format!("shard {} ended with {:?}: {}", shard, status, clip(&stderr, 1000)));
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // listed findings
    let listed = listed_findings(&verif, property.id);
    let mut known_lines = Vec::new();
    if only.is_none() {
        for k in &property.known {
            let entry = listed.iter().find(|(id, _)| id == k.id);
            let result = std::panic::catch_unwind(k.probe);
            match (result, entry) {
                (Ok(Ok(true)), Some((id, what))) => known_lines.push(format!("KNOWN-FINDING: property={} {} {}", property.id, id, what)),
                (Ok(Ok(true)), None) => {
                    violations.push((format!("known:{}", k.id), serde_json::json!(null), "fails, and is not listed".to_string()))
                }
                (Ok(Ok(false)), _) => {}
                (Ok(Err(e)), _) => violations.push((format!("known:{}", k.id), serde_json::json!(null), e)),
                (Err(_), _) => errors.push(format!("probe of {} panicked", k.id)),
            }
        }
    }
    for line in &known_lines {
        println!("{}", line);
    }

    // evidence
    let evaluations: u64 = total.values().map(|p| p.evaluations).sum();
    let distinct: u64 = total.values().map(|p| p.distinct.len() as u64).sum();
    let mut samples = Vec::new();
    let mut parts = serde_json::Map::new();
    let mut rules = Vec::new();
    for part in &property.parts {
        if let Some(p) = total.get(part.name()) {
            for s in p.samples.iter().take(3) {
                samples.push(serde_json::json!({"part": part.name(), "case": s}));
            }
            rules.push(format!("{}: {}", part.name(), part.rule()));
            parts.insert(
                part.name().to_string(),
                serde_json::json!({"evaluations": p.evaluations, "executions_of_code_under_test": p.executions, "distinct_nontrivial": p.distinct.len(), "classes": p.labels, "wall_s": p.wall_s}),
            );
        }
    }
    let evidence = serde_json::json!({
        "property": property.id,
        "tier": match tier() { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rules.join(" | "),
            "samples": samples,
            "parts": parts,
            "known_findings": known_lines,
        },
        "assumptions": property.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if only.is_none() {
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        std::fs::write(
            verif.join("evidence").join(format!("{}.json", property.id)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
        .expect("write evidence");
    } else {
        println!("{}", serde_json::to_string_pretty(&evidence).unwrap());
    }

    if !violations.is_empty() {
        // the smallest one
        violations.sort_by_key(|(_, case, _)| case.to_string().len());
        let (part, case, message) = &violations[0];
        let _ = std::fs::create_dir_all(verif.join("replays"));
        let text = serde_json::to_string_pretty(&serde_json::json!({
            "property": property.id, "part": part, "case": case, "message": message,
            "how": format!("./check.sh {} --replay <this file>", property.id)
        }))
        .unwrap();
        let path = verif.join("replays").join(format!("{}-{:016x}.json", property.id, hash_of(&text)));
        std::fs::write(&path, text).expect("write replay");
        println!("{} [{}]: {}", property.id, part, clip(message, 3000));
        println!("VIOLATION property={} replay={}", property.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("check error: {}", e);
        }
        return 2;
    }
    println!(
        "{} held on {} cases ({} distinct non-trivial) in {:.1} s",
        property.id,
        evaluations,
        distinct,
        started.elapsed().as_secs_f64()
    );
    0
}

fn listed_findings(verif: &Path, property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif.join("known_findings.jsonl")).unwrap_or_default();
    text.lines()
        .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["kind"] == "finding" && v["property"] == property)
        .map(|v| (v["id"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);

/// A new empty directory of this process; the caller removes it.
pub fn scratch(name: &str) -> PathBuf {
    let n = SCRATCH.fetch_add(1, Ordering::SeqCst);
    let dir = std::env::temp_dir().join(format!("amv-{}-{}-{}", std::process::id(), name, n));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    dir
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        Scratch(scratch(name))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
