//! Common machinery of the property checks: generated-case groups, shrinking,
//! evidence, replay and crash isolation. Nothing in here uses the library
//! under test, so that a change to its API cannot break every check at once.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
pub use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as AO};
use std::sync::{Arc, Mutex};

pub use proptest;
pub use proptest::prelude::*;
pub use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestError, TestRng, TestRunner};
pub use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

pub mod data;
pub mod hook;

/// What one evaluated case reports about itself.
#[derive(Default)]
pub struct Stats {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub nlabels: Vec<(&'static str, u64)>,
}

impl Stats {
    /// Mark the case non-trivial (by the rule of its group).
    pub fn nt(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l)
        }
    }
    /// Add to a counter summed over all cases.
    pub fn count(&mut self, l: &'static str, n: u64) {
        if let Some(e) = self.nlabels.iter_mut().find(|e| e.0 == l) {
            e.1 += n
        } else {
            self.nlabels.push((l, n))
        }
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {}, expected {}", format!($($t)*),
                $crate::trunc(&format!("{:?}", a)), $crate::trunc(&format!("{:?}", b))));
        }
    }};
}

pub fn trunc(s: &str) -> String {
    if s.len() <= 600 {
        s.to_string()
    } else {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Payload of panics the harness injects on purpose.
pub struct Injected;
/// Payload of the deterministic "too many callback calls" panic.
pub struct Budget(pub &'static str);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<Injected>() {
            return;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(b) = p.downcast_ref::<Budget>() {
            format!("callback budget exceeded: {}", b.0)
        } else {
            "non-string panic".into()
        };
        // no line numbers: the message must be stable across reformatting
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} [{}]", msg, file));
    }));
}

/// Run `f`, turning a panic into its payload.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

/// Run `f`, turning a panic into an error message.
pub fn catch_msg<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch(f).map_err(|p| {
        if p.is::<Injected>() {
            "injected panic escaped".into()
        } else {
            LAST_PANIC.with(|l| l.borrow().clone())
        }
    })
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_msg(f) {
        Ok(r) => r,
        Err(m) => Err(format!("panicked: {}", m)),
    }
}

// ---------------------------------------------------------------- hashing

struct Fnv(u64);
impl Write for Fnv {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn case_hash<C: Serialize>(c: &C, salt: u64) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325 ^ salt.wrapping_mul(0x9E3779B97F4A7C15));
    let _ = serde_json::to_writer(&mut h, c);
    h.0
}

// ---------------------------------------------------------------- watchdog

/// CPU seconds after which a single case counts as not terminating. Cases
/// take milliseconds; CPU time does not depend on the load of the machine.
const CASE_CPU_LIMIT: f64 = 15.0;

struct Running {
    thread: libc::pthread_t,
    since: f64,
    case: *const (),
    to_json: fn(*const ()) -> Value,
    group: &'static str,
}
unsafe impl Send for Running {}
type Slot = Arc<Mutex<Option<Running>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: RefCell<Option<Slot>> = const { RefCell::new(None) };
}

fn cpu_of(t: libc::pthread_t) -> f64 {
    unsafe {
        let mut clk = 0;
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::pthread_getcpuclockid(t, &mut clk) != 0 || libc::clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn enter<C: Serialize>(group: &'static str, c: &C) {
    fn ser<C: Serialize>(p: *const ()) -> Value {
        // the case outlives the slot entry: `leave` takes the same lock
        serde_json::to_value(unsafe { &*(p as *const C) }).unwrap_or(Value::Null)
    }
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            let me = unsafe { libc::pthread_self() };
            *s.lock().unwrap() = Some(Running {
                thread: me,
                since: cpu_of(me),
                case: c as *const C as *const (),
                to_json: ser::<C>,
                group,
            });
        }
    });
}
fn leave() {
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.lock().unwrap() = None;
        }
    });
}
/// Register this thread with the watchdog.
fn watched() {
    let slot: Slot = Arc::default();
    SLOTS.lock().unwrap().push(slot.clone());
    SLOT.with(|s| *s.borrow_mut() = Some(slot));
}
/// On a case that does not end: write it out as the failure and exit.
fn start_watchdog(out: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let slots = SLOTS.lock().unwrap().clone();
        for s in slots {
            let g = s.lock().unwrap();
            if let Some(r) = &*g {
                if cpu_of(r.thread) - r.since > CASE_CPU_LIMIT {
                    let f = Failure {
                        group: r.group.into(),
                        case: (r.to_json)(r.case),
                        message: format!("did not end within {} s of CPU time", CASE_CPU_LIMIT),
                    };
                    let v = json!([{ "group": r.group, "rule": "", "exhaustive": false, "evaluations": 1,
                        "nontrivial": 0, "distinct_nontrivial": 0, "labels": {}, "samples": [], "failure": f }]);
                    std::fs::write(&out, v.to_string()).unwrap();
                    unsafe { libc::_exit(0) }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- groups

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub exhaustive: bool,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Failure {
    pub group: String,
    pub case: Value,
    pub message: String,
}

impl Report {
    fn absorb<C: Serialize>(&mut self, c: &C, st: Stats, salt: u64) {
        self.evaluations += 1;
        for l in st.labels {
            *self.labels.entry(l.to_string()).or_insert(0) += 1;
        }
        for (l, n) in st.nlabels {
            *self.labels.entry(format!("sum:{}", l)).or_insert(0) += n;
        }
        if st.nontrivial {
            self.nontrivial += 1;
            if self.hashes.len() < 3_000_000 {
                let new = self.hashes.insert(case_hash(c, salt));
                let n = self.hashes.len();
                if new && (n == 1 || n == 40 || n == 400) {
                    let s = serde_json::to_string(c).unwrap_or_default();
                    self.samples.push(trunc(&s));
                }
            }
        }
    }
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.hashes.extend(o.hashes);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s)
            }
        }
        if self.failure.is_none() {
            self.failure = o.failure;
        }
    }
}

#[derive(Clone, Copy)]
pub struct RunArgs {
    pub seed: u64,
    pub shard: u32,
    pub nshards: u32,
    pub scale: f64,
    pub thorough: bool,
    pub fork: bool,
}

pub trait AnyGroup: Sync + Send {
    fn name(&self) -> &'static str;
    /// what makes a case of this group non-trivial
    fn rule(&self) -> &'static str;
    fn exhaustive(&self) -> bool;
    fn run(&self, a: RunArgs, stop: &AtomicBool) -> Report;
    fn replay(&self, case: &Value, fork: bool) -> Res;
    /// Generated cases as JSON (for execution elsewhere, e.g. under Miri).
    fn emit(&self, seed: u64, n: u32) -> Vec<Value>;
}

/// Execute one case in a forked child: a crash becomes an error.
fn forked(f: impl FnOnce() -> Res) -> Res {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return f();
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return f();
        }
        if pid == 0 {
            libc::close(fds[0]);
            // quiet: the crash is expected and reported by the parent
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(null, 2);
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let r = guarded(f);
            let out = match r {
                Ok(()) => "K".to_string(),
                Err(e) => format!("E{}", trunc(&e)),
            };
            libc::write(fds[1], out.as_ptr() as *const _, out.len());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&b[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match buf.first() {
            Some(b'K') if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 => Ok(()),
            Some(b'E') => Err(String::from_utf8_lossy(&buf[1..]).to_string()),
            _ if libc::WIFSIGNALED(st) => {
                Err(format!("the process crashed with signal {}", libc::WTERMSIG(st)))
            }
            _ => Err(format!("the process died (sanitizer report or abort), status {}", st)),
        }
    }
}

pub struct RandGroup<C, S> {
    name: &'static str,
    rule: &'static str,
    cases: u32,
    thorough_mul: u32,
    strat: fn() -> S,
    test: fn(&C, &mut Stats) -> Res,
}

/// A randomly generated group: `cases` are split over the shards.
pub fn group<C, S>(
    name: &'static str,
    rule: &'static str,
    cases: u32,
    strat: fn() -> S,
    test: fn(&C, &mut Stats) -> Res,
) -> Box<dyn AnyGroup>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C> + 'static,
{
    Box::new(RandGroup { name, rule, cases, thorough_mul: 20, strat, test })
}

fn name_salt(n: &str) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    let _ = h.write(n.as_bytes());
    h.0
}

fn rng_for(seed: u64, name: &str, shard: u32) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&name_salt(name).to_le_bytes());
    b[16..20].copy_from_slice(&shard.to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

impl<C, S> AnyGroup for RandGroup<C, S>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Strategy<Value = C> + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        false
    }
    fn run(&self, a: RunArgs, stop: &AtomicBool) -> Report {
        let total = self.cases as f64 * a.scale * if a.thorough { self.thorough_mul as f64 } else { 1.0 };
        let mine = ((total / a.nshards as f64).ceil() as u32).max(1);
        let cfg = Config {
            cases: mine,
            failure_persistence: None,
            max_shrink_iters: if a.fork { 2000 } else { 20000 },
            max_global_rejects: 1,
            max_local_rejects: 65536,
            verbose: 0,
            source_file: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, rng_for(a.seed, self.name, a.shard));
        let rep = RefCell::new(Report::default());
        let failed = RefCell::new(false);
        let strat = (self.strat)();
        let salt = name_salt(self.name);
        let mut left = mine;
        // small batches so that `stop` is honoured
        let mut failure = None;
        while left > 0 && failure.is_none() && !stop.load(AO::Relaxed) {
            let _ = left;
            left -= 1;
            let r = runner_one(&mut runner, &strat, |c: &C| {
                let mut st = Stats::default();
                enter(self.name, c);
                let r = if a.fork {
                    forked(|| (self.test)(c, &mut st))
                } else {
                    guarded(|| (self.test)(c, &mut st))
                };
                leave();
                if !*failed.borrow() {
                    rep.borrow_mut().absorb(c, st, salt);
                }
                if r.is_err() {
                    *failed.borrow_mut() = true;
                }
                r
            });
            if let Err((m, c)) = r {
                failure = Some(Failure {
                    group: self.name.into(),
                    case: serde_json::to_value(&c).unwrap(),
                    message: m,
                });
            }
        }
        let mut rep = rep.into_inner();
        rep.failure = failure;
        rep
    }
    fn replay(&self, case: &Value, fork: bool) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {}", e))?;
        let mut st = Stats::default();
        if fork {
            forked(|| (self.test)(&c, &mut st))
        } else {
            guarded(|| (self.test)(&c, &mut st))
        }
    }
    fn emit(&self, seed: u64, n: u32) -> Vec<Value> {
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            rng_for(seed, self.name, 0),
        );
        let strat = (self.strat)();
        (0..n)
            .filter_map(|_| strat.new_tree(&mut runner).ok())
            .map(|t| serde_json::to_value(t.current()).unwrap())
            .collect()
    }
}

fn runner_one<C, S>(
    runner: &mut TestRunner,
    strat: &S,
    mut f: impl FnMut(&C) -> Res,
) -> Result<(), (String, C)>
where
    C: Debug + Clone,
    S: Strategy<Value = C>,
{
    // One case through proptest's own generate/shrink loop.
    let tree = match strat.new_tree(runner) {
        Ok(t) => t,
        Err(r) => panic!("generator rejected: {}", r),
    };
    let f = RefCell::new(&mut f);
    match runner.run_one(tree, |c| {
        (f.borrow_mut())(&c).map_err(proptest::test_runner::TestCaseError::fail)
    }) {
        Ok(_) => Ok(()),
        Err(TestError::Fail(r, c)) => Err((r.message().to_string(), c)),
        Err(TestError::Abort(r)) => panic!("aborted: {}", r),
    }
}

pub struct ExhGroup<C> {
    name: &'static str,
    rule: &'static str,
    gen: fn(bool) -> Box<dyn Iterator<Item = C>>,
    test: fn(&C, &mut Stats) -> Res,
}

/// A bounded-exhaustive group: every case of the iterator, in growing size,
/// split over the shards; the first failing case is the smallest found.
pub fn exhaustive<C>(
    name: &'static str,
    rule: &'static str,
    gen: fn(bool) -> Box<dyn Iterator<Item = C>>,
    test: fn(&C, &mut Stats) -> Res,
) -> Box<dyn AnyGroup>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    Box::new(ExhGroup { name, rule, gen, test })
}

impl<C> AnyGroup for ExhGroup<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn run(&self, a: RunArgs, stop: &AtomicBool) -> Report {
        let mut rep = Report { exhaustive: true, ..Report::default() };
        let salt = name_salt(self.name);
        for (n, c) in (self.gen)(a.thorough).enumerate() {
            if n as u32 % a.nshards != a.shard {
                continue;
            }
            if n % 64 == 0 && stop.load(AO::Relaxed) {
                rep.exhaustive = false;
                break;
            }
            let mut st = Stats::default();
            enter(self.name, &c);
            let r = if a.fork {
                forked(|| (self.test)(&c, &mut st))
            } else {
                guarded(|| (self.test)(&c, &mut st))
            };
            leave();
            rep.absorb(&c, st, salt);
            if let Err(m) = r {
                rep.failure = Some(Failure {
                    group: self.name.into(),
                    case: serde_json::to_value(&c).unwrap(),
                    message: m,
                });
                break;
            }
        }
        rep
    }
    fn replay(&self, case: &Value, fork: bool) -> Res {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad case: {}", e))?;
        let mut st = Stats::default();
        if fork {
            forked(|| (self.test)(&c, &mut st))
        } else {
            guarded(|| (self.test)(&c, &mut st))
        }
    }
    fn emit(&self, seed: u64, n: u32) -> Vec<Value> {
        // a spread of the enumeration
        let all: Vec<C> = (self.gen)(false).collect();
        if all.is_empty() {
            return vec![];
        }
        let step = (all.len() / n.max(1) as usize).max(1);
        let off = seed as usize % step;
        all.iter()
            .skip(off)
            .step_by(step)
            .take(n as usize)
            .map(|c| serde_json::to_value(c).unwrap())
            .collect()
    }
}

// ---------------------------------------------------------------- main

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

/// Entry point of every check binary.
///
/// run     --seed N --scale F [--thorough] [--threads N] [--skip-exhaustive] --out FILE
/// shard   --group G --shard S [--fork] (same options): one shard, alone
/// replay  FILE [--fork]
/// emit    --seed N --n N --out FILE: generated cases as JSON lines
/// exec    FILE --from A --step B: execute such a file (used under Miri)
pub fn main(groups: Vec<Box<dyn AnyGroup>>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let thorough = args.iter().any(|a| a == "--thorough");
    let skip_exh = args.iter().any(|a| a == "--skip-exhaustive");
    let fork = args.iter().any(|a| a == "--fork");
    let threads: usize = arg(&args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = arg(&args, "--group");
    const NSHARDS: u32 = 8;
    if let Some(mb) = arg(&args, "--mem-mb").and_then(|s| s.parse::<u64>().ok()) {
        let lim = libc::rlimit { rlim_cur: mb << 20, rlim_max: mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    let base = RunArgs { seed, shard: 0, nshards: NSHARDS, scale, thorough, fork };
    match cmd.as_str() {
        "list" => {
            for g in &groups {
                println!("{}", g.name());
            }
        }
        "run" => {
            let out = arg(&args, "--out").expect("--out");
            let mut jobs = vec![];
            for (gi, g) in groups.iter().enumerate() {
                if skip_exh && g.exhaustive() {
                    continue;
                }
                if let Some(o) = &only {
                    if o != g.name() {
                        continue;
                    }
                }
                for s in 0..NSHARDS {
                    jobs.push((gi, s));
                }
            }
            start_watchdog(out.clone());
            let groups = Arc::new(groups);
            let jobs = Arc::new(jobs);
            let next = Arc::new(AtomicUsize::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let results: Arc<Mutex<BTreeMap<usize, Report>>> = Arc::default();
            let mut hs = vec![];
            for _ in 0..threads {
                let (groups, jobs, next, stop, results) =
                    (groups.clone(), jobs.clone(), next.clone(), stop.clone(), results.clone());
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || { watched(); loop {
                            let j = next.fetch_add(1, AO::Relaxed);
                            if j >= jobs.len() || stop.load(AO::Relaxed) {
                                break;
                            }
                            let (gi, s) = jobs[j];
                            let rep = groups[gi].run(RunArgs { shard: s, ..base }, &stop);
                            if rep.failure.is_some() {
                                stop.store(true, AO::Relaxed);
                            }
                            let mut r = results.lock().unwrap();
                            match r.get_mut(&gi) {
                                Some(x) => {
                                    let e = x.exhaustive && rep.exhaustive;
                                    x.merge(rep);
                                    x.exhaustive = e;
                                }
                                None => {
                                    r.insert(gi, rep);
                                }
                            }
                        }})
                        .unwrap(),
                );
            }
            let mut died = false;
            for h in hs {
                died |= h.join().is_err();
            }
            if died {
                eprintln!("harness thread died: {}", LAST_PANIC.with(|l| l.borrow().clone()));
                std::process::exit(3);
            }
            let results = results.lock().unwrap();
            let mut v = vec![];
            for (gi, r) in results.iter() {
                v.push(json!({
                    "group": groups[*gi].name(), "rule": groups[*gi].rule(),
                    "exhaustive": r.exhaustive,
                    "evaluations": r.evaluations, "nontrivial": r.nontrivial,
                    "distinct_nontrivial": r.hashes.len(),
                    "labels": r.labels, "samples": r.samples, "failure": r.failure,
                }));
            }
            std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
        }
        "shard" => {
            let s: u32 = arg(&args, "--shard").unwrap().parse().unwrap();
            let g = groups.iter().find(|g| Some(g.name()) == only.as_deref()).expect("group");
            let stop = AtomicBool::new(false);
            let rep = std::thread::scope(|sc| {
                if fork {
                    g.run(RunArgs { shard: s, ..base }, &stop)
                } else {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || g.run(RunArgs { shard: s, ..base }, &stop))
                        .unwrap()
                        .join()
                        .unwrap()
                }
            });
            println!("{}", serde_json::to_string(&rep.failure).unwrap());
        }
        "replay" => {
            let f: Failure = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let g = groups.iter().find(|g| g.name() == f.group).expect("unknown group");
            match g.replay(&f.case, fork) {
                Ok(()) => println!("REPLAY-OK"),
                Err(e) => {
                    println!("REPLAY-FAIL {}", e);
                    std::process::exit(1)
                }
            }
        }
        "emit" => {
            let n: u32 = arg(&args, "--n").unwrap().parse().unwrap();
            let out = arg(&args, "--out").expect("--out");
            let mut per: Vec<(String, Vec<Value>)> = vec![];
            for g in &groups {
                if let Some(o) = &only {
                    if o != g.name() {
                        continue;
                    }
                }
                // too heavy for an interpreter
                if g.name().starts_with("large") || g.name().starts_with("vast") || args.windows(2).any(|w| w[0] == "--skip" && w[1] == g.name()) {
                    continue;
                }
                per.push((g.name().to_string(), g.emit(seed, n)));
            }
            // round robin so that any slice of the file covers all groups
            let mut s = String::new();
            for i in 0..n as usize {
                for (g, cs) in &per {
                    if let Some(c) = cs.get(i) {
                        s += &serde_json::to_string(&json!({"group": g, "case": c, "message": ""})).unwrap();
                        s.push('\n');
                    }
                }
            }
            std::fs::write(out, s).unwrap();
        }
        "exec" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let from: usize = arg(&args, "--from").unwrap().parse().unwrap();
            let step: usize = arg(&args, "--step").unwrap().parse().unwrap();
            let mut done = 0;
            for line in text.lines().skip(from).step_by(step) {
                let f: Failure = serde_json::from_str(line).unwrap();
                let g = groups.iter().find(|g| g.name() == f.group).expect("unknown group");
                // printed first: if the interpreter stops here, this is the case
                println!("CASE {}", line);
                if let Err(e) = g.replay(&f.case, false) {
                    println!("FAILED {}", e);
                    std::process::exit(1);
                }
                done += 1;
            }
            println!("DONE {}", done);
        }
        _ => {
            eprintln!("usage: list | run | shard | replay | emit | exec");
            std::process::exit(2);
        }
    }
}
