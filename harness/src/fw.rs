//! Runs the facets (sub-checks) of one property: generated cases through proptest, shrinking,
//! replay files, regression inputs, counters and the evidence file.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

/// What one case tells the counters.
#[derive(Default)]
pub struct Ctx {
    labels: Vec<String>,
    nontrivial: bool,
    sub: u64,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// Labels, whether non-trivial, executions.
    pub fn take(self) -> (Vec<String>, bool, u64) {
        (self.labels, self.nontrivial, self.sub)
    }
    /// Mark the case as non-trivial by the facet's rule.
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    /// Count executions of the code under test within this case.
    pub fn execs(&mut self, n: u64) {
        self.sub += n;
    }
}

pub struct Facet<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub shrink: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> R,
}

#[derive(Default)]
pub struct Stats {
    evals: u64,
    execs: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

pub enum Outcome {
    Ok,
    Fail { msg: String, case: Value },
    HarnessError(String),
}

pub trait AnyFacet: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn budget(&self, thorough: bool) -> u64;
    fn run(&self, seed: u64, shard: u64, cases: u64, env: &Env) -> (Stats, Outcome);
    fn replay(&self, case: &Value, env: &Env) -> Outcome;
    /// The idx-th case of a shard, regenerated without running it.
    fn nth(&self, seed: u64, shard: u64, cases: u64, idx: u64, env: &Env) -> Value;
}

/// What a worker is doing, for the watchdog that turns a case that never ends into a violation.
#[derive(Default)]
pub struct Slot {
    tid: AtomicU64,
    /// milliseconds since the start plus one; 0 when idle
    since: AtomicU64,
    facet: AtomicU64,
    shard: AtomicU64,
    cases: AtomicU64,
    idx: AtomicU64,
}
thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
/// Processor time a thread has used.
fn cpu_ms(tid: u64) -> u64 {
    let Ok(t) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0 };
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) * 10
}
/// The signal that ended a worker's case, by slot; the worker itself is parked for good.
static CRASHED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
/// Stack overflows and aborts end the process without unwinding. They are the code under test's as
/// much as a panic is: the thread is stopped and the watchdog reports its case.
extern "C" fn on_crash(sig: libc::c_int) {
    let w = WORKER.with(|w| w.get());
    unsafe {
        if w >= CRASHED.len() {
            libc::signal(sig, libc::SIG_DFL);
            return;
        }
        CRASHED[w].store(sig as u64, Ordering::SeqCst);
        loop {
            libc::pause();
        }
    }
}
fn install_crash_handler() {
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
            // on the alternate stack that std gives every thread
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}
/// A single case normally takes milliseconds; this much processor time in one is a hang.
const HANG_S: u64 = 90;

pub struct Env {
    pub property: &'static str,
    pub stop: AtomicBool,
    pub known: Vec<(String, String)>, // (signature, what)
    pub t0: Instant,
    pub slots: Vec<Slot>,
}
impl Env {
    fn slot(&self) -> Option<&Slot> {
        self.slots.get(WORKER.with(|w| w.get()))
    }
    fn begin(&self, idx: Option<u64>) {
        if let Some(s) = self.slot() {
            if s.tid.load(Ordering::Relaxed) == 0 {
                s.tid.store(my_tid(), Ordering::SeqCst);
            }
            if let Some(i) = idx {
                s.idx.store(i, Ordering::SeqCst);
            }
            s.since.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        }
    }
    fn end(&self) {
        if let Some(s) = self.slot() {
            s.since.store(0, Ordering::SeqCst);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        if std::env::var_os("HV_BT").is_some() {
            eprintln!("panic {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Run a closure that calls the code under test; a panic there is an Err of kind "panic".
/// A panic located in the harness itself is passed on (it is a harness error, not a finding),
/// unless its message starts with "SPIN" (an exhausted transport budget).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if is_harness(&msg, &loc) {
                std::panic::resume_unwind(p);
            }
            Err(format!("panicked: {msg} at {loc}"))
        }
    }
}

fn is_harness(msg: &str, loc: &str) -> bool {
    !msg.starts_with("SPIN") && !loc.starts_with('/') && loc.starts_with("src/")
}

enum CaseResult {
    Ok,
    Fail(String),
    Harness(String),
}

fn run_check<C>(f: fn(&C, &mut Ctx) -> R, c: &C, ctx: &mut Ctx) -> CaseResult {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(c, ctx))) {
        Ok(Ok(())) => CaseResult::Ok,
        Ok(Err(m)) => CaseResult::Fail(m),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
            if is_harness(&msg, &loc) {
                CaseResult::Harness(format!("harness panic: {msg} at {loc}"))
            } else {
                CaseResult::Fail(format!("panicked: {msg} at {loc}"))
            }
        }
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn trim(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 1500 {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}... ({} characters)", &s[..end], s.len()))
    } else {
        v
    }
}

impl<C> Facet<C> {
    fn seed(&self, seed: u64, shard: u64, env: &Env) -> [u8; 32] {
        let mut s32 = [0u8; 32];
        s32[..8].copy_from_slice(&seed.to_le_bytes());
        s32[8..16].copy_from_slice(&fnv(env.property).to_le_bytes());
        s32[16..24].copy_from_slice(&fnv(self.name).to_le_bytes());
        s32[24..].copy_from_slice(&shard.to_le_bytes());
        s32
    }
}
impl<C> AnyFacet for Facet<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn budget(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn run(&self, seed: u64, shard: u64, cases: u64, env: &Env) -> (Stats, Outcome) {
        let stats = RefCell::new(Stats::default());
        let failed = Cell::new(false);
        let harness: RefCell<Option<String>> = RefCell::new(None);
        let last_msg: RefCell<String> = RefCell::new(String::new());
        let config = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: self.shrink,
            max_shrink_time: 0,
            max_global_rejects: u32::MAX,
            max_local_rejects: u32::MAX,
            ..Config::default()
        };
        let s32 = self.seed(seed, shard, env);
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &s32));
        let strategy = (self.strategy)();
        let res = runner.run(&strategy, |case| {
            if (env.stop.load(Ordering::Relaxed) && !failed.get()) || harness.borrow().is_some() {
                return Ok(());
            }
            let mut ctx = Ctx::default();
            let idx = if failed.get() { None } else { Some(stats.borrow().evals) };
            env.begin(idx);
            let r = run_check(self.check, &case, &mut ctx);
            env.end();
            if !failed.get() {
                let mut st = stats.borrow_mut();
                st.evals += 1;
                st.execs += ctx.sub.max(1);
                for l in &ctx.labels {
                    *st.labels.entry(l.clone()).or_default() += 1;
                }
                if ctx.nontrivial {
                    st.nontrivial += 1;
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    case.hash(&mut h);
                    let new = st.distinct.insert(h.finish());
                    if new && st.samples.len() < 2 && shard == 0 && st.evals > 5 {
                        let v = serde_json::to_value(&case).unwrap_or(Value::Null);
                        st.samples.push(trim(v));
                    }
                }
            }
            match r {
                CaseResult::Ok => Ok(()),
                CaseResult::Harness(m) => {
                    *harness.borrow_mut() = Some(m);
                    Ok(())
                }
                CaseResult::Fail(m) => {
                    if let Some((sig, _)) = env.known.iter().find(|(s, _)| m.starts_with(s.as_str())) {
                        *stats.borrow_mut().known.entry(sig.clone()).or_default() += 1;
                        return Ok(());
                    }
                    failed.set(true);
                    env.stop.store(true, Ordering::Relaxed);
                    *last_msg.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let out = if let Some(m) = harness.into_inner() {
            Outcome::HarnessError(format!("{}: {m}", self.name))
        } else {
            match res {
                Ok(()) => Outcome::Ok,
                Err(TestError::Fail(reason, case)) => Outcome::Fail {
                    msg: reason.message().to_string(),
                    case: serde_json::to_value(&case).unwrap_or(Value::Null),
                },
                Err(TestError::Abort(r)) => Outcome::HarnessError(format!("{}: proptest aborted: {}", self.name, r.message())),
            }
        };
        (stats.into_inner(), out)
    }
    fn nth(&self, seed: u64, shard: u64, cases: u64, idx: u64, env: &Env) -> Value {
        let config = Config { cases: cases as u32, failure_persistence: None, max_global_rejects: u32::MAX, max_local_rejects: u32::MAX, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &self.seed(seed, shard, env)));
        let n = Cell::new(0);
        let out = RefCell::new(Value::Null);
        let _ = runner.run(&(self.strategy)(), |case| {
            if n.get() == idx {
                *out.borrow_mut() = serde_json::to_value(&case).unwrap_or(Value::Null);
            }
            n.set(n.get() + 1);
            Ok(())
        });
        out.into_inner()
    }
    fn replay(&self, case: &Value, env: &Env) -> Outcome {
        let c: C = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => return Outcome::HarnessError(format!("{}: cannot read case: {e}", self.name)),
        };
        let mut ctx = Ctx::default();
        env.begin(None);
        let r = run_check(self.check, &c, &mut ctx);
        env.end();
        match r {
            CaseResult::Ok => Outcome::Ok,
            CaseResult::Harness(m) => Outcome::HarnessError(m),
            CaseResult::Fail(m) => {
                if env.known.iter().any(|(s, _)| m.starts_with(s.as_str())) {
                    return Outcome::Ok;
                }
                Outcome::Fail { msg: m, case: case.clone() }
            }
        }
    }
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    facet: String,
    message: String,
    case: Value,
}

/// Let another process (of this or another build of a check) replay a case.
pub fn replay_raw(exe: &Path, property: &str, facet: &str, case: &impl Serialize) -> std::process::Output {
    static N: AtomicUsize = AtomicUsize::new(0);
    let file = std::env::temp_dir().join(format!("hv-replay-{}-{}.json", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let rf = ReplayFile { property: property.into(), facet: facet.into(), message: String::new(), case: serde_json::to_value(case).unwrap() };
    std::fs::write(&file, serde_json::to_string(&rf).unwrap()).expect("the temporary directory can be written");
    let out = std::process::Command::new(exe).arg("--replay").arg(&file).env_remove("HV_PLAIN").env("HV_FRESH", "1").output();
    let _ = std::fs::remove_file(&file);
    out.expect("the other build can be started")
}
/// Likewise: its exit code and what it says.
pub fn replay_by(exe: &Path, property: &str, facet: &str, case: &impl Serialize) -> Result<(Option<i32>, String), String> {
    let out = replay_raw(exe, property, facet, case);
    Ok((out.status.code(), String::from_utf8_lossy(&out.stdout).into_owned()))
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("HV_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_replay(p: &Path) -> Result<ReplayFile, String> {
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    serde_json::from_str(&t).map_err(|e| format!("{}: {e}", p.display()))
}

const SHARDS: u64 = 16;

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Box<dyn AnyFacet>>,
}

pub fn facet<C>(f: Facet<C>) -> Box<dyn AnyFacet>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Hash + 'static,
{
    Box::new(f)
}

pub fn main(p: Property) -> ! {
    std::process::exit(real_main(p))
}

fn violation(id: &str, facet: &str, msg: &str, case: &Value) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{facet}.json"));
    let rf = ReplayFile { property: id.into(), facet: facet.into(), message: msg.into(), case: case.clone() };
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rf).unwrap());
    println!("{id}/{facet}: {msg}");
    let c = trim(case.clone());
    println!("minimal case: {c}");
    path
}

fn real_main(p: Property) -> i32 {
    install_hook();
    install_crash_handler();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut replay: Option<PathBuf> = None;
    let mut only: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                thorough = args[i + 1] == "thorough";
                i += 1;
            }
            "--replay" => {
                replay = Some(PathBuf::from(&args[i + 1]));
                i += 1;
            }
            "--facet" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            a => {
                eprintln!("unknown argument {a}");
                return 2;
            }
        }
        i += 1;
    }
    let scale: f64 = std::env::var("HV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let t0 = Instant::now();
    let limit = if thorough { 5 * 3600 } else { 800 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        println!("INCONCLUSIVE: no answer within {limit} s");
        std::process::exit(3);
    });

    let known: Vec<(String, String)> = std::fs::read_to_string(verif_dir().join("known_findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str::<Value>(&t).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default()
        .iter()
        .filter(|f| f["property"] == p.id)
        .map(|f| (f["signature"].as_str().unwrap_or("\u{0}").to_string(), f["what"].as_str().unwrap_or("").to_string()))
        .collect();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    // one slot more for the main thread (replays)
    let env = Env { property: p.id, stop: AtomicBool::new(false), known, t0, slots: (0..workers + 1).map(|_| Slot::default()).collect() };
    WORKER.with(|w| w.set(workers));
    // shared with the watchdog for the rest of the process
    let env: &'static Env = Box::leak(Box::new(env));
    let p: &'static Property = Box::leak(Box::new(p));
    static REPLAYING: Mutex<Option<PathBuf>> = Mutex::new(None);
    let hang_s = std::env::var("HV_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(HANG_S);
    let mut seen: Vec<(u64, u64)> = vec![(0, 0); env.slots.len()];
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (w, s) in env.slots.iter().enumerate() {
            let since = s.since.load(Ordering::SeqCst);
            if since == 0 {
                continue;
            }
            let msg = match CRASHED[w].load(Ordering::SeqCst) as libc::c_int {
                0 => {
                    // processor time, so that a stalled or busy machine is not mistaken for a hang
                    let cpu = cpu_ms(s.tid.load(Ordering::SeqCst));
                    if seen[w].0 != since {
                        seen[w] = (since, cpu);
                    }
                    if cpu < seen[w].1 + hang_s * 1000 {
                        continue;
                    }
                    format!("a single case does not come to an end (over {hang_s} s)")
                }
                libc::SIGABRT => "the process aborts".to_string(),
                libc::SIGSEGV | libc::SIGBUS => "a bad memory access, or the stack overflows".to_string(),
                n => format!("the process is ended by signal {n}"),
            };
            let path = if w == workers {
                println!("{msg}");
                REPLAYING.lock().unwrap().clone().unwrap_or_default()
            } else {
                let f = &p.facets[s.facet.load(Ordering::SeqCst) as usize];
                let case = f.nth(seed, s.shard.load(Ordering::SeqCst), s.cases.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst), env);
                violation(p.id, f.name(), &msg, &case)
            };
            println!("VIOLATION property={} replay={}", p.id, path.display());
            std::process::exit(1);
        }
    });

    if let Some(path) = replay {
        let rf = match load_replay(&path) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        };
        let Some(f) = p.facets.iter().find(|f| f.name() == rf.facet) else {
            eprintln!("no facet {}", rf.facet);
            return 2;
        };
        *REPLAYING.lock().unwrap() = Some(path.clone());
        return match f.replay(&rf.case, env) {
            Outcome::Ok => {
                println!("replay holds");
                0
            }
            Outcome::Fail { msg, .. } => {
                println!("{msg}");
                println!("VIOLATION property={} replay={}", p.id, path.display());
                1
            }
            Outcome::HarnessError(m) => {
                println!("ERROR {m}");
                2
            }
        };
    }

    // 1. regression inputs
    let mut regress = 0u64;
    let mut bad: Option<(String, String, Value)> = None;
    if only.is_none() {
        let mut files: Vec<_> = std::fs::read_dir(verif_dir().join("regress").join(p.id))
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect())
            .unwrap_or_default();
        files.sort();
        for path in files {
            let rf = match load_replay(&path) {
                Ok(r) => r,
                Err(e) => {
                    println!("ERROR {e}");
                    return 2;
                }
            };
            let Some(f) = p.facets.iter().find(|f| f.name() == rf.facet) else {
                println!("ERROR {}: no facet {}", path.display(), rf.facet);
                return 2;
            };
            regress += 1;
            *REPLAYING.lock().unwrap() = Some(path.clone());
            match f.replay(&rf.case, env) {
                Outcome::Ok => {}
                Outcome::Fail { msg, case } => {
                    bad = Some((f.name().into(), msg, case));
                    break;
                }
                Outcome::HarnessError(m) => {
                    println!("ERROR {m}");
                    return 2;
                }
            }
        }
    }

    // 2. generated cases: every facet in SHARDS shards, each with its own seed
    let facets: Vec<&Box<dyn AnyFacet>> = p.facets.iter().filter(|f| only.as_ref().map_or(true, |o| o == f.name())).collect();
    let mut jobs = Vec::new();
    if bad.is_none() {
        for (fi, f) in facets.iter().enumerate() {
            let total = ((f.budget(thorough) as f64 * scale).ceil() as u64).max(1);
            for s in 0..SHARDS {
                let n = total / SHARDS + u64::from(s < total % SHARDS);
                if n > 0 {
                    jobs.push((fi, s, n));
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, u64, Stats, Outcome, f64)>> = Mutex::new(Vec::new());
    let (jobs, next, results, facets) = (&jobs, &next, &results, &facets);
    std::thread::scope(|sc| {
        for w in 0..workers {
            std::thread::Builder::new()
                // what a thread of a user's program has
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || loop {
                    WORKER.with(|x| x.set(w));
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() {
                        break;
                    }
                    let (fi, s, n) = jobs[j];
                    let slot = &env.slots[w];
                    slot.facet.store(p.facets.iter().position(|f| f.name() == facets[fi].name()).unwrap() as u64, Ordering::SeqCst);
                    slot.shard.store(s, Ordering::SeqCst);
                    slot.cases.store(n, Ordering::SeqCst);
                    let t = Instant::now();
                    let (st, out) = facets[fi].run(seed, s, n, env);
                    results.lock().unwrap().push((fi, s, st, out, t.elapsed().as_secs_f64()));
                })
                .unwrap();
        }
    });
    let mut results = std::mem::take(&mut *results.lock().unwrap());
    results.sort_by_key(|r| (r.0, r.1));

    // 3. account
    let mut per = Vec::new();
    let mut samples = Vec::new();
    let (mut evals, mut execs, mut distinct) = (0u64, 0u64, 0u64);
    let mut rule = String::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    for (fi, f) in facets.iter().enumerate() {
        let mut st = Stats::default();
        let mut secs = 0.0;
        for (_, _, s, _, t) in results.iter().filter(|r| r.0 == fi) {
            secs += t;
            st.evals += s.evals;
            st.execs += s.execs;
            st.nontrivial += s.nontrivial;
            st.distinct.extend(s.distinct.iter());
            for (k, v) in &s.labels {
                *st.labels.entry(k.clone()).or_default() += v;
            }
            st.samples.extend(s.samples.iter().cloned());
            for (k, v) in &s.known {
                *known_hits.entry(k.clone()).or_default() += v;
            }
        }
        evals += st.evals;
        execs += st.execs;
        distinct += st.distinct.len() as u64;
        rule.push_str(&format!("[{}] {} ", f.name(), f.rule()));
        for s in st.samples.iter().take(2) {
            samples.push(json!({"facet": f.name(), "case": s}));
        }
        println!(
            "{}/{}: {} cases, {} executions, {} distinct non-trivial, {:.1} cpu-s",
            p.id, f.name(), st.evals, st.execs, st.distinct.len(), secs
        );
        per.push(json!({"facet": f.name(), "evaluations": st.evals, "executions": st.execs, "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(), "labels": st.labels}));
        if std::env::var_os("HV_LABELS").is_some() {
            for (k, v) in &st.labels {
                println!("    {k}: {v}");
            }
        }
    }
    let mut errors = Vec::new();
    for (fi, _, _, out, _) in results {
        match out {
            Outcome::Ok => {}
            Outcome::HarnessError(m) => errors.push(m),
            Outcome::Fail { msg, case } => {
                if bad.is_none() {
                    bad = Some((facets[fi].name().into(), msg, case));
                }
            }
        }
    }
    let evidence = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals + regress,
            "executions": execs + regress,
            "regression_inputs": regress,
            "distinct_nontrivial": distinct,
            "rule": rule.trim(),
            "samples": samples,
            "facets": per,
            "known_finding_hits": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": u64::from(bad.is_some()),
    });
    if only.is_none() {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()) {
            println!("ERROR cannot write evidence: {e}");
            return 2;
        }
    }
    for (_, what) in &env.known {
        println!("KNOWN-FINDING: property={} {}", p.id, what);
    }
    println!("{}: {:.1} s", p.id, t0.elapsed().as_secs_f64());
    if let Some((facet, msg, case)) = bad {
        let path = violation(p.id, &facet, &msg, &case);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        return 2;
    }
    0
}
