use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::steer::{self, op, Op as Num};
use hv::server::*;
use hv::wire;
use husk::crypto::p256::int256::{Int256, ZERO};
use husk::crypto::p256::{NPoint256, Point256, G};
use husk::crypto::wrapping::Wrapping as W;
use num_bigint::BigUint;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};

// ------------------------------------------------------------------------------- the recorder

const ARENA: usize = 64 << 20;
struct T {
    on: Cell<bool>,
    hash: Cell<u64>,
    count: Cell<u64>,
    keep: Cell<bool>,
    base: Cell<usize>,
    cur: Cell<usize>,
    full: Cell<bool>,
}
thread_local! {
    static TR: T = const { T { on: Cell::new(false), hash: Cell::new(0), count: Cell::new(0), keep: Cell::new(false), base: Cell::new(0), cur: Cell::new(0), full: Cell::new(false) } };
    static LOG: RefCell<Vec<(u8, u64)>> = const { RefCell::new(Vec::new()) };
}
#[inline(always)]
fn ev(kind: u8, x: u64) {
    TR.with(|t| {
        if t.on.get() {
            let h = (t.hash.get() ^ x.wrapping_add((kind as u64) << 58)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            t.hash.set(h ^ (h >> 29));
            t.count.set(t.count.get() + 1);
            if t.keep.get() {
                t.on.set(false);
                LOG.with(|l| l.borrow_mut().push((kind, x)));
                t.on.set(true);
            }
        }
    })
}
mod callbacks {
    use super::ev;
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
        ev(0, g as u64)
    }
    macro_rules! at {
        ($($n:ident $k:expr;)*) => { $(#[no_mangle] extern "C" fn $n(p: *const u8) { ev($k, p as u64) })* }
    }
    at! {
        __sanitizer_cov_load1 1; __sanitizer_cov_load2 2; __sanitizer_cov_load4 3; __sanitizer_cov_load8 4; __sanitizer_cov_load16 5;
        __sanitizer_cov_store1 6; __sanitizer_cov_store2 7; __sanitizer_cov_store4 8; __sanitizer_cov_store8 9; __sanitizer_cov_store16 10;
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_gep(x: u64) {
        ev(11, x)
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_div4(x: u32) {
        ev(12, x as u64)
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_div8(x: u64) {
        ev(13, x)
    }
    #[no_mangle]
    unsafe extern "C" fn bcmp(a: *const core::ffi::c_void, b: *const core::ffi::c_void, n: usize) -> i32 {
        memcmp(a, b, n)
    }
    /// A comparison takes as long as the operands agree.
    #[no_mangle]
    unsafe extern "C" fn memcmp(a: *const core::ffi::c_void, b: *const core::ffi::c_void, n: usize) -> i32 {
        let (a, b) = (a as *const u8, b as *const u8);
        let mut i = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y {
                ev(14, i as u64);
                return x as i32 - y as i32;
            }
            i += 1;
        }
        ev(14, n as u64);
        0
    }
}
const KINDS: [&str; 15] = [
    "branch to block", "load of 1 byte at", "load of 2 bytes at", "load of 4 bytes at", "load of 8 bytes at", "load of 16 bytes at", "store of 1 byte at", "store of 2 bytes at",
    "store of 4 bytes at", "store of 8 bytes at", "store of 16 bytes at", "index", "division by", "division by", "comparison stopped after bytes",
];
/// While a trace is taken, memory comes from an arena that is used again for the next one.
struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TR.with(|t| {
            if !t.on.get() {
                return System.alloc(l);
            }
            let at = (t.cur.get() + l.align() - 1) & !(l.align() - 1);
            if at + l.size() > t.base.get() + ARENA {
                t.full.set(true);
                return System.alloc(l);
            }
            t.cur.set(at + l.size());
            at as *mut u8
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let own = TR.with(|t| (p as usize).wrapping_sub(t.base.get()) < ARENA && t.base.get() != 0);
        if !own {
            let _o = off();
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let own = TR.with(|t| (p as usize).wrapping_sub(t.base.get()) < ARENA && t.base.get() != 0);
        if !own {
            let _o = off();
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        q
    }
}
#[global_allocator]
static ALLOC: Arena = Arena;

struct Off(bool);
fn off() -> Off {
    let was = TR.with(|t| t.on.replace(false));
    if was {
        vg::request(vg::TOGGLE);
    }
    Off(was)
}
impl Drop for Off {
    fn drop(&mut self) {
        if self.0 {
            vg::request(vg::TOGGLE);
        }
        TR.with(|t| t.on.set(self.0))
    }
}
/// Under callgrind: what every machine instruction was executed how often.
mod vg {
    use std::cell::{Cell, RefCell};
    use std::sync::OnceLock;
    const BASE: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
    pub const DUMP: usize = BASE;
    pub const ZERO: usize = BASE + 1;
    pub const TOGGLE: usize = BASE + 2;
    /// Does nothing but under callgrind.
    #[inline(never)]
    pub fn request(r: usize) {
        let args = [r, 0, 0, 0, 0, 0];
        unsafe {
            std::arch::asm!(
                "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
                in("rax") &args, inout("rdx") 0usize => _, inout("rdi") 0usize => _,
            );
        }
    }
    /// The directory the dumps go to, in the process that runs under callgrind.
    pub fn dir() -> Option<&'static str> {
        static D: OnceLock<Option<String>> = OnceLock::new();
        D.get_or_init(|| std::env::var("HV_CT_WORKER").ok()).as_deref()
    }
    thread_local! {
        static NEXT: Cell<u32> = const { Cell::new(1) };
        static DUMPED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    }
    /// The dump just written: how often each instruction was executed, in a fixed order.
    pub fn take() -> Result<Vec<String>, String> {
        let n = NEXT.with(|x| x.replace(x.get() + 1));
        let path = format!("{}/out.{n}", dir().unwrap());
        let text = std::fs::read_to_string(&path).map_err(|e| format!("harness: {path}: {e}"))?;
        let _ = std::fs::remove_file(&path);
        let (mut v, mut name, mut call, mut body) = (Vec::new(), String::new(), false, false);
        for l in text.lines() {
            if let Some(f) = l.strip_prefix("fn=") {
                (name, body) = (f.to_string(), true);
            } else if l.starts_with("calls=") {
                // the line after it holds the cost of the callee, which is listed there
                call = true;
            } else if std::mem::take(&mut call) || !body {
            } else if l.starts_with("0x") {
                v.push(format!("{name} {l}"));
            }
        }
        if v.is_empty() {
            return Err("harness: nothing was counted".into());
        }
        v.sort();
        Ok(v)
    }
}
/// One run under the recorder. Nothing allocated inside may live on.
#[inline(never)]
fn record(f: &mut dyn FnMut() -> bool, keep: bool) -> Result<(u64, u64, bool), String> {
    TR.with(|t| {
        if t.base.get() == 0 {
            let p = unsafe { System.alloc(Layout::from_size_align(ARENA, 4096).unwrap()) };
            t.base.set(p as usize);
        }
        t.cur.set(t.base.get());
        t.full.set(false);
        t.hash.set(0);
        t.count.set(0);
        t.keep.set(keep);
        if keep {
            LOG.with(|l| l.borrow_mut().clear());
        }
        t.on.set(true);
    });
    vg::request(vg::ZERO);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f));
    vg::request(vg::DUMP);
    TR.with(|t| t.on.set(false));
    match r {
        Ok(v) => {
            if TR.with(|t| t.full.get()) {
                return Err("harness: the arena is full".into());
            }
            Ok(TR.with(|t| (t.hash.get(), t.count.get(), v)))
        }
        Err(_) => Err("panicked".into()),
    }
}
/// Run `f(0)` and `f(1)`, which `prepare` sets up with equal public and different secret inputs,
/// and compare what they did.
fn same_trace(prepare: &mut dyn FnMut(usize), f: &mut dyn FnMut() -> bool, what: &str, ctx: &mut Ctx) -> R {
    if vg::dir().is_some() {
        return same_counts(prepare, f, what, ctx);
    }
    let mut res = [(0, 0, false); 3];
    for (i, side) in [0usize, 0, 1].into_iter().enumerate() {
        prepare(side);
        res[i] = record(f, false)?;
        ctx.execs(1);
    }
    if res[1].2 != res[2].2 {
        return Err(format!("harness: {what}: the two runs have different outcomes"));
    }
    if res[1].1 == 0 {
        return Err("harness: nothing was recorded".into());
    }
    if res[1] == res[2] {
        return Ok(());
    }
    // again, keeping everything, to say where they part
    let mut logs = Vec::new();
    for side in 0..2 {
        prepare(side);
        record(f, true)?;
        logs.push(LOG.with(|l| std::mem::take(&mut *l.borrow_mut())));
    }
    let k = logs[0].iter().zip(&logs[1]).take_while(|(a, b)| a == b).count();
    let say = |e: Option<&(u8, u64)>| e.map_or("the end".into(), |(k, x)| format!("{} {x:#x}", KINDS[*k as usize]));
    if logs[0] == logs[1] {
        return Err(format!("harness: {what}: the traces differ, but not when taken again"));
    }
    Err(format!(
        "{what}: with the same public values and other secrets the execution differs: after {k} equal events of {} and {}, {} against {}",
        logs[0].len(),
        logs[1].len(),
        say(logs[0].get(k)),
        say(logs[1].get(k))
    ))
}

/// The same for the machine's instructions: each is executed equally often.
fn same_counts(prepare: &mut dyn FnMut(usize), f: &mut dyn FnMut() -> bool, what: &str, ctx: &mut Ctx) -> R {
    thread_local! {
        static WARM: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    }
    let mut one = |side: usize| -> Result<(bool, Vec<String>), String> {
        prepare(side);
        let r = record(f, false);
        let d = vg::take()?;
        ctx.execs(1);
        Ok((r?.2, d))
    };
    // what happens only the first time
    if !WARM.with(|w| w.borrow().iter().any(|x| x == what)) {
        WARM.with(|w| w.borrow_mut().push(what.into()));
        one(0)?;
    }
    let (mut a, mut b) = (one(0)?, one(1)?);
    if a.0 != b.0 {
        return Err(format!("harness: {what}: the two runs have different outcomes"));
    }
    for _ in 0..4 {
        if a == b {
            return Ok(());
        }
        // once more, to be sure of it
        let (c, d) = (one(0)?, one(1)?);
        if a == c && b == d {
            let show = |x: &[String], y: &[String]| x.iter().find(|l| y.binary_search(l).is_err()).cloned().unwrap_or_default();
            return Err(format!(
                "{what}: with the same public values and other secrets other machine instructions are executed: (function, address, times) {:?} against {:?}",
                show(&a.1, &b.1),
                show(&b.1, &a.1)
            ));
        }
        (a, b) = (c, d);
    }
    Err(format!("harness: {what}: the instruction counts are not repeatable"))
}

// ------------------------------------------------------------------------- the worker process

#[derive(Serialize, Deserialize)]
struct Answer {
    err: Option<String>,
    labels: Vec<String>,
    nt: bool,
    execs: u64,
}
/// Serve cases from the standard input.
fn worker() -> ! {
    fn go<C: serde::de::DeserializeOwned>(v: serde_json::Value, f: fn(&C, &mut Ctx) -> R, ctx: &mut Ctx) -> R {
        f(&serde_json::from_value(v).map_err(|e| format!("harness: {e}"))?, ctx)
    }
    for l in io::stdin().lines() {
        let Ok(l) = l else { break };
        let mut ctx = Ctx::default();
        let r = match serde_json::from_str::<(String, serde_json::Value)>(&l) {
            Ok((f, v)) => match &f[..] {
                "compare" => go(v, compare, &mut ctx),
                "field" => go(v, field, &mut ctx),
                "multiply" => go(v, multiply, &mut ctx),
                "cipher" => go(v, cipher, &mut ctx),
                "prf" => go(v, prf, &mut ctx),
                "exchange" => go(v, kex, &mut ctx),
                "handshake" => go(v, whole, &mut ctx),
                _ => Err("harness: no such facet".into()),
            },
            Err(e) => Err(format!("harness: {e}")),
        };
        let (labels, nt, execs) = ctx.take();
        println!("{}", serde_json::to_string(&Answer { err: r.err(), labels, nt, execs }).unwrap());
    }
    std::process::exit(0)
}
struct Remote {
    child: std::process::Child,
    out: io::BufReader<std::process::ChildStdout>,
    dir: String,
}
impl Drop for Remote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Remote {
    fn new(exe: &str) -> Result<Remote, String> {
        use std::process::{Command, Stdio};
        use std::sync::atomic::{AtomicU32, Ordering};
        static N: AtomicU32 = AtomicU32::new(0);
        let tmp = std::env::var("HV_CT_TMP").map_err(|_| "harness: HV_CT_TMP is not set")?;
        let dir = format!("{tmp}/{}", N.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {dir}: {e}"))?;
        let mut child = Command::new("valgrind")
            .args(["--tool=callgrind", "-q", "--vgdb=no", "--dump-instr=yes", "--dump-line=no", "--compress-strings=no", "--compress-pos=no"])
            .arg(format!("--callgrind-out-file={dir}/out"))
            .arg(exe)
            .env("HV_CT_WORKER", &dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .map_err(|e| format!("harness: valgrind: {e}"))?;
        let out = io::BufReader::new(child.stdout.take().unwrap());
        Ok(Remote { child, out, dir })
    }
    fn ask(&mut self, l: &str) -> Result<Answer, String> {
        let mut s = String::new();
        let r = writeln!(self.child.stdin.as_mut().unwrap(), "{l}").and_then(|_| io::BufRead::read_line(&mut self.out, &mut s));
        r.map_err(|e| format!("harness: the worker: {e}"))?;
        serde_json::from_str(&s).map_err(|e| format!("harness: the worker: {e} {s:?}"))
    }
}
/// Have one case run at machine level, by each of the builds.
fn remote<C: Serialize>(facet: &str, c: &C, ctx: &mut Ctx) -> R {
    thread_local! {
        static REMOTE: RefCell<Vec<(String, Option<Remote>)>> = const { RefCell::new(Vec::new()) };
    }
    REMOTE.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_empty() {
            let v = std::env::var("HV_CT_MACHINE").map_err(|_| "harness: HV_CT_MACHINE is not set")?;
            r.extend(v.split(' ').map(|x| (x.to_string(), None)));
        }
        let line = serde_json::to_string(&(facet, c)).unwrap();
        for (i, (exe, w)) in r.iter_mut().enumerate() {
            if w.is_none() {
                *w = Some(Remote::new(exe)?);
            }
            let a = w.as_mut().unwrap().ask(&line);
            if a.is_err() {
                *w = None;
            }
            let a = a?;
            ctx.execs(a.execs);
            if i == 0 {
                a.labels.into_iter().for_each(|l| ctx.label(l));
                if a.nt {
                    ctx.nt();
                }
            }
            if let Some(e) = a.err {
                return Err(if i == 0 || e.starts_with("harness:") { e } else { format!("built with opt-level 2: {e}") });
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------- facets

fn int(x: &BigUint) -> Int256 {
    let mut r = ZERO;
    for (i, v) in x.to_u32_digits().iter().enumerate() {
        r.v[i] = W(*v);
    }
    r
}
/// Two byte strings of one length: random, structured, or alike up to some place.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Two {
    Own(Blob, Blob),
    /// the second is the first with one byte changed
    Near(Blob, u32, u8),
    /// both share a prefix with a third, of different lengths
    Raw(Hex, Hex),
}
impl Two {
    fn get(&self) -> [Vec<u8>; 2] {
        match self {
            Two::Own(a, b) => [a.expand(), Blob { len: a.len, ..b.clone() }.expand()],
            Two::Near(a, at, x) => {
                let a = a.expand();
                let mut b = a.clone();
                if !b.is_empty() {
                    let k = pick(*at, b.len());
                    b[k] ^= x | 1;
                }
                [a, b]
            }
            Two::Raw(a, b) => {
                let n = a.len().min(b.len());
                [a[..n].to_vec(), b[..n].to_vec()]
            }
        }
    }
}
fn two(len: BoxedStrategy<u32>) -> BoxedStrategy<Two> {
    prop_oneof![
        2 => (blob(len.clone()), blob(len.clone())).prop_map(|(a, b)| Two::Own(a, b)),
        1 => (blob(len), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Two::Near(a, b, c)),
    ]
    .boxed()
}
fn two_keys(n: usize) -> BoxedStrategy<Two> {
    prop_oneof![3 => (keyish(n), keyish(n)).prop_map(|(a, b)| Two::Raw(a, b)), 1 => two(Just(n as u32).boxed())].boxed()
}
/// Inputs that stay where they are while their contents change.
struct Slots(Vec<[Vec<u8>; 2]>, Vec<Vec<u8>>);
impl Slots {
    fn new(v: Vec<[Vec<u8>; 2]>) -> Slots {
        let cur = v.iter().map(|x| x[0].clone()).collect();
        Slots(v, cur)
    }
    fn load(&mut self, side: usize) {
        for (c, v) in self.1.iter_mut().zip(&self.0) {
            c.copy_from_slice(&v[side]);
        }
    }
    fn differ(&self) -> bool {
        self.0.iter().any(|[a, b]| a != b)
    }
}
/// The common shape: slots, and a function of them.
fn run(slots: Slots, what: &str, ctx: &mut Ctx, f: impl Fn(&[Vec<u8>]) -> bool) -> R {
    if slots.differ() {
        ctx.nt();
    }
    let s = RefCell::new(slots);
    let view = s.as_ptr();
    // the closures below never overlap: prepare runs before each f
    same_trace(&mut |side| s.borrow_mut().load(side), &mut || f(unsafe { &(*view).1 }), what, ctx)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cmp {
    /// both operands secret, and where (if anywhere) they differ from each other on either side
    a: Two,
    diff: [Option<(u32, u8)>; 2],
    diffs: [Vec<(u32, u8)>; 2],
}
fn cmp_strat() -> BoxedStrategy<Cmp> {
    let len = prop_oneof![4 => Just(12u32), 2 => Just(16u32), 1 => Just(32u32), 1 => 1u32..100].boxed();
    let d = || (any::<u32>(), 1u8..=255);
    let many = || vec(d(), 0..6usize);
    (two(len), d(), d(), many(), many(), any::<bool>())
        .prop_map(|(a, d0, d1, m0, m1, eq)| Cmp { a, diff: if eq { [None, None] } else { [Some(d0), Some(d1)] }, diffs: if eq { [vec![], vec![]] } else { [m0, m1] } })
        .boxed()
}
fn compare(c: &Cmp, ctx: &mut Ctx) -> R {
    let a = c.a.get();
    let mut b = a.clone();
    for s in 0..2 {
        let n = b[s].len();
        for (at, x) in c.diffs[s].iter() {
            b[s][pick(*at, n)] ^= x;
        }
        if let Some((at, x)) = c.diff[s] {
            // at least one difference is left
            let k = pick(at, n);
            b[s][k] = a[s][k] ^ x;
        }
    }
    ctx.label(if c.diff[0].is_some() { "unequal" } else { "equal" });
    run(Slots::new(vec![a, b]), "comparison", ctx, |v| hv_ct::compare(&v[0], &v[1]))
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Field {
    op: u8,
    x: [Num; 2],
    y: [Num; 2],
    same: bool,
    /// the second pair: factors of the second x; or x moved up by whole words
    how: u8,
}
fn field_strat() -> BoxedStrategy<Field> {
    (0..hv_ct::FIELD_OPS as u8, op(), op(), op(), op(), proptest::bool::weighted(0.2), 0u8..24)
        .prop_map(|(op, a, b, c, d, same, how)| Field { op, x: [a, b], y: [c, d], same, how })
        .boxed()
}
fn field(c: &Field, ctx: &mut Ctx) -> R {
    let (p, zero) = (refr::p(), BigUint::from(0u8));
    let mut x = [c.x[0].get(), c.x[1].get()];
    let mut y = [c.y[0].get(), c.y[1].get()];
    if c.same {
        y[1] = x[1].clone(); // equal operands against others
    } else if c.how < 8 && y[1] != zero {
        ctx.label("the second product is chosen");
        x[1] = &x[1] * refr::finv(&y[1]) % p;
        if let (true, Some(r)) = (c.op == 3, refr::sqrt(&c.x[1].get())) {
            x[1] = r;
        }
    } else if c.how < 16 {
        ctx.label("few words");
        x[1] = (((&x[1] >> 160u32) << (32 * (c.how % 8) as u32)) & ((BigUint::from(1u8) << 256u32) - 1u8)) % p;
    }
    let (x, y) = ([int(&x[0]), int(&x[1])], [int(&y[0]), int(&y[1])]);
    ctx.nt();
    let (a, b) = (Cell::new(x[0]), Cell::new(y[0]));
    same_trace(
        &mut |s| {
            a.set(x[s]);
            b.set(y[s]);
        },
        &mut || {
            std::hint::black_box(hv_ct::field(c.op as usize, unsafe { &*a.as_ptr() }, unsafe { &*b.as_ptr() }));
            true
        },
        "field operation",
        ctx,
    )
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Sc {
    Limbs(Vec<u32>),
    Raw(Hex),
    Small(u16),
    NearN(i8),
    Bit(u8),
    Run(u8, u8),
}
impl Sc {
    fn get(&self) -> BigUint {
        let one = BigUint::from(1u8);
        match self {
            Sc::Limbs(l) => BigUint::new(l.clone()),
            Sc::Raw(h) => BigUint::from_bytes_be(h),
            Sc::Small(v) => BigUint::from(*v),
            Sc::NearN(d) => refr::n() + BigUint::from((*d as i32 + 200) as u32) - 200u32,
            Sc::Bit(b) => one << *b as u32,
            Sc::Run(a, b) => (((&one << (*b as u32 + 1)) - 1u8) << (*a as u32)) & ((&one << 256u32) - 1u8),
        }
    }
}
fn sc() -> BoxedStrategy<Sc> {
    prop_oneof![
        2 => limbs(8).prop_map(Sc::Limbs),
        3 => bytes(32).prop_map(Sc::Raw),
        1 => (0u16..20).prop_map(Sc::Small),
        1 => any::<i8>().prop_map(Sc::NearN),
        1 => any::<u8>().prop_map(Sc::Bit),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Sc::Run(a, b)),
    ]
    .boxed()
}
/// A point of the curve with chosen x: words, least significant first, then bytes that are cleared
/// (first, how many; most significant first). The next x on the curve is taken.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Target {
    x: Vec<u32>,
    clear: (u8, u8),
    odd: bool,
}
fn target() -> BoxedStrategy<Target> {
    let clear = prop_oneof![1 => Just((0u8, 0u8)), 3 => (Just(0u8), 1u8..32), 2 => (0u8..32, 1u8..8)];
    (prop_oneof![vec(any::<u32>(), 8), limbs(8)], clear, any::<bool>()).prop_map(|(x, clear, odd)| Target { x, clear, odd }).boxed()
}
impl Target {
    /// The point that gives this one when multiplied by `k`.
    fn over(&self, k: &BigUint) -> refr::Pt {
        let mut b = [0u8; 32];
        for (i, w) in self.x.iter().enumerate() {
            b[28 - 4 * i..32 - 4 * i].copy_from_slice(&w.to_be_bytes());
        }
        let at = self.clear.0 as usize;
        b[at..(at + self.clear.1 as usize).min(32)].fill(0);
        let mut x = BigUint::from_bytes_be(&b) % refr::p();
        let y = loop {
            match refr::sqrt(&refr::rhs(&x)) {
                Some(y) => break y,
                None => x = (x + 1u8) % refr::p(),
            }
        };
        let y = if y.bit(0) == self.odd { y } else { refr::p() - y };
        let k = k % refr::n();
        if k == BigUint::from(0u8) {
            return None;
        }
        refr::mul(&k.modpow(&(refr::n() - 2u8), refr::n()), &Some((x, y)))
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mul {
    /// the point is this multiple of the base point
    base: Sc,
    k: [Sc; 2],
    /// instead: the point that the second scalar takes here
    #[serde(default)]
    to: Option<Target>,
}
fn mul_strat() -> BoxedStrategy<Mul> {
    (sc(), sc(), sc(), proptest::option::weighted(0.4, target())).prop_map(|(base, a, b, to)| Mul { base, k: [a, b], to }).boxed()
}
fn multiply(c: &Mul, ctx: &mut Ctx) -> R {
    let chosen = c.to.as_ref().and_then(|t| t.over(&c.k[1].get()));
    ctx.label(if chosen.is_some() { "the second result is chosen" } else { "point chosen" });
    let p: Point256 = match chosen.or_else(|| refr::mul(&(c.base.get() % refr::n()), &refr::g())) {
        Some((x, y)) => NPoint256 { x: int(&x), y: int(&y) }.to_point(),
        None => G,
    };
    let k = [int(&c.k[0].get()), int(&c.k[1].get())];
    if c.k[0].get() != c.k[1].get() {
        ctx.nt();
    }
    let cur = Cell::new(k[0]);
    same_trace(&mut |s| cur.set(k[s]), &mut || {
        hv_ct::multiply(&p, unsafe { &*cur.as_ptr() });
        true
    }, "scalar multiplication", ctx)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Seal {
    key: Two,
    nonce: Hex,
    data: Vec<Two>,
    ad: Hex,
    /// wrong tags, for opening
    tag: [(u8, u8); 2],
    how: u8,
    /// where the second accumulator of Poly1305 is to land
    #[serde(default)]
    end: Option<(u8, i8, u8)>,
}
fn seal_strat() -> BoxedStrategy<Seal> {
    let len = prop_oneof![4 => 0u32..100, 2 => (0u32..6, 0u32..3).prop_map(|(a, b)| (a * 64 + b).saturating_sub(1)), 1 => 0u32..3000].boxed();
    (two_keys(32), keyish(12), vec(two(len), 1..4usize), bytes(0..30usize), (0u8..16, 1u8..=255), (0u8..16, 1u8..=255), prop_oneof![4 => 2u8..7, 1 => Just(0u8), 2 => Just(1u8)], proptest::option::weighted(0.7, (0u8..10, -8i8..=8, any::<u8>())))
        .prop_map(|(key, nonce, data, ad, t0, t1, how, end)| Seal { key, nonce, data, ad, tag: [t0, t1], how, end })
        .boxed()
}
fn cipher(c: &Seal, ctx: &mut Ctx) -> R {
    let key = c.key.get();
    let data: Vec<[Vec<u8>; 2]> = c.data.iter().map(|d| d.get()).collect();
    match c.how {
        0 => {
            ctx.label("keystream");
            let mut v = vec![key];
            v.extend(data);
            run(Slots::new(v), "ChaCha20", ctx, |v| {
                let d: Vec<&[u8]> = v[1..].iter().map(|x| &x[..]).collect();
                hv_ct::keystream(&v[0], &c.nonce, &d);
                true
            })
        }
        1 => {
            ctx.label("poly1305");
            let mut msg = data[0].clone();
            if let Some((m, l)) = c.end.and_then(|e| steer::poly(&key[1][..16], &msg[1], e)) {
                ctx.label(format!("second {l}"));
                msg[0].resize(m.len(), 9);
                msg[1] = m;
            }
            run(Slots::new(vec![key, msg]), "Poly1305", ctx, |v| {
                let (mut r, mut s) = ([0u8; 16], [0u8; 16]);
                r.copy_from_slice(&v[0][..16]);
                s.copy_from_slice(&v[0][16..]);
                std::hint::black_box(hv_ct::poly(&v[1], &r, &s));
                true
            })
        }
        2 => {
            ctx.label("seal");
            run(Slots::new(vec![key, data[0].clone()]), "sealing", ctx, |v| {
                hv_ct::seal(&v[0], &c.nonce, &v[1], &c.ad);
                true
            })
        }
        3..=4 => {
            // genuine, or with tags that differ from the right one in different places
            let wrong = c.how == 4;
            ctx.label(if wrong { "open with a wrong tag" } else { "open" });
            let mut d = [vec![], vec![]];
            for s in 0..2 {
                d[s] = refr::aead_seal(&key[s], &c.nonce, &c.ad, &data[0][s]);
                if wrong {
                    let l = d[s].len();
                    d[s][l - 16 + c.tag[s].0 as usize] ^= c.tag[s].1;
                }
            }
            run(Slots::new(vec![key, d]), "opening", ctx, |v| hv_ct::open(&v[0], &c.nonce, &v[1], &c.ad))
        }
        5 => {
            ctx.label("write records");
            let mut v = vec![key];
            v.extend(data);
            run(Slots::new(v), "writing records", ctx, |v| {
                let o = off();
                let w: hv_ct::W = Box::new(io::sink());
                drop(o);
                let d: Vec<&[u8]> = v[1..].iter().map(|x| &x[..]).collect();
                hv_ct::write_records(w, &v[0], &c.nonce, &d)
            })
        }
        _ => {
            ctx.label("read records");
            let mut w = [vec![], vec![]];
            for s in 0..2 {
                for (i, d) in data.iter().enumerate() {
                    w[s].extend(refr::tls_record(&key[s], &c.nonce, i as u64, 23, (3, 3), &d[s]));
                }
            }
            let n = data.len();
            run(Slots::new(vec![key, w]), "reading records", ctx, |v| {
                let o = off();
                let r: hv_ct::R = Box::new(Quiet(io::Cursor::new(v[1].clone())));
                drop(o);
                hv_ct::read_records(r, &v[0], &c.nonce, n) == n
            })
        }
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PrfCase {
    secret: Two,
    seed: Two,
    draws: Vec<u8>,
}
fn prf_strat() -> BoxedStrategy<PrfCase> {
    let l = prop_oneof![2 => Just(48u32), 2 => Just(32u32), 1 => 0u32..130].boxed();
    (two(l), two((0u32..150).boxed()), vec(0u8..100, 1..5usize)).prop_map(|(secret, seed, draws)| PrfCase { secret, seed, draws }).boxed()
}
fn prf(c: &PrfCase, ctx: &mut Ctx) -> R {
    let d: Vec<usize> = c.draws.iter().map(|x| *x as usize).collect();
    run(Slots::new(vec![c.secret.get(), c.seed.get()]), "PRF", ctx, |v| {
        hv_ct::prf(&v[0], &v[1], &d);
        hv_ct::hmac(&v[0], &v[1]);
        true
    })
}
/// The transport and the server are not under the recorder.
struct Quiet<X>(X);
impl<X: Read> Read for Quiet<X> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let _o = off();
        self.0.read(b)
    }
}
impl<X: Write> Write for Quiet<X> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = off();
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _o = off();
        self.0.flush()
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Kex {
    server: u64,
    entropy: [Hex; 2],
    /// instead of that server key: one with which the second secret shared is this, the private key
    /// being the bytes drawn, least or most significant first
    #[serde(default)]
    to: Option<(Target, bool)>,
}
fn kex_strat() -> BoxedStrategy<Kex> {
    let e = || prop_oneof![1 => vec(any::<u8>(), 32), 1 => vec(prop_oneof![Just(0u8), Just(0x7f), any::<u8>()], 32)].prop_map(|mut v| {
        // not to be drawn again, whichever way round the words are taken
        v.iter_mut().step_by(4).for_each(|b| *b &= 0x7f);
        v.iter_mut().skip(3).step_by(4).for_each(|b| *b = *b & 0x7f | 1);
        Hex(v)
    });
    (1u64..1 << 40, e(), e(), proptest::option::weighted(0.5, (target(), proptest::bool::weighted(0.9))))
        .prop_map(|(server, a, b, to)| Kex { server, entropy: [a, b], to })
        .boxed()
}
fn kex(c: &Kex, ctx: &mut Ctx) -> R {
    let chosen = c.to.as_ref().and_then(|(t, le)| t.over(&if *le { BigUint::from_bytes_le(&c.entropy[1]) } else { BigUint::from_bytes_be(&c.entropy[1]) }));
    ctx.label(if chosen.is_some() { "the second secret is chosen" } else { "server key chosen" });
    let (x, y) = chosen.or_else(|| refr::mul(&BigUint::from(c.server), &refr::g())).unwrap();
    let d = wire::ske(&wire::Ske { curve: 23, point: Hex(refr::encode_point(&x, &y)), alg: (4, 1), sig: Hex(vec![7; 32]) });
    if c.entropy[0] != c.entropy[1] {
        ctx.nt();
    }
    same_trace(&mut |s| getrandom::set_entropy(&c.entropy[s], 5), &mut || hv_ct::exchange(&d), "key exchange", ctx)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Whole {
    cfg: Cfg,
    seed: u64,
    /// what is changed in the drawn bytes: bytes of the first or second half
    flip: Vec<(u8, u8)>,
    data: Two,
    down: Two,
    /// the server's Finished is wrong, in different places
    wrong: Option<[(u8, u8); 2]>,
    /// the server's key is chosen so that the second premaster secret begins with a zero byte
    #[serde(default)]
    lead: bool,
}
fn whole_strat() -> BoxedStrategy<Whole> {
    let m = || (0u8..12, 1u8..=255);
    (small_cfg(), any::<u64>(), vec((0u8..31, any::<u8>()), 1..6usize), two((0u32..200).boxed()), two((1u32..200).boxed()), proptest::option::weighted(0.5, (m(), m())), proptest::bool::weighted(0.3))
        .prop_map(|(cfg, seed, flip, data, down, wrong, lead)| Whole { cfg, seed, flip, data, down, wrong: wrong.map(|(a, b)| [a, b]), lead })
        .boxed()
}
fn whole(c: &Whole, ctx: &mut Ctx) -> R {
    // which drawn bytes do not show in the hello: the private key's
    let share = RefCell::new(None);
    let hello = |e: &[u8]| -> Result<(Vec<u8>, usize, Vec<u8>), String> {
        getrandom::set_entropy(e, c.seed);
        let net = Net::new(Server::new(c.cfg.clone()));
        let r = connect(&net)?;
        if r.is_err() {
            return Err("a conforming handshake fails".into());
        }
        drop(r);
        let n = net.net();
        let l = (n.c2s[3] as usize) << 8 | n.c2s[4] as usize;
        // the client key exchange follows in a record of its own
        *share.borrow_mut() = n.c2s.get(5 + l + 5 + 4 + 1..).and_then(|d| d.get(..65)).and_then(refr::decode_point);
        Ok((n.c2s[..5 + l].to_vec(), getrandom::entropy_log().len(), getrandom::entropy_log()))
    };
    let (h0, n0, log) = hello(&[])?;
    let mut other = None;
    for half in [1, 0] {
        let mut e = log.clone();
        for (at, x) in &c.flip {
            let k = half * n0 / 2 + *at as usize;
            // the low half of a word, so that the draw is not repeated
            if k < e.len() && k % 4 < 2 {
                e[k] ^= x;
            }
        }
        let (h1, n1, _) = hello(&e)?;
        if h1 == h0 && n1 == n0 && e != log {
            other = Some(e);
            break;
        }
    }
    let Some(other) = other else {
        ctx.label("no other private key found");
        return Ok(());
    };
    ctx.nt();
    let mut cfg = c.cfg.clone();
    if let (true, Some(q)) = (c.lead, share.take()) {
        let q = Some(q);
        let mut k = cfg.key.scalar();
        let mut s = refr::mul(&k, &q);
        for _ in 0..3000 {
            match &s {
                Some((x, _)) if x.bits() <= 248 => {
                    ctx.label("the second premaster secret begins with zero");
                    cfg.key = Key::Full(Hex((&k - 1u8).to_bytes_be()));
                    break;
                }
                _ => (),
            }
            s = refr::add(&s, &q);
            k += 1u8;
        }
    }
    let (data, down) = (c.data.get(), c.down.get());
    ctx.label(if c.wrong.is_some() { "wrong Finished" } else { "completed" });
    let slot = RefCell::new((data[0].clone(), None::<Shared<Server>>));
    let n = down[0].len();
    same_trace(
        &mut |s| {
            let mut b = slot.borrow_mut();
            b.0.copy_from_slice(&data[s]);
            getrandom::set_entropy(if s == 0 { &log } else { &other }, c.seed);
            let mut srv = Server::new(cfg.clone());
            if let Some(w) = &c.wrong {
                let mut m = vec![0u8; 12];
                m[w[s].0 as usize] = w[s].1;
                srv.devs = vec![Dev { flight: 1, at: 1, agreed: false, op: Op::FinMask(Hex(m)) }];
            }
            let net = Net::new(srv);
            net.net().peer.queue = vec![Item::sealed(23, down[s].clone())];
            b.1 = Some(net);
        },
        &mut || {
            let o = off();
            let (r, w): (hv_ct::R, hv_ct::W) = {
                let b = slot.borrow();
                let net = b.1.as_ref().unwrap();
                (Box::new(Quiet(net.reader())), Box::new(Quiet(net.writer())))
            };
            let d = slot.as_ptr();
            drop(o);
            hv_ct::client(r, w, unsafe { &(*d).0 }, n)
        },
        "handshake",
        ctx,
    )
}
fn m_compare(c: &Cmp, x: &mut Ctx) -> R {
    remote("compare", c, x)
}
fn m_field(c: &Field, x: &mut Ctx) -> R {
    remote("field", c, x)
}
fn m_multiply(c: &Mul, x: &mut Ctx) -> R {
    remote("multiply", c, x)
}
fn m_cipher(c: &Seal, x: &mut Ctx) -> R {
    remote("cipher", c, x)
}
fn m_prf(c: &PrfCase, x: &mut Ctx) -> R {
    remote("prf", c, x)
}
fn m_handshake(c: &Whole, x: &mut Ctx) -> R {
    remote("handshake", c, x)
}
fn main() {
    if vg::dir().is_some() {
        worker();
    }
    hv::fw::main(Property {
        id: "C26",
        assumptions: &[
            "what is observed is every branch, load and store address, computed index, divisor and memory comparison of husk's code after optimisation (LLVM's own instrumentation), not cycles; a branch that the code generator makes out of a selection, and the cache, are not seen",
            "lengths, and the success or failure of a verification, are public",
        ],
        facets: vec![
            facet(Facet { name: "compare", rule: "pairs of comparisons of one length with the same verdict, differing in different places; non-trivial: the operands are not the same", quick: 40_000, thorough: 4_000_000, shrink: 300, strategy: cmp_strat, check: compare }),
            facet(Facet { name: "field", rule: "every field operation on pairs of reduced operands with special limbs; every case counts", quick: 40_000, thorough: 4_000_000, shrink: 300, strategy: field_strat, check: field }),
            facet(Facet { name: "multiply", rule: "one point, two scalars (random, sparse, small, around the order, runs of ones), with normalisation and encoding; non-trivial: the scalars differ", quick: 300, thorough: 30_000, shrink: 60, strategy: mul_strat, check: multiply }),
            facet(Facet { name: "cipher", rule: "ChaCha20, Poly1305, sealing, opening (right and wrong tags), record writing and reading under two keys with two plaintexts of one length; non-trivial: they differ", quick: 12_000, thorough: 1_200_000, shrink: 300, strategy: seal_strat, check: cipher }),
            facet(Facet { name: "prf", rule: "PRF and HMAC with two secrets and seeds of one length; non-trivial: they differ", quick: 12_000, thorough: 1_200_000, shrink: 300, strategy: prf_strat, check: prf }),
            facet(Facet { name: "exchange", rule: "the client's key exchange with two private keys; non-trivial: they differ", quick: 200, thorough: 20_000, shrink: 40, strategy: kex_strat, check: kex }),
            facet(Facet { name: "handshake", rule: "whole handshakes with data in both directions, same hello and server flight, two private keys, two plaintexts of one length, and (half of them) server Finished values wrong in different places; non-trivial: another private key was found", quick: 150, thorough: 15_000, shrink: 30, strategy: whole_strat, check: whole }),
            facet(Facet { name: "machine-compare", rule: "as compare, for machine instructions", quick: 1_000, thorough: 100_000, shrink: 60, strategy: cmp_strat, check: m_compare }),
            facet(Facet { name: "machine-field", rule: "as field, for machine instructions", quick: 1_000, thorough: 100_000, shrink: 60, strategy: field_strat, check: m_field }),
            facet(Facet { name: "machine-multiply", rule: "as multiply, for machine instructions", quick: 16, thorough: 800, shrink: 6, strategy: mul_strat, check: m_multiply }),
            facet(Facet { name: "machine-cipher", rule: "as cipher, for machine instructions", quick: 600, thorough: 60_000, shrink: 60, strategy: seal_strat, check: m_cipher }),
            facet(Facet { name: "machine-prf", rule: "as prf, for machine instructions", quick: 400, thorough: 40_000, shrink: 60, strategy: prf_strat, check: m_prf }),
            facet(Facet { name: "machine-handshake", rule: "as handshake, for machine instructions", quick: 8, thorough: 200, shrink: 3, strategy: whole_strat, check: m_handshake }),
        ],
    })
}
