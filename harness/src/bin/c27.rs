//! C27: connections in one process do not influence each other.
use hv::devs;
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use husk::TlsClient;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Write(Blob),
    Flush,
    Send(Blob),
    Read(u32),
    /// a record altered by the network
    Tamper(Blob),
    Alert(u8, u8),
    Close,
    Drop,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Conn {
    cfg: Cfg,
    devs: Vec<Dev>,
    entropy: u64,
    rd: Vec<u16>,
    wr: Vec<u16>,
    rfault: Option<(u16, Fault)>,
    wfault: Option<(u16, Fault)>,
    acts: Vec<Act>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    conns: Vec<Conn>,
    /// who goes on at each point where a connection touches its transport, cyclic
    sched: Vec<u8>,
}
fn data(big: bool) -> BoxedStrategy<Blob> {
    if big {
        return blob(prop_oneof![2 => 1u32..200, 3 => 200u32..3000, 1 => 16_000u32..40_000].boxed());
    }
    blob(prop_oneof![8 => 1u32..60, 1 => Just(0u32), 3 => 60u32..600, 1 => 16_380u32..17_000].boxed())
}
fn act(big: bool) -> BoxedStrategy<Act> {
    prop_oneof![
        5 => data(big).prop_map(Act::Write),
        1 => Just(Act::Flush),
        5 => data(big).prop_map(Act::Send),
        5 => prop_oneof![3 => 1u32..80, 2 => 80u32..40_000].prop_map(Act::Read),
        (!big as u32) => data(false).prop_map(Act::Tamper),
        (!big as u32) => (any::<u8>(), 1u8..=2).prop_map(|(d, l)| Act::Alert(d, l)),
        1 => Just(Act::Close),
        1 => Just(Act::Drop),
    ]
    .boxed()
}
fn sizes() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(prop_oneof![6 => 1u16..60, 1 => Just(0u16)], 1..5usize)].boxed()
}
fn fault() -> BoxedStrategy<Option<(u16, Fault)>> {
    let f = prop_oneof![Just(Fault::Eof), any::<u8>().prop_map(Fault::Dead), any::<u8>().prop_map(Fault::Once)];
    proptest::option::weighted(0.12, (0u16..900, f)).boxed()
}
fn conn(calm: bool) -> BoxedStrategy<Conn> {
    let devs = if calm { Just(vec![]).boxed() } else { prop_oneof![6 => Just(vec![]), 1 => vec(devs::dev(), 1usize)].boxed() };
    let f = move || if calm { Just(None).boxed() } else { fault() };
    let n = if calm { 1..24usize } else { 0..12usize };
    (small_cfg(), devs, any::<u64>(), sizes(), sizes(), f(), f(), vec(act(calm), n))
        .prop_map(|(cfg, devs, entropy, rd, wr, rfault, wfault, acts)| Conn { cfg, devs, entropy, rd, wr, rfault, wfault, acts })
        .boxed()
}
/// Connections that have something in common: the same server, or the same randomness.
fn kin(mut v: Vec<Conn>, how: Vec<u8>) -> Vec<Conn> {
    for i in 1..v.len() {
        let h = how[i % how.len()];
        if h & 3 == 0 {
            v[i].cfg = v[i - 1].cfg.clone();
        }
        if h & 3 == 1 {
            v[i].cfg.key = v[i - 1].cfg.key.clone();
        }
        if h & 12 == 0 {
            v[i].entropy = v[i - 1].entropy;
        }
        if h & 48 == 0 {
            v[i].acts = v[i - 1].acts.clone();
        }
    }
    v
}
fn strat(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    let one = prop_oneof![2 => conn(false), 1 => conn(true)];
    let sched = prop_oneof![4 => vec(any::<u8>(), 1..40usize), 1 => vec(0u8..6, 1..6usize)];
    (vec(one, lo..=hi), vec(any::<u8>(), 4usize), sched).prop_map(|(v, h, sched)| Case { conns: kin(v, h), sched }).boxed()
}
fn strat_mixed() -> BoxedStrategy<Case> {
    strat(2, 4)
}
fn strat_parallel() -> BoxedStrategy<Case> {
    (vec(conn(true), 3..8usize), vec(any::<u8>(), 4usize), Just(vec![0u8])).prop_map(|(v, h, sched)| Case { conns: kin(v, h), sched }).boxed()
}

/// Called at every contact of the client with its transport.
type Hook = Rc<dyn Fn()>;
struct HR(Rd<Server>, Hook);
struct HW(Wr<Server>, Hook);
impl Read for HR {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        (self.1)();
        self.0.read(b)
    }
}
impl Write for HW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        (self.1)();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        (self.1)();
        self.0.flush()
    }
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Outcome {
    log: Vec<String>,
    c2s: Vec<u8>,
    s2c: Vec<u8>,
    taken: usize,
    drawn: Vec<u8>,
    opened: bool,
    app_in: Vec<u8>,
}
/// One connection as a sequence of steps: the handshake, then its acts.
struct Runner {
    spec: Conn,
    net: Shared<Server>,
    client: Option<TlsClient<HR, HW>>,
    entropy: getrandom::Stream,
    next: usize,
    out: Outcome,
    hook: Hook,
}
impl Runner {
    fn new(spec: &Conn, hook: Hook) -> Runner {
        let net = Net::new(Server::new(spec.cfg.clone()));
        {
            let mut n = net.net();
            n.peer.devs = spec.devs.clone();
            n.rd = spec.rd.clone();
            n.wr = spec.wr.clone();
            n.rfault = spec.rfault.map(|(a, f)| (a as u64, f));
            n.wfault = spec.wfault.map(|(a, f)| (a as u64, f));
        }
        Runner { spec: spec.clone(), net, client: None, entropy: getrandom::Stream::seeded(&[], spec.entropy), next: 0, out: Outcome::default(), hook }
    }
    fn done(&self) -> bool {
        self.next > self.spec.acts.len()
    }
    fn step(&mut self) {
        let i = self.next;
        self.next += 1;
        // the thread's own stream holds whoever's step this one interrupts
        getrandom::swap_entropy(&mut self.entropy);
        let r = guarded(|| self.inner(i));
        getrandom::swap_entropy(&mut self.entropy);
        self.out.log.push(match r {
            Ok(s) => s,
            Err(p) => {
                // after a panic the object is not used further
                std::mem::forget(self.client.take());
                p
            }
        });
    }
    fn inner(&mut self, i: usize) -> String {
        if i == 0 {
            let (r, w) = (HR(self.net.reader(), self.hook.clone()), HW(self.net.writer(), self.hook.clone()));
            return match TlsClient::new(r, w, rand::rngs::OsRng) {
                Ok(c) => {
                    self.client = Some(c);
                    self.out.opened = true;
                    "open".into()
                }
                Err(e) => format!("{:?} {}", e.kind, e.desc),
            };
        }
        let put = |net: &Shared<Server>, ty: u8, d: &[u8], tamper: bool| {
            let mut n = net.net();
            n.pump();
            if n.peer.keys.is_none() {
                return;
            }
            for c in d.chunks(16384) {
                let mut r = n.peer.seal(ty, (3, 3), c, 0, false);
                if tamper {
                    let last = r.len() - 1;
                    r[last] ^= 1;
                }
                n.s2c.extend(r);
            }
        };
        match &self.spec.acts[i - 1] {
            Act::Send(b) => put(&self.net, 23, &b.expand(), false),
            Act::Tamper(b) => put(&self.net, 23, &b.expand(), true),
            Act::Alert(d, l) => put(&self.net, 21, &[*l, hv::wire::KNOWN_ALERTS[*d as usize % hv::wire::KNOWN_ALERTS.len()]], false),
            Act::Drop => drop(self.client.take()),
            a => {
                let Some(c) = self.client.as_mut() else { return "gone".into() };
                return match a {
                    Act::Write(b) => format!("{:?}", c.write(&b.expand()).map_err(|e| (e.kind(), e.to_string()))),
                    Act::Flush => format!("{:?}", c.flush().map_err(|e| (e.kind(), e.to_string()))),
                    Act::Read(n) => {
                        let mut b = vec![0x5a; *n as usize];
                        match c.read(&mut b) {
                            Ok(k) => format!("read {k} {}", hex(b.get(..k).unwrap_or(&b))),
                            Err(e) => format!("{:?} {e}", e.kind()),
                        }
                    }
                    _ => format!("{:?}", c.close().map_err(|e| (format!("{:?}", e.kind), e.desc))),
                };
            }
        }
        "done".into()
    }
    fn finish(mut self) -> Outcome {
        drop(self.client.take());
        getrandom::swap_entropy(&mut self.entropy);
        self.out.drawn = getrandom::entropy_log();
        getrandom::swap_entropy(&mut self.entropy);
        let mut n = self.net.net();
        n.pump();
        self.out.c2s = n.c2s.clone();
        self.out.s2c = n.s2c.clone();
        self.out.taken = n.rpos;
        self.out.app_in = n.peer.app_in.clone();
        drop(n);
        self.out
    }
}
fn alone(c: &Conn) -> Outcome {
    let mut r = Runner::new(c, Rc::new(|| ()));
    while !r.done() {
        r.step();
    }
    r.finish()
}

// ---- threads that may block each other -------------------------------------------------------

static POISONED: AtomicBool = AtomicBool::new(false);
struct Party<T> {
    rx: mpsc::Receiver<std::thread::Result<T>>,
    tid: Arc<AtomicU64>,
}
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Party<T> {
    let (tx, rx) = mpsc::channel();
    let t = Arc::new(AtomicU64::new(0));
    let t2 = t.clone();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            t2.store(tid(), Ordering::SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _ = tx.send(r);
        })
        .expect("thread");
    Party { rx, tid: t }
}
/// (state, ticks of processor time) of a thread.
fn stat(tid: u64) -> Option<(char, u64)> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = t.rsplit(')').next()?.split_whitespace().collect();
    Some((f.first()?.chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
}
/// Wait for all; a group in which every thread sleeps for good has locked up, one that computes
/// without end spins.
fn gather<T>(ps: Vec<Party<T>>) -> Result<Vec<T>, String> {
    let n = ps.len();
    let mut got: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut since: Option<(Instant, u64)> = None;
    let mut left = n;
    while left > 0 {
        let mut wait = Duration::from_millis(200);
        for (i, p) in ps.iter().enumerate() {
            if got[i].is_some() {
                continue;
            }
            match p.rx.recv_timeout(wait) {
                Ok(Ok(v)) => {
                    got[i] = Some(v);
                    left -= 1;
                    since = None;
                    continue;
                }
                Ok(Err(e)) => std::panic::resume_unwind(e),
                Err(_) => wait = Duration::from_millis(1),
            }
        }
        if left == 0 {
            break;
        }
        let st: Vec<(char, u64)> = (0..n).filter(|i| got[*i].is_none()).map(|i| stat(ps[i].tid.load(Ordering::SeqCst)).unwrap_or(('?', 0))).collect();
        let ticks: u64 = st.iter().map(|s| s.1).sum();
        if ticks > 90 * 100 * n as u64 {
            POISONED.store(true, Ordering::SeqCst);
            return Err("the connections compute without end".into());
        }
        if st.iter().all(|s| s.0 == 'S') {
            match since {
                Some((t, k)) if k == ticks => {
                    if t.elapsed() > Duration::from_secs(4) {
                        POISONED.store(true, Ordering::SeqCst);
                        return Err("the connections wait for each other for ever".into());
                    }
                }
                _ => since = Some((Instant::now(), ticks)),
            }
        } else {
            since = None;
        }
    }
    Ok(got.into_iter().map(|g| g.unwrap()).collect())
}
/// Every connection by itself, one after the other, in a thread of its own.
fn baseline(c: &Case) -> Result<Vec<Outcome>, String> {
    let mut v = Vec::new();
    for one in &c.conns {
        let one = one.clone();
        v.extend(gather(vec![spawn(move || alone(&one))])?);
    }
    Ok(v)
}
fn first_difference(a: &Outcome, b: &Outcome) -> String {
    for (i, (x, y)) in a.log.iter().zip(&b.log).enumerate() {
        if x != y {
            let s = |t: &str| t.chars().take(160).collect::<String>();
            return format!("step {i} gives '{}' alone and '{}' beside the others", s(x), s(y));
        }
    }
    if a.drawn != b.drawn {
        return format!("it draws {} random bytes alone and {} beside the others", a.drawn.len(), b.drawn.len());
    }
    if a.c2s != b.c2s {
        let at = a.c2s.iter().zip(&b.c2s).position(|(x, y)| x != y).unwrap_or(a.c2s.len().min(b.c2s.len()));
        return format!("it sends {} bytes alone and {} beside the others, first different at {at}", a.c2s.len(), b.c2s.len());
    }
    "it takes other bytes from its transport".into()
}
/// Alone, together, alone again; and what must differ between connections does.
fn judge_all(c: &Case, ctx: &mut Ctx, together: impl FnOnce() -> Result<(Vec<Outcome>, u64), String>) -> R {
    if POISONED.load(Ordering::SeqCst) {
        return Ok(());
    }
    let before = baseline(c)?;
    let (mixed, nested) = together()?;
    let after = baseline(c)?;
    for i in 0..before.len() {
        if before[i] != mixed[i] {
            return Err(format!("connection {i} of {}: {}", before.len(), first_difference(&before[i], &mixed[i])));
        }
        if before[i] != after[i] {
            return Err(format!("connection {i} of {} run by itself twice: {}", before.len(), first_difference(&before[i], &after[i]).replace("beside the others", "the second time")));
        }
    }
    // where nothing goes wrong, the connections also work: state that outlives every case so far
    // would be in all three runs
    for (i, (o, k)) in before.iter().zip(&c.conns).enumerate() {
        if !k.devs.is_empty() || k.rfault.is_some() || k.wfault.is_some() {
            continue;
        }
        if !o.opened {
            return Err(format!("connection {i} of {} does not complete with a conforming server: {}", before.len(), o.log[0]));
        }
        let mut sent = Vec::new();
        for (a, l) in k.acts.iter().zip(&o.log[1..]) {
            match a {
                Act::Write(b) if l.starts_with("Ok") => sent.extend(b.expand()),
                Act::Close | Act::Drop => break,
                _ => {}
            }
        }
        if !k.acts.iter().any(|a| matches!(a, Act::Tamper(_) | Act::Alert(..))) {
            let (mut due, mut got) = (Vec::new(), 0);
            for (a, l) in k.acts.iter().zip(&o.log[1..]) {
                match a {
                    Act::Send(b) => due.extend(b.expand()),
                    Act::Read(n) if *n > 0 && l.starts_with("read ") => {
                        let (_, h) = l[5..].split_once(' ').unwrap_or(("", ""));
                        let b = unhex(h).unwrap_or_default();
                        if !due[got..].starts_with(&b) || b.is_empty() && got < due.len() {
                            return Err(format!("connection {i} of {} read {} bytes that are not the next of the {} waiting", before.len(), b.len(), due.len() - got));
                        }
                        got += b.len();
                    }
                    _ => {}
                }
            }
        }
        if !o.app_in.starts_with(&sent) {
            return Err(format!("the server of connection {i} did not receive the {} bytes written", sent.len()));
        }
    }
    // different randomness: nothing that is derived from it may be shared
    for i in 0..before.len() {
        for j in 0..i {
            let (a, b) = (&before[i], &before[j]);
            if c.conns[i].entropy == c.conns[j].entropy || !a.opened || !b.opened {
                continue;
            }
            let parts = |o: &Outcome| -> Vec<Vec<u8>> {
                let (recs, _) = hv::wire::split_records(&o.c2s);
                let mut v: Vec<Vec<u8>> = recs.iter().take(2).map(|r| r.2.clone()).collect();
                if let Some(h) = v.first_mut() {
                    *h = h.get(6..38).unwrap_or(&[]).to_vec();
                }
                v
            };
            for (k, (x, y)) in parts(a).iter().zip(&parts(b)).enumerate() {
                if x == y {
                    return Err(format!("connections {j} and {i} have different randomness and the same {}", ["hello random", "key share"][k]));
                }
            }
        }
    }
    ctx.execs(3 * c.conns.len() as u64);
    let open = before.iter().filter(|o| o.opened).count();
    if open > 1 && nested > 0 {
        ctx.nt();
    }
    if open < before.len() {
        ctx.label("with a failed handshake among them");
    }
    if (1..c.conns.len()).any(|i| c.conns[i].cfg == c.conns[i - 1].cfg) {
        ctx.label("two with the same server");
    }
    if (1..c.conns.len()).any(|i| c.conns[i].entropy == c.conns[i - 1].entropy) {
        ctx.label("two with the same randomness");
    }
    Ok(())
}

// ---- one thread: steps of other connections inside a transport call ---------------------------

struct Group {
    runners: Vec<RefCell<Runner>>,
    sched: Vec<u8>,
    at: std::cell::Cell<usize>,
    depth: std::cell::Cell<usize>,
    nested: std::cell::Cell<u64>,
}
impl Group {
    fn pick(&self) -> u8 {
        let i = self.at.get();
        self.at.set(i + 1);
        self.sched[i % self.sched.len()]
    }
    fn contact(&self) {
        if self.depth.get() >= 6 {
            return;
        }
        let p = self.pick() as usize;
        // half of the contacts pass
        if p & 1 == 0 {
            return;
        }
        let r = &self.runners[(p >> 1) % self.runners.len()];
        // whoever is on the stack cannot be entered again
        if let Ok(mut r) = r.try_borrow_mut() {
            if !r.done() {
                self.nested.set(self.nested.get() + 1);
                self.depth.set(self.depth.get() + 1);
                r.step();
                self.depth.set(self.depth.get() - 1);
            }
        }
    }
}
fn one_thread(c: &Case) -> (Vec<Outcome>, u64) {
    let slot: Rc<RefCell<Option<Rc<Group>>>> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let hook: Hook = Rc::new(move || {
        let g = s2.borrow().clone();
        if let Some(g) = g {
            g.contact()
        }
    });
    let g = Rc::new(Group {
        runners: c.conns.iter().map(|k| RefCell::new(Runner::new(k, hook.clone()))).collect(),
        sched: c.sched.clone(),
        at: Default::default(),
        depth: Default::default(),
        nested: Default::default(),
    });
    *slot.borrow_mut() = Some(g.clone());
    loop {
        let open: Vec<usize> = (0..g.runners.len()).filter(|i| !g.runners[*i].borrow().done()).collect();
        if open.is_empty() {
            break;
        }
        let p = g.pick() as usize;
        g.runners[open[p % open.len()]].borrow_mut().step();
    }
    *slot.borrow_mut() = None;
    let nested = g.nested.get();
    let g = Rc::try_unwrap(g).ok().expect("the group is not referenced any more");
    (g.runners.into_iter().map(|r| r.into_inner().finish()).collect(), nested)
}
fn check_nested(c: &Case, ctx: &mut Ctx) -> R {
    judge_all(c, ctx, || {
        let c = c.clone();
        Ok(gather(vec![spawn(move || one_thread(&c))])?.remove(0))
    })
}

// ---- one thread each, switched at transport calls ---------------------------------------------

struct Baton {
    state: Mutex<(usize, Vec<bool>, usize, u64)>,
    turn: Condvar,
    sched: Vec<u8>,
}
impl Baton {
    /// Hand over according to the schedule; `gone`: the caller does not come back.
    fn pass(&self, me: usize, gone: bool) {
        let mut s = self.state.lock().unwrap();
        if gone {
            s.1[me] = false;
        }
        let alive: Vec<usize> = (0..s.1.len()).filter(|i| s.1[*i]).collect();
        if alive.is_empty() {
            return;
        }
        let p = self.sched[s.2 % self.sched.len()] as usize;
        s.2 += 1;
        let next = alive[p % alive.len()];
        if next != me {
            s.3 += 1;
            s.0 = next;
            self.turn.notify_all();
        }
        if !gone {
            while s.0 != me {
                s = self.turn.wait(s).unwrap();
            }
        }
    }
    fn start(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.0 != me {
            s = self.turn.wait(s).unwrap();
        }
    }
}
fn check_threads(c: &Case, ctx: &mut Ctx) -> R {
    judge_all(c, ctx, || {
        let n = c.conns.len();
        let b = Arc::new(Baton { state: Mutex::new((0, vec![true; n], 0, 0)), turn: Condvar::new(), sched: c.sched.clone() });
        let ps = (0..n)
            .map(|i| {
                let (b, k) = (b.clone(), c.conns[i].clone());
                spawn(move || {
                    b.start(i);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let b2 = b.clone();
                        let mut r = Runner::new(&k, Rc::new(move || b2.pass(i, false)));
                        while !r.done() {
                            r.step();
                        }
                        r.finish()
                    }));
                    b.pass(i, true);
                    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
                })
            })
            .collect();
        let v = gather(ps)?;
        let switches = b.state.lock().unwrap().3;
        Ok((v, switches))
    })
}

// ---- all at once --------------------------------------------------------------------------------

fn check_parallel(c: &Case, ctx: &mut Ctx) -> R {
    judge_all(c, ctx, || {
        let n = c.conns.len();
        let bar = Arc::new(std::sync::Barrier::new(n));
        let ps = (0..n)
            .map(|i| {
                let (bar, k) = (bar.clone(), c.conns[i].clone());
                spawn(move || {
                    bar.wait();
                    alone(&k)
                })
            })
            .collect();
        Ok((gather(ps)?, n as u64))
    })
}
// ---- after a past, in a process of its own --------------------------------------------------------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct History {
    probe: Conn,
    /// connection, how often with other randomness each time, whether it stays open
    past: Vec<(Conn, u16, bool)>,
}
fn strat_history() -> BoxedStrategy<History> {
    let failing = (conn(true), vec(devs::dev(), 1usize)).prop_map(|(mut c, d)| {
        c.devs = d;
        c
    });
    let broken = (conn(true), fault(), fault()).prop_map(|(mut c, r, w)| {
        (c.rfault, c.wfault) = (r, w);
        c
    });
    let unread = (conn(true), data(true), 0u32..40).prop_map(|(mut c, d, n)| {
        c.acts = vec![Act::Send(d), Act::Read(n)];
        c
    });
    let one = prop_oneof![2 => failing, 1 => broken, 2 => unread, 2 => conn(false)];
    let n = prop_oneof![6 => 1u16..4, 6 => 4u16..20, 1 => 20u16..120];
    (conn(true), vec((one, n, any::<bool>()), 1..4usize), any::<u8>())
        .prop_map(|(probe, mut past, same)| {
            // the probe may go where the others went
            if same & 3 == 0 {
                for p in &mut past {
                    p.0.cfg = probe.cfg.clone();
                }
            }
            History { probe, past }
        })
        .boxed()
}
fn past_and_probe(c: &History) -> Result<u64, String> {
    let mut fresh = alone(&c.probe);
    let mut kept = Vec::new();
    let mut n = 0;
    for (k, count, keep) in &c.past {
        for i in 0..*count {
            let mut k = k.clone();
            k.entropy = k.entropy.wrapping_add((i as u64) << 32);
            let mut r = Runner::new(&k, Rc::new(|| ()));
            while !r.done() {
                r.step();
            }
            n += 1;
            if *keep {
                kept.push(r);
            } else {
                r.finish();
            }
        }
    }
    let mut later = alone(&c.probe);
    // objects that were kept still work as objects
    for r in kept {
        r.finish();
    }
    fresh.drawn.clear();
    later.drawn.clear();
    if !fresh.opened {
        return Err(format!("the first connection of a process does not complete with a conforming server: {}", fresh.log[0]));
    }
    if fresh != later {
        return Err(format!("after {n} other connections a connection no longer does what it did as the first of its process: {}", first_difference(&fresh, &later).replace("alone", "as the first").replace("beside the others", "then")));
    }
    Ok(n)
}
fn check_history(c: &History, ctx: &mut Ctx) -> R {
    let n: u64 = c.past.iter().map(|p| p.1 as u64).sum();
    ctx.execs(n + 2);
    if n > 4 {
        ctx.nt();
    }
    if std::env::var_os("HV_FRESH").is_some() {
        let c = c.clone();
        return gather(vec![spawn(move || past_and_probe(&c).map(|_| ()))])?.remove(0);
    }
    let exe = std::env::current_exe().expect("this program");
    let (code, out) = replay_by(&exe, "C27", "history", c)?;
    match code {
        Some(0) => Ok(()),
        Some(1) => Err(out.lines().find(|l| !l.starts_with("VIOLATION")).unwrap_or("").to_string()),
        _ => panic!("the process of its own ends with {code:?}: {out}"),
    }
}
fn main() {
    hv::fw::main(Property {
        id: "C27",
        assumptions: &[
            "the random source is per connection (a stand-in for the operating system's)",
            "in 'parallel' the interleaving inside a computation is whatever the machine does; a violation there may need several replays",
        ],
        facets: vec![
            facet(Facet {
                name: "nested",
                rule: "two to four connections in one thread, with failing handshakes, faults and attacks among them, some with the same server or the same randomness; a generated schedule runs steps of one (handshake, write, read, close, drop) inside transport calls of another, to any depth; every connection sends, returns and draws what it does by itself, before and after; non-trivial: two handshakes completed and a step ran inside another's",
                quick: 700,
                thorough: 60_000,
                shrink: 200,
                strategy: strat_mixed,
                check: check_nested,
            }),
            facet(Facet {
                name: "threads",
                rule: "the same with one thread per connection and a generated schedule that decides at every transport call which of them goes on; non-trivial: two handshakes completed and at least one switch",
                quick: 700,
                thorough: 60_000,
                shrink: 200,
                strategy: strat_mixed,
                check: check_threads,
            }),
            facet(Facet {
                name: "parallel",
                rule: "three to seven conforming connections with more data, each in its own thread, all at once; non-trivial: two handshakes completed",
                quick: 300,
                thorough: 30_000,
                shrink: 100,
                strategy: strat_parallel,
                check: check_parallel,
            }),
            facet(Facet {
                name: "history",
                rule: "in a process of its own: a conforming connection, then one to some hundred others of up to three kinds (failing in the same way, over a breaking transport, dropped with data unread, or anything; kept open or dropped), then the first again with the same outcome; non-trivial: more than four connections in between",
                quick: 500,
                thorough: 40_000,
                shrink: 60,
                strategy: strat_history,
                check: check_history,
            }),
        ],
    })
}
