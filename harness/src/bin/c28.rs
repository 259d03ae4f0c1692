use husk::TlsClient;
use hv::devs;
use hv::fw::*;
use hv::gen::*;
use hv::mem::{self, counted};
use hv::net::*;
use hv::server::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Write(Blob),
    Flush,
    /// application data from the server
    Send(Blob),
    Read(u32),
    /// a record altered by the network
    Tamper(Blob),
    Alert(u8, u8),
    Close,
    /// a write in which the transport fails after so many bytes
    Fail(Blob, u16),
}
fn data() -> BoxedStrategy<Blob> {
    blob(prop_oneof![10 => 1u32..60, 2 => Just(0u32), 3 => 60u32..600, 1 => 16_380u32..17_000].boxed())
}
fn act(rough: bool) -> BoxedStrategy<Act> {
    prop_oneof![
        6 => data().prop_map(Act::Write),
        1 => Just(Act::Flush),
        8 => data().prop_map(Act::Send),
        6 => prop_oneof![1 => Just(0u32), 5 => 1u32..80, 2 => 80u32..40_000, 1 => 40_000u32..400_000].prop_map(Act::Read),
        (rough as u32) => data().prop_map(Act::Tamper),
        (rough as u32) => (any::<u8>(), 1u8..=2).prop_map(|(d, l)| Act::Alert(d, l)),
        (rough as u32) => Just(Act::Close),
        1 => (data(), any::<u16>()).prop_map(|(d, n)| Act::Fail(d, n)),
    ]
    .boxed()
}
fn sizes() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![6 => 1u16..60, 1 => Just(0u16)], 1..5usize)].boxed()
}
fn put(net: &Shared<Server>, ty: u8, d: &[u8], tamper: bool) {
    let mut n = net.net();
    n.pump();
    if n.peer.keys.is_none() {
        return;
    }
    let whole = [d];
    let parts: Vec<&[u8]> = if d.is_empty() { whole.to_vec() } else { d.chunks(16384).collect() };
    for c in parts {
        let mut r = n.peer.seal(ty, (3, 3), c, 0, false);
        if tamper {
            let last = r.len() - 1;
            r[last] ^= 1;
        }
        n.s2c.extend(r);
    }
}

/// Do it, counting; returns the bytes handed in or asked for.
fn perform(a: &Act, net: &Shared<Server>, cl: &mut Client) -> usize {
    {
        let mut n = net.net();
        n.fuel = 3_000_000;
        n.starved = 0;
        n.faults_hit = 0;
    }
    match a {
        Act::Send(b) => put(net, 23, &b.expand(), false),
        Act::Tamper(b) => put(net, 23, &b.expand(), true),
        Act::Alert(d, l) => put(net, 21, &[*l, hv::wire::KNOWN_ALERTS[*d as usize % hv::wire::KNOWN_ALERTS.len()]], false),
        Act::Flush => counted(|| drop(cl.flush())),
        Act::Close => counted(|| drop(cl.close())),
        Act::Write(b) | Act::Fail(b, _) => {
            let d = b.expand();
            if let Act::Fail(_, k) = a {
                let mut n = net.net();
                let at = n.accepted() + *k as u64 % (d.len() as u64 + 30);
                n.wfault = Some((at, Fault::Once(k.to_le_bytes()[1])));
            }
            counted(|| drop(cl.write(&d)));
            net.net().wfault = None;
            return d.len();
        }
        Act::Read(n) => {
            let mut b = vec![0; *n as usize];
            counted(|| drop(cl.read(&mut b)));
            return b.len();
        }
    }
    0
}
/// Read until nothing more comes.
fn drain(net: &Shared<Server>, cl: &mut Client) -> R {
    net.net().starved = 0;
    let mut b = vec![0; 20_000];
    for _ in 0..100_000 {
        net.net().fuel = 3_000_000;
        if counted(|| cl.read(&mut b).unwrap_or(0)) == 0 {
            return Ok(());
        }
    }
    Err("reading does not end".into())
}
/// What the connection may hold beyond what has not been handed over: state, buffers of a few
/// records, what came in the handshake.
fn base(handshake: usize) -> i64 {
    (256 << 10) + 16 * handshake as i64
}

/// The transport is given back as well.
fn released(net: &Shared<Server>, what: &str) -> R {
    match std::rc::Rc::strong_count(&net.0) {
        1 => Ok(()),
        _ => Err(format!("the transport is still held after {what}")),
    }
}

// -------------------------------------------------------------------------- one long connection

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hist {
    cfg: Cfg,
    entropy: u64,
    rd: Vec<u16>,
    wr: Vec<u16>,
    first: Vec<Act>,
    cycle: Vec<Act>,
    rounds: u16,
    /// read everything after each cycle, not only at the end
    drain: bool,
}
fn hist_strat() -> BoxedStrategy<Hist> {
    let cycle = prop_oneof![4 => vec(act(false), 1..6usize), 1 => vec(act(true), 1..6usize)];
    (small_cfg(), any::<u64>(), (sizes(), sizes()), vec(act(false), 0..3usize), cycle, 150u16..1500, any::<bool>())
        .prop_map(|(cfg, entropy, (rd, wr), first, cycle, rounds, drain)| Hist { cfg, entropy, rd, wr, first, cycle, rounds, drain })
        .boxed()
}
fn hist(c: &Hist, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    mem::reset();
    let net = Net::new(Server::new(c.cfg.clone()));
    let mut cl = match guarded(|| counted(|| TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng)))? {
        Ok(c) => c,
        Err(e) => return Err(format!("handshake with a conforming server failed: {e:?}")),
    };
    let handshake = net.net().rpos;
    {
        let mut n = net.net();
        n.rd = c.rd.clone();
        n.wr = c.wr.clone();
    }
    let mut mark = None;
    let (mut acts, mut moved) = (0usize, 0usize);
    let third = (c.rounds / 3).max(3);
    let rounds = third * 3;
    for k in 0..=rounds {
        for a in if k == 0 { &c.first } else { &c.cycle } {
            mem::peak();
            let before = mem::live();
            let n = guarded(|| perform(a, &net, &mut cl))?;
            let most = mem::peak() - before;
            // a record read to answer a small request is held as well
            if most > (512 << 10) + 16 * n as i64 {
                return Err(format!("{a:?} needs {most} bytes of memory"));
            }
            acts += 1;
            moved += n;
        }
        getrandom::forget_log();
        if c.drain {
            drain(&net, &mut cl)?;
        }
        let live = mem::live();
        if live > base(handshake) {
            return Err(format!("after {k} rounds the connection holds {live} bytes, having received {handshake} bytes in the handshake"));
        }
        if k == third || k == rounds {
            drain(&net, &mut cl)?;
            let live = mem::live();
            match mark {
                None => mark = Some(live),
                Some(m) => {
                    let slack = if c.drain { 1500 } else { 80 << 10 };
                    if live - m > slack {
                        return Err(format!("the connection holds {m} bytes after {third} rounds and {live} after {rounds}"));
                    }
                }
            }
        }
        let mut n = net.net();
        // nobody looks at these again
        if k % 64 == 0 {
            let at = n.rpos;
            n.s2c.drain(..at);
            n.rpos = 0;
        }
    }
    ctx.execs(acts as u64);
    if moved > 0 {
        ctx.nt();
    }
    ctx.label(if c.drain { "all read in each round" } else { "lagging" });
    guarded(|| counted(|| drop(cl)))?;
    released(&net, "the connection was dropped")?;
    let left = mem::live();
    if left > 128 << 10 {
        return Err(format!("{left} bytes are still held after the connection was dropped"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------ many connections

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Conn {
    cfg: Cfg,
    devs: Vec<Dev>,
    entropy: u64,
    rd: Vec<u16>,
    wr: Vec<u16>,
    rfault: Option<(u16, Fault)>,
    wfault: Option<(u16, Fault)>,
    acts: Vec<Act>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Many {
    conns: Vec<Conn>,
    rounds: u8,
    /// so many are kept open before the oldest is dropped
    open: u8,
}
fn fault() -> BoxedStrategy<Option<(u16, Fault)>> {
    let f = prop_oneof![Just(Fault::Eof), any::<u8>().prop_map(Fault::Dead), any::<u8>().prop_map(Fault::Once)];
    proptest::option::weighted(0.2, (0u16..900, f)).boxed()
}
fn conn() -> BoxedStrategy<Conn> {
    let devs = prop_oneof![2 => Just(vec![]), 1 => vec(devs::dev(), 1usize)];
    (small_cfg(), devs, any::<u64>(), sizes(), sizes(), fault(), fault(), vec(act(true), 0..6usize))
        .prop_map(|(cfg, devs, entropy, rd, wr, rfault, wfault, acts)| Conn { cfg, devs, entropy, rd, wr, rfault, wfault, acts })
        .boxed()
}
fn many_strat() -> BoxedStrategy<Many> {
    (vec(conn(), 1..3usize), 45u8..75, prop_oneof![3 => Just(0u8), 1 => 1u8..4]).prop_map(|(conns, rounds, open)| Many { conns, rounds, open }).boxed()
}
fn many(c: &Many, ctx: &mut Ctx) -> R {
    mem::reset();
    let mut held: std::collections::VecDeque<(Shared<Server>, Client)> = Default::default();
    let third = c.rounds as u64 / 3;
    let mut mark = None;
    let (mut opened, mut failed) = (0u64, 0u64);
    for k in 1..=third * 3 {
        for s in &c.conns {
            getrandom::set_entropy(&[], s.entropy.wrapping_add(k));
            let net = Net::new(Server::new(s.cfg.clone()));
            {
                let mut n = net.net();
                n.peer.devs = s.devs.clone();
                n.rd = s.rd.clone();
                n.wr = s.wr.clone();
                n.rfault = s.rfault.map(|(a, f)| (a as u64, f));
                n.wfault = s.wfault.map(|(a, f)| (a as u64, f));
            }
            // the error as well is dropped here
            mem::peak();
            let before = mem::live();
            let r = guarded(|| counted(|| TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng).ok()))?;
            let (most, received) = (mem::peak() - before, net.net().rpos);
            if most > 2 * base(received) {
                return Err(format!("a handshake that receives {received} bytes needs {most} bytes of memory"));
            }
            let Some(mut cl) = r else {
                failed += 1;
                released(&net, "a failed handshake")?;
                continue;
            };
            opened += 1;
            for a in &s.acts {
                guarded(|| perform(a, &net, &mut cl))?;
            }
            held.push_back((net, cl));
            while held.len() > c.open as usize {
                let (net, cl) = held.pop_front().unwrap();
                guarded(|| counted(|| drop(cl)))?;
                released(&net, "the connection was dropped")?;
            }
        }
        if k == third || k == third * 3 {
            while let Some((net, cl)) = held.pop_front() {
                guarded(|| counted(|| drop(cl)))?;
                released(&net, "the connection was dropped")?;
            }
            let live = mem::live();
            match mark {
                None => mark = Some(live),
                Some(m) if live - m > 512 => {
                    let n = third as usize * c.conns.len();
                    return Err(format!("{m} bytes are held after {n} connections, all dropped, and {live} after {}", 3 * n));
                }
                _ => (),
            }
        }
    }
    ctx.execs(opened + failed);
    ctx.nt();
    if opened > 0 {
        ctx.label("with connections that opened");
    }
    if failed > 0 {
        ctx.label("with connections that failed");
    }
    Ok(())
}

// ------------------------------------------------------------------------------- large amounts

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Large {
    cfg: Cfg,
    entropy: u64,
    up: Blob,
    down: Vec<Blob>,
    read: u32,
}
fn large_strat() -> BoxedStrategy<Large> {
    let n = || blob(prop_oneof![2 => 0u32..100_000, 1 => 100_000u32..2_000_000].boxed());
    let chain = vec(blob(prop_oneof![3 => 1u32..3000, 1 => 3000u32..40_000].boxed()), 0..12usize);
    (small_cfg(), chain, any::<u64>(), n(), vec(n(), 0..3usize), prop_oneof![1 => 1u32..200, 2 => 200u32..100_000])
        .prop_map(|(mut cfg, certs, entropy, up, down, read)| {
            cfg.certs = certs;
            Large { cfg, entropy, up, down, read }
        })
        .boxed()
}
fn large(c: &Large, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    mem::reset();
    let net = Net::new(Server::new(c.cfg.clone()));
    net.net().fuel = 100_000_000;
    let mut cl = match guarded(|| counted(|| TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng)))? {
        Ok(c) => c,
        Err(e) => return Err(format!("handshake with a conforming server failed: {e:?}")),
    };
    let handshake = net.net().rpos;
    let most = mem::peak();
    if most > 2 * base(handshake) {
        return Err(format!("a handshake that receives {handshake} bytes needs {most} bytes of memory"));
    }
    if handshake > 40_000 {
        ctx.label("long chain");
    }
    let d = c.up.expand();
    guarded(|| counted(|| drop(cl.write(&d))))?;
    let most = mem::peak();
    if most > base(handshake) + 8 * d.len() as i64 {
        return Err(format!("writing {} bytes needs {most} bytes of memory", d.len()));
    }
    for b in &c.down {
        put(&net, 23, &b.expand(), false);
    }
    let total: usize = c.down.iter().map(|b| b.len as usize).sum();
    let mut got = 0;
    let mut b = vec![0; c.read as usize];
    // so many reads at most, for small ones are slow
    for _ in 0..3000 {
        let n = guarded(|| counted(|| cl.read(&mut b).unwrap_or(0)))?;
        got += n;
        let (live, most) = (mem::live(), mem::peak());
        if live > base(handshake) || most > base(handshake) + 8 * b.len() as i64 {
            return Err(format!("reading {} of {total} bytes that have arrived, {} at a time, needs up to {most} and holds {live} bytes of memory", got, b.len()));
        }
        if n == 0 {
            break;
        }
    }
    if got > 0 || !d.is_empty() {
        ctx.nt();
    }
    guarded(|| counted(|| drop(cl)))?;
    released(&net, "the connection was dropped")?;
    let left = mem::live();
    if left > 128 << 10 {
        return Err(format!("{left} bytes are still held after the connection was dropped"));
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C28",
        assumptions: &[
            "memory is what goes through the global allocator on the connection's thread; that of the simulated transport and peer is not counted",
            "constants are generous (256 kB and 16 times the handshake's bytes), growth is what counts",
        ],
        facets: vec![
            facet(Facet { name: "history", rule: "one connection, a generated cycle of writes, reads, arriving records, failing writes, alerts and closes repeated 150 to 1500 times; what is held after a third of the rounds against what is held at the end, bounds all the time, nothing left after the drop; non-trivial: data moved", quick: 600, thorough: 100_000, shrink: 60, strategy: hist_strat, check: hist }),
            facet(Facet { name: "connections", rule: "45 to 75 rounds of one or two kinds of connections (conforming, deviating and failing ones, with faults of the transport, dropped in any state, up to three open at a time); what is held after a third against the end; all non-trivial", quick: 72, thorough: 20_000, shrink: 30, strategy: many_strat, check: many }),
            facet(Facet { name: "large", rule: "chains to 400 kB, writes and arriving data to 6 MB; working memory of each operation; non-trivial: data moved", quick: 600, thorough: 60_000, shrink: 60, strategy: large_strat, check: large }),
        ],
    })
}
