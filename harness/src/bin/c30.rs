use husk::TlsClient;
use hv::fw::*;
use hv::gen::*;
use hv::mem::{self, counted};
use hv::net::*;
use hv::server::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// What a piece of work took.
#[derive(Clone, Copy, Debug)]
struct Cost {
    /// processor time without that of the peer
    ns: u64,
    /// bytes allocated altogether
    bytes: u64,
    /// calls of the transport
    calls: u64,
}
/// The larger work is this many times the smaller one.
const TIMES: u64 = 8;
/// How much more than proportional is still taken for noise, caches and doubling of buffers.
const SLACK: u64 = 3;

/// The cost of `work(size)`, which sets up what it needs and calls `on` for what is measured.
fn compare(what: &str, ctx: &mut Ctx, small: u64, factor: u64, work: impl Fn(u64, &mut dyn FnMut(&Shared<Server>, &mut dyn FnMut())) -> R) -> R {
    let run = |n: u64| -> Result<Cost, String> {
        let mut cost = Cost { ns: 0, bytes: 0, calls: 0 };
        work(n, &mut |net, f| {
            let before = {
                let n = net.net();
                (n.peer_ns, n.reads + n.writes)
            };
            let (t, b) = (cpu_ns(), mem::total());
            counted(f);
            cost.ns += cpu_ns() - t;
            cost.bytes += mem::total() - b;
            let n = net.net();
            cost.ns -= n.peer_ns - before.0;
            cost.calls += n.reads + n.writes - before.1;
        })?;
        Ok(cost)
    };
    // the ratio of what is to be expected is `factor`, the work itself is TIMES as large
    let limit = |a: u64, floor: u64| a.max(floor) * factor * SLACK;
    let mut worst = String::new();
    let mut spent = 0;
    for round in 0..7 {
        let (a, b) = (run(small)?, run(small * TIMES)?);
        if round == 0 && b.ns > 20_000_000 {
            ctx.nt();
        }
        ctx.execs(2);
        if b.bytes > limit(a.bytes, 200_000) {
            return Err(format!("{what}: {TIMES} times the size makes husk allocate {} instead of {} bytes", b.bytes, a.bytes));
        }
        if b.calls > limit(a.calls, 100) {
            return Err(format!("{what}: {TIMES} times the size makes husk call the transport {} instead of {} times", b.calls, a.calls));
        }
        if round == 0 {
            ctx.label(format!("{}-fold time", (b.ns as f64 / a.ns.max(4_000_000) as f64 / factor as f64 * 4.0).ceil() / 4.0));
        }
        if b.ns <= limit(a.ns, 4_000_000) {
            return Ok(());
        }
        worst = format!("{} instead of {} ms", b.ns / 1_000_000, a.ns / 1_000_000);
        spent += a.ns + b.ns;
        if spent > 15_000_000_000 && round >= 1 || spent > 40_000_000_000 {
            break;
        }
    }
    // not once in all these rounds was it less
    Err(format!("{what}: {TIMES} times the size takes {worst} of processor time"))
}
fn open_for(cfg: &Cfg, entropy: u64) -> Result<(Shared<Server>, Client), String> {
    let (net, cl) = open(cfg, entropy)?;
    net.net().fuel = u64::MAX;
    Ok((net, cl))
}
fn opened(r: Result<Client, husk::tls_result::TlsError>) -> Result<Client, String> {
    r.map_err(|e| format!("handshake with a conforming server failed: {e:?}"))
}

// ------------------------------------------------------------------------------------ handshake

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Chain {
    cfg: Cfg,
    entropy: u64,
    /// bytes per certificate
    each: u32,
    /// bytes per record
    frag: Vec<u16>,
    rd: u16,
}
fn chain_strat() -> BoxedStrategy<Chain> {
    let each = prop_oneof![2 => 1u32..8, 1 => 8u32..500, 1 => 500u32..20_000, 1 => Just(u32::MAX)];
    let frag = prop_oneof![2 => vec(1u16..4, 1..3usize), 1 => vec(4u16..200, 1..3usize), 1 => Just(vec![16384])];
    (small_cfg(), any::<u64>(), each, frag, prop_oneof![3 => Just(0u16), 1 => 1u16..40]).prop_map(|(cfg, entropy, each, frag, rd)| Chain { cfg, entropy, each, frag, rd }).boxed()
}
fn chain(c: &Chain, ctx: &mut Ctx) -> R {
    let mean = c.frag.iter().map(|f| *f as u64).sum::<u64>() / c.frag.len() as u64;
    // so that the larger one takes some tenths of a second
    let small = (80_000 * mean).min(1_900_000).min(20_000 * (c.each as u64 + 3)).min(if c.rd == 0 { u64::MAX } else { 60_000 * c.rd as u64 });
    compare("a handshake with a chain of certificates", ctx, small, TIMES, |n, on| {
        let mut cfg = c.cfg.clone();
        let each = (c.each as u64).min(n - 3);
        cfg.certs = (0..n / (each + 3)).map(|i| Blob { len: each as u32, kind: 4, seed: i as u32 }).collect();
        cfg.frag = Frag::Sizes(c.frag.clone());
        getrandom::set_entropy(&[], c.entropy);
        let net = Net::new(Server::new(cfg));
        {
            let mut n = net.net();
            n.fuel = u64::MAX;
            n.rd = if c.rd == 0 { vec![] } else { vec![c.rd] };
        }
        let mut r = None;
        on(&net, &mut || r = Some(guarded(|| TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng))));
        opened(r.unwrap()?)?;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------ data

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Stream {
    cfg: Cfg,
    entropy: u64,
    /// bytes per record or write
    unit: u32,
    /// bytes per read
    read: u32,
    /// all records are there before the first is read
    ahead: bool,
    chunk: u16,
}
fn unit() -> BoxedStrategy<u32> {
    prop_oneof![2 => 1u32..8, 2 => 8u32..600, 1 => 600u32..16_384, 1 => Just(16_384u32)].boxed()
}
fn stream_strat() -> BoxedStrategy<Stream> {
    let read = prop_oneof![1 => 1u32..40, 1 => 40u32..2000, 1 => 2000u32..100_000];
    (small_cfg(), any::<u64>(), unit(), read, any::<bool>(), prop_oneof![3 => Just(0u16), 1 => 1u16..40])
        .prop_map(|(cfg, entropy, unit, read, ahead, chunk)| Stream { cfg, entropy, unit, read, ahead, chunk })
        .boxed()
}
fn incoming(c: &Stream, ctx: &mut Ctx) -> R {
    // a read may look at all of a record once more
    let per_byte = 1 + c.unit as u64 / c.read as u64;
    let records = (4_000_000 / (c.unit as u64 * per_byte + 600)).clamp(8, 4000);
    compare("receiving", ctx, records, TIMES, |n, on| {
        let (net, mut cl) = open_for(&c.cfg, c.entropy)?;
        net.net().rd = if c.chunk == 0 { vec![] } else { vec![c.chunk] };
        let d = Blob { len: c.unit, kind: 4, seed: 7 }.expand();
        let mut left = n;
        let mut b = vec![0; c.read as usize];
        let mut got = 0;
        while got < n * c.unit as u64 {
            let now = if c.ahead { left } else { left.min(1) };
            for _ in 0..now {
                let mut net = net.net();
                let r = net.peer.seal(23, (3, 3), &d, 0, false);
                net.s2c.extend(r);
            }
            left -= now;
            let mut failed = None;
            let before = got;
            on(&net, &mut || loop {
                match guarded(|| cl.read(&mut b)) {
                    Ok(Ok(k)) if k > 0 => got += k as u64,
                    r => {
                        failed = Some(r);
                        return;
                    }
                }
                if got == (n - left) * c.unit as u64 {
                    return;
                }
            });
            if let Some(r) = failed {
                return Err(format!("{r:?} after {got} bytes of {}", n * c.unit as u64));
            }
            if got == before {
                break;
            }
        }
        Ok(())
    })
}
fn outgoing(c: &Stream, ctx: &mut Ctx) -> R {
    let writes = (5_000_000 / (c.unit as u64 + 600)).clamp(8, 8000);
    compare("writing", ctx, writes, TIMES, |n, on| {
        let (net, mut cl) = open_for(&c.cfg, c.entropy)?;
        net.net().wr = if c.chunk == 0 { vec![] } else { vec![c.chunk] };
        let d = Blob { len: c.unit, kind: 4, seed: 7 }.expand();
        let mut r = Ok(());
        on(&net, &mut || {
            for _ in 0..n {
                match guarded(|| cl.write_all(&d)) {
                    Ok(Ok(())) => (),
                    e => {
                        r = Err(format!("{e:?}"));
                        return;
                    }
                }
                if c.ahead {
                    let _ = cl.flush();
                }
            }
        });
        r
    })
}
/// One write of everything.
fn single(c: &Stream, ctx: &mut Ctx) -> R {
    compare("a single write", ctx, 1_000_000 + 20 * c.unit as u64, TIMES, |n, on| {
        let (net, mut cl) = open_for(&c.cfg, c.entropy)?;
        net.net().wr = if c.chunk == 0 { vec![] } else { vec![c.chunk] };
        let d = Blob { len: n as u32, kind: 4, seed: 7 }.expand();
        let mut r = None;
        on(&net, &mut || r = Some(guarded(|| cl.write_all(&d))));
        match r.unwrap()? {
            Ok(()) => Ok(()),
            Err(e) => Err(format!("{e:?}")),
        }
    })
}
/// The same amount in larger records.
fn larger(c: &Stream, ctx: &mut Ctx) -> R {
    let unit = 1 + c.unit as u64 % 2048;
    compare("the same amount in larger records", ctx, unit.max(64), 1, |u, on| {
        let count = 6_000_000 / u;
        let (net, mut cl) = open_for(&c.cfg, c.entropy)?;
        let d = Blob { len: u as u32, kind: 4, seed: 7 }.expand();
        let mut r = Ok(());
        if c.ahead {
            on(&net, &mut || {
                for _ in 0..count {
                    match guarded(|| cl.write_all(&d)) {
                        Ok(Ok(())) => (),
                        e => r = Err(format!("{e:?}")),
                    }
                }
            });
            return r;
        }
        for _ in 0..count {
            let mut net = net.net();
            let r = net.peer.seal(23, (3, 3), &d, 0, false);
            net.s2c.extend(r);
        }
        let mut b = vec![0; u as usize];
        on(&net, &mut || {
            for _ in 0..count {
                match guarded(|| cl.read(&mut b)) {
                    Ok(Ok(k)) if k == b.len() => (),
                    e => r = Err(format!("{e:?}")),
                }
            }
        });
        r
    })
}

// --------------------------------------------------------------------------------------- history

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Write(u16),
    Send(u16),
    Read(u16),
    Flush,
    /// a write in which the transport fails after so many bytes
    Fail(u16, u16),
    /// everything that is there
    Drain,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hist {
    cfg: Cfg,
    entropy: u64,
    cycle: Vec<Act>,
}
fn hist_strat() -> BoxedStrategy<Hist> {
    let n = || prop_oneof![6 => 0u16..100, 1 => 100u16..2000];
    let act = prop_oneof![
        4 => n().prop_map(Act::Write),
        4 => n().prop_map(Act::Send),
        3 => n().prop_map(Act::Read),
        1 => Just(Act::Flush),
        1 => (n(), any::<u16>()).prop_map(|(n, k)| Act::Fail(n, k)),
        2 => Just(Act::Drain),
    ];
    (small_cfg(), any::<u64>(), vec(act, 1..6usize)).prop_map(|(cfg, entropy, cycle)| Hist { cfg, entropy, cycle }).boxed()
}
fn history(c: &Hist, ctx: &mut Ctx) -> R {
    let weight: u64 = c.cycle.iter().map(|a| match a { Act::Write(n) | Act::Send(n) | Act::Read(n) | Act::Fail(n, _) => 800 + *n as u64, _ => 100 }).sum();
    compare("a long history", ctx, (5_000_000 / weight).clamp(200, 6000), TIMES, |n, on| {
        let (net, mut cl) = open_for(&c.cfg, c.entropy)?;
        let sent: u64 = c.cycle.iter().map(|a| if let Act::Send(n) = a { *n as u64 } else { 0 }).sum();
        let read: u64 = c.cycle.iter().map(|a| if let Act::Read(n) = a { *n as u64 } else { 0 }).sum();
        let mut all = vec![0; 20_000];
        let mut bad = None;
        let mut there = 0u64;
        for _ in 0..n {
            for a in &c.cycle {
                match a {
                    Act::Send(k) => {
                        let mut net = net.net();
                        let r = net.peer.seal(23, (3, 3), &vec![*k as u8; *k as usize], 0, false);
                        net.s2c.extend(r);
                        there += *k as u64;
                    }
                    Act::Write(k) | Act::Fail(k, _) => {
                        let d = vec![1; *k as usize];
                        if let Act::Fail(_, at) = a {
                            let mut n = net.net();
                            let at = n.accepted() + *at as u64 % (d.len() as u64 + 30);
                            n.wfault = Some((at, Fault::Once(0)));
                        }
                        on(&net, &mut || {
                            if let Err(e) = guarded(|| drop(cl.write_all(&d))) {
                                bad = Some(e);
                            }
                        });
                        net.net().wfault = None;
                    }
                    Act::Read(k) => on(&net, &mut || {
                        let k = (*k as u64).min(there) as usize;
                        match guarded(|| cl.read(&mut all[..k])) {
                            Ok(r) => there -= r.unwrap_or(0) as u64,
                            Err(e) => bad = Some(e),
                        }
                    }),
                    Act::Flush => on(&net, &mut || drop(cl.flush())),
                    Act::Drain => on(&net, &mut || {
                        while there > 0 {
                            match guarded(|| cl.read(&mut all)) {
                                Ok(Ok(r)) if r > 0 => there -= r as u64,
                                Err(e) => return bad = Some(e),
                                _ => return,
                            }
                        }
                    }),
                }
                if let Some(e) = bad {
                    return Err(e);
                }
            }
            getrandom::forget_log();
        }
        let _ = (sent, read);
        Ok(())
    })
}
fn main() {
    hv::fw::main(Property {
        id: "C30",
        assumptions: &[
            "work is processor time of the thread, bytes allocated and calls of the transport; the simulated transport is linear, the peer's time is not counted",
            "eight times the size may take up to 24 times the work; only what exceeds this in each of seven measurements is reported",
        ],
        facets: vec![
            facet(Facet { name: "handshake", rule: "chains of certificates of generated sizes, cut into records of generated sizes, to 8 MB and some hundred thousand records; eight times the chain against one; non-trivial: the larger takes 20 ms", quick: 64, thorough: 4000, shrink: 1, strategy: chain_strat, check: chain }),
            facet(Facet { name: "incoming", rule: "records and reads of generated sizes, arriving at once or one by one; eight times as many against one; non-trivial: likewise", quick: 96, thorough: 6000, shrink: 1, strategy: stream_strat, check: incoming }),
            facet(Facet { name: "outgoing", rule: "writes of generated sizes, with or without flushes; non-trivial: likewise", quick: 96, thorough: 6000, shrink: 1, strategy: stream_strat, check: outgoing }),
            facet(Facet { name: "single", rule: "one write of megabytes; non-trivial: likewise", quick: 32, thorough: 2000, shrink: 1, strategy: stream_strat, check: single }),
            facet(Facet { name: "larger", rule: "the same amount of data written or read in units eight times as large; non-trivial: likewise", quick: 64, thorough: 4000, shrink: 1, strategy: stream_strat, check: larger }),
            facet(Facet { name: "history", rule: "a generated cycle of writes, reads, arriving records and failing writes, eight times as often; non-trivial: likewise", quick: 96, thorough: 6000, shrink: 1, strategy: hist_strat, check: history }),
        ],
    })
}
