use husk::tls_result::TlsErrorKind;
use hv::devs;
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use hv::wire;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

// ------------------------------------------------- the same session over two transports

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Write(Blob),
    Flush,
    Send(Blob),
    /// read this many bytes, as far as they have arrived
    Read(u32),
    /// the server sends this alert
    Alert(u8),
    /// the server sends a record that does not authenticate
    Bad,
    SendAlert(u8),
    Close,
    /// read on when nothing is waiting
    End,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Shape {
    rd: Vec<u16>,
    wr: Vec<u16>,
    buffering: bool,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    cfg: Cfg,
    entropy: u64,
    devs: Vec<Dev>,
    ops: Vec<Op>,
    shape: Shape,
}
fn shape() -> BoxedStrategy<Shape> {
    let s = || prop_oneof![1 => Just(vec![]), 2 => vec(0u16..9, 1..6usize), 1 => vec(prop_oneof![1 => Just(0u16), 2 => 1u16..400], 1..6usize), 1 => Just(vec![1]), 1 => Just(vec![0, 1])];
    (s(), s(), any::<bool>()).prop_map(|(rd, wr, buffering)| Shape { rd, wr, buffering }).boxed()
}
fn data() -> BoxedStrategy<Blob> {
    blob(prop_oneof![8 => 1u32..40, 1 => Just(0u32), 2 => 40u32..600, 1 => 16380u32..=16384].boxed())
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => blob(prop_oneof![8 => 0u32..60, 1 => 16_000u32..40_000].boxed()).prop_map(Op::Write),
        2 => Just(Op::Flush),
        5 => data().prop_map(Op::Send),
        5 => prop_oneof![4 => 0u32..60, 1 => 0u32..20_000].prop_map(Op::Read),
        1 => any::<u8>().prop_map(Op::Alert),
        1 => Just(Op::Bad),
        1 => any::<u8>().prop_map(Op::SendAlert),
        1 => Just(Op::Close),
        1 => Just(Op::End),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let d = prop_oneof![4 => Just(vec![]), 1 => vec(devs::dev(), 1usize)];
    (small_cfg(), any::<u64>(), d, vec(op(), 0..10usize), shape()).prop_map(|(cfg, entropy, devs, ops, shape)| Case { cfg, entropy, devs, ops, shape }).boxed()
}
#[derive(PartialEq, Debug, Default)]
struct Out {
    sent: Vec<u8>,
    hand: Option<String>,
    trace: Vec<String>,
    read: Vec<u8>,
}
fn session(c: &Case, shape: Option<&Shape>) -> Result<(Out, u64), String> {
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(c.cfg.clone()));
    {
        let mut n = net.net();
        n.peer.devs = c.devs.clone();
        if let Some(s) = shape {
            n.rd = s.rd.clone();
            n.wr = s.wr.clone();
            n.buffering = s.buffering;
        }
    }
    let mut o = Out::default();
    let mut cl = match connect(&net)? {
        Ok(c) => c,
        Err(e) => {
            o.hand = Some(format!("{:?}", e.kind));
            let n = net.net();
            if !n.held.is_empty() && e.kind != TlsErrorKind::IoFailure {
                return Err(format!("the handshake failed ({:?}) but {} bytes, the alert among them, were never flushed", e.kind, n.held.len()));
            }
            o.sent = n.c2s.clone();
            return Ok((o, n.interrupts));
        }
    };
    if !net.net().held.is_empty() {
        return Err(format!("the handshake is reported complete but {} bytes of it were never flushed", net.net().held.len()));
    }
    net.net().pump();
    let open = net.net().peer.keys.is_some();
    let mut waiting = 0;
    let mut over = false; // the server's stream has ended
    for op in &c.ops {
        let mut t = String::new();
        match op {
            Op::Write(b) => t = format!("write {:?}", guarded(|| cl.write(&b.expand()))?.map_err(|e| e.kind())),
            Op::Flush => {
                t = format!("flush {:?}", guarded(|| cl.flush())?.map_err(|e| e.kind()));
                if !net.net().held.is_empty() {
                    return Err(format!("after flush {} bytes have not been passed on", net.net().held.len()));
                }
            }
            Op::Send(b) => {
                let mut n = net.net();
                if open {
                    let p = b.expand();
                    let r = n.peer.seal(23, (3, 3), &p, 0, false);
                    n.s2c.extend(r);
                    if !over {
                        waiting += p.len();
                    }
                }
            }
            Op::Read(k) => {
                let k = (*k as usize).min(waiting);
                let mut at = 0;
                let mut buf = vec![0u8; k];
                while at < k {
                    match guarded(|| cl.read(&mut buf[at..]))? {
                        Ok(0) => {
                            t = "early end".into();
                            break;
                        }
                        Ok(m) => at += m.min(k - at),
                        Err(e) => {
                            t = format!("read fails {:?}", e.kind());
                            break;
                        }
                    }
                }
                o.read.extend_from_slice(&buf[..at]);
                waiting -= at;
                if at < k {
                    waiting = 0;
                }
            }
            Op::Alert(a) => {
                let mut n = net.net();
                if open {
                    let a = wire::KNOWN_ALERTS[*a as usize % wire::KNOWN_ALERTS.len()];
                    let r = n.peer.seal(21, (3, 3), &[1, a], 0, false);
                    n.s2c.extend(r);
                    over = true;
                }
            }
            Op::Bad => {
                let mut n = net.net();
                if open {
                    let mut r = n.peer.seal(23, (3, 3), b"bad", 0, false);
                    r[6] ^= 1;
                    n.s2c.extend(r);
                    over = true;
                }
            }
            Op::SendAlert(a) => {
                use TlsErrorKind::*;
                let kind = [UnexpectedMessage, BadRecordMac, RecordOverflow, IllegalParameter, DecodeError, DecryptError, InternalError][*a as usize % 7];
                let e = guarded(|| cl.send_tls_alert(husk::tls_result::TlsError { kind, desc: String::new() }))?;
                t = format!("alert {:?}", e.kind);
            }
            Op::Close => t = format!("close {:?}", guarded(|| cl.close())?.map_err(|e| e.kind)),
            Op::End => {
                // everything that waits, then the end
                if over {
                    let mut buf = [0u8; 700];
                    for _ in 0..200 {
                        match guarded(|| cl.read(&mut buf))? {
                            Ok(k) if k > 0 => o.read.extend_from_slice(&buf[..k]),
                            r => {
                                t = format!("end {:?}", r.map_err(|e| e.kind()));
                                break;
                            }
                        }
                    }
                    waiting = 0;
                }
            }
        }
        o.trace.push(t);
    }
    guarded(|| cl.flush())?.map_err(|e| format!("flush over a working transport fails: {e}"))?;
    let n = net.net();
    if !n.held.is_empty() {
        return Err(format!("after flush {} bytes have not been passed on", n.held.len()));
    }
    o.sent = n.c2s.clone();
    Ok((o, n.interrupts))
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let (a, _) = session(c, None).map_err(|e| format!("over the perfect transport: {e}"))?;
    let (b, interrupts) = session(c, Some(&c.shape)).map_err(|e| format!("over the shaped transport: {e}"))?;
    ctx.execs(2);
    if a.hand != b.hand {
        return Err(format!("the handshake ends with {:?} over a perfect transport and with {:?} over this one", a.hand.as_deref().unwrap_or("success"), b.hand.as_deref().unwrap_or("success")));
    }
    if a.sent != b.sent {
        let k = a.sent.iter().zip(&b.sent).take_while(|(x, y)| x == y).count();
        return Err(format!("the bytes sent differ from those over a perfect transport from byte {k} ({} and {} bytes)", a.sent.len(), b.sent.len()));
    }
    if a.read != b.read {
        return Err(format!("{} bytes were read over a perfect transport, {} over this one, or different ones", a.read.len(), b.read.len()));
    }
    for (i, (x, y)) in a.trace.iter().zip(&b.trace).enumerate() {
        if x != y {
            return Err(format!("operation {i}, {:?}: {x} over a perfect transport, {y} over this one", c.ops[i]));
        }
    }
    if a.hand.is_some() {
        ctx.label("handshake refused");
    }
    if interrupts > 0 {
        ctx.label("interruptions");
    }
    if c.shape.buffering {
        ctx.label("buffering until flush");
    }
    if !c.shape.rd.is_empty() || !c.shape.wr.is_empty() || c.shape.buffering {
        ctx.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- faults in the handshake

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Faults {
    cfg: Cfg,
    entropy: u64,
    /// where, as a share of all bytes read or written, and how
    reads: Vec<(u32, Fault)>,
    writes: Vec<(u32, Fault)>,
    flush: bool,
    buffering: bool,
    rd: Vec<u16>,
    wr: Vec<u16>,
}
fn rfault() -> BoxedStrategy<Fault> {
    prop_oneof![2 => Just(Fault::Eof), 1 => (0u8..8).prop_map(Fault::Dead), 1 => (0u8..8).prop_map(Fault::Once)].boxed()
}
fn wfault() -> BoxedStrategy<Fault> {
    prop_oneof![1 => Just(Fault::Zero), 1 => (0u8..8).prop_map(Fault::Dead), 1 => (0u8..8).prop_map(Fault::Once)].boxed()
}
fn faults_strat() -> BoxedStrategy<Faults> {
    let s = || prop_oneof![4 => Just(vec![]), 1 => vec(1u16..30, 1..4usize)];
    (small_cfg(), any::<u64>(), vec((any::<u32>(), rfault()), 3usize), vec((any::<u32>(), wfault()), 3usize), any::<bool>(), any::<bool>(), s(), s())
        .prop_map(|(cfg, entropy, reads, writes, flush, buffering, rd, wr)| Faults { cfg, entropy, reads, writes, flush, buffering, rd, wr })
        .boxed()
}
fn faults(c: &Faults, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(c.cfg.clone()));
    if connect(&net)?.is_err() {
        return Err("handshake with a conforming server failed".into());
    }
    let (sent, read, flushes) = {
        let n = net.net();
        (n.c2s.clone(), n.rpos, n.flushes)
    };
    let run = |r: Option<(u64, Fault)>, w: Option<(u64, Fault)>, f: Option<u64>| -> R {
        getrandom::set_entropy(&[], c.entropy);
        let net = Net::new(Server::new(c.cfg.clone()));
        {
            let mut n = net.net();
            n.rd = c.rd.clone();
            n.wr = c.wr.clone();
            n.buffering = c.buffering;
            n.rfault = r;
            n.wfault = w;
            n.flush_fault = f == Some(u64::MAX);
            n.flush_once = f;
            if let Some((_, Fault::Dead(k) | Fault::Once(k))) = c.writes.first() {
                n.flush_kind = kind(*k);
            }
        }
        let res = connect(&net)?;
        let what = format!("reading {r:?}, writing {w:?}, flush failing {f:?} (of {read} bytes read and {} written)", sent.len());
        match res {
            Ok(_) => return Err(format!("{what}: the handshake is reported complete")),
            Err(e) if e.kind != TlsErrorKind::IoFailure => return Err(format!("{what}: reported as {:?}", e.kind)),
            Err(_) => {}
        }
        let mut n = net.net();
        n.pump();
        let mut all = n.c2s.clone();
        all.extend(&n.held);
        if !sent.starts_with(&all) {
            let k = sent.iter().zip(&all).take_while(|(x, y)| x == y).count();
            return Err(format!("{what}: after the failure other bytes were sent, from byte {k} on: {}", hex(&all[k..all.len().min(k + 16)])));
        }
        Ok(())
    };
    for (at, f) in &c.reads {
        run(Some((pick(*at, read) as u64, *f)), None, None)?;
        ctx.execs(1);
    }
    for (at, f) in &c.writes {
        run(None, Some((pick(*at, sent.len()) as u64, *f)), None)?;
        ctx.execs(1);
    }
    if c.flush {
        run(None, None, Some(u64::MAX))?;
        for i in 0..flushes {
            run(None, None, Some(i))?;
            ctx.execs(1);
        }
    }
    ctx.nt();
    Ok(())
}

// ------------------------------------------------------------ faults on an open connection

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Late {
    entropy: u64,
    before: Vec<Blob>,
    last: Blob,
    at: u32,
    fault: Fault,
    wr: Vec<u16>,
    all: bool,
    buffering: bool,
    flush_fault: bool,
    /// close instead of the last flush or write
    #[serde(default)]
    close: bool,
    /// flushes are interrupted this often before they work (instead of failing for good)
    #[serde(default)]
    intr: u32,
}
fn late_strat() -> BoxedStrategy<Late> {
    let d = || blob(prop_oneof![6 => 1u32..80, 1 => Just(0u32), 1 => 16_000u32..40_000].boxed());
    let wr = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..5usize)];
    (any::<u64>(), vec(d(), 0..4usize), d(), any::<u32>(), wfault(), wr, any::<bool>(), any::<bool>(), any::<bool>(), (any::<bool>(), prop_oneof![2 => Just(0u32), 1 => 1u32..4]))
        .prop_map(|(entropy, before, last, at, fault, wr, all, buffering, flush_fault, (close, intr))| Late { entropy, before, last, at, fault, wr, all, buffering, flush_fault, close, intr })
        .boxed()
}
fn late(c: &Late, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    {
        let mut n = net.net();
        n.wr = c.wr.clone();
        n.buffering = c.buffering;
    }
    let mut up = vec![];
    for b in &c.before {
        let d = b.expand();
        guarded(|| cl.write_all(&d))?.map_err(|e| format!("write over a working transport fails: {e}"))?;
        up.extend(d);
    }
    guarded(|| cl.flush())?.map_err(|e| format!("flush over a working transport fails: {e}"))?;
    if !net.net().held.is_empty() {
        return Err("after flush bytes have not been passed on".into());
    }
    net.net().pump();
    if net.net().peer.app_in != up {
        return Err("after flush the server has not obtained what was written".into());
    }
    if c.flush_fault && c.intr > 0 {
        // interrupted: reported, or tried again until it works
        let d = c.last.expand();
        guarded(|| cl.write_all(&d))?.map_err(|e| format!("write over a working transport fails: {e}"))?;
        up.extend(d);
        net.net().flush_interrupts = c.intr;
        if c.close {
            let r = guarded(|| cl.close())?;
            let held = net.net().held.len();
            if r.is_ok() && held > 0 {
                return Err(format!("close was interrupted and reports success, {held} bytes have not been passed on"));
            }
        }
        let mut left = c.intr + 1;
        while guarded(|| cl.flush())?.is_err() {
            left -= 1;
            if left == 0 {
                return Err("flush fails although the transport's flush works again".into());
            }
        }
        let held = net.net().held.len();
        if held > 0 {
            return Err(format!("flush was interrupted and reports success, {held} bytes have not been passed on"));
        }
        net.net().pump();
        if net.net().peer.app_in != up {
            return Err("after an interrupted flush the server has not obtained what was written".into());
        }
        ctx.nt();
        ctx.label("interrupted flush");
        return Ok(());
    }
    if c.flush_fault {
        net.net().flush_fault = true;
        if let Fault::Dead(k) | Fault::Once(k) = c.fault {
            net.net().flush_kind = kind(k);
        }
        let what = if c.close { "close" } else { "flush" };
        let r = guarded(|| if c.close { cl.close().map_err(|_| ()) } else { cl.flush().map_err(|_| ()) })?;
        // (a transport that does not buffer need not be flushed to have everything)
        let held = net.net().held.len();
        return match r {
            Ok(()) if !c.close || held > 0 => Err(format!("{what} reports success although the transport's flush fails")),
            _ => {
                ctx.nt();
                ctx.label(if c.close { "failing flush of a close" } else { "failing flush" });
                Ok(())
            }
        };
    }
    let d = if c.close { vec![0; 2] } else { c.last.expand() };
    let total: usize = d.chunks(16384).map(|p| p.len() + 21).sum();
    if total == 0 {
        return Ok(());
    }
    {
        let mut n = net.net();
        let at = n.accepted() + pick(c.at, total) as u64;
        n.wfault = Some((at, c.fault));
    }
    if c.close {
        if guarded(|| cl.close())?.is_ok() {
            return Err(format!("a close during which the transport failed ({:?} at share {}) is reported as done", c.fault, c.at));
        }
        ctx.nt();
        ctx.label("failing close");
        return Ok(());
    }
    let r = guarded(|| if c.all { cl.write_all(&d) } else { cl.write(&d).map(|k| assert_eq!(k, d.len(), "SPIN: short write count")) })?;
    if r.is_ok() {
        return Err(format!("a write of {} bytes during which the transport failed ({:?} at share {}) is reported as done", d.len(), c.fault, c.at));
    }
    ctx.nt();
    ctx.label("failing write");
    net.net().pump();
    if !net.net().peer.app_in.starts_with(&up) {
        return Err("data written earlier is gone".into());
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C23",
        assumptions: &[
            "the comparison is with the same session over a transport that moves everything at once",
            "how a failing read is reported on an open connection (error or end of stream) is left open",
        ],
        facets: vec![
            facet(Facet {
                name: "shapes",
                rule: "a handshake (a fifth of them with one deviation) and 0..9 operations (writes, flushes, server records, reads, alerts, close), over a transport that cuts reads and writes into chunks of any size, interrupts them retryably and may keep what is written until flush, compared with the same session over a perfect one; non-trivial: the transport is not perfect",
                quick: 8_000,
                thorough: 800_000,
                shrink: 400,
                strategy: strat,
                check,
            }),
            facet(Facet {
                name: "handshake-faults",
                rule: "per case 3 read faults (end of stream, error, one-off error) and 3 write faults (error, one-off error, zero-length write) at any byte of a handshake, sometimes a failing flush, every one in turn; every case counts",
                quick: 2_500,
                thorough: 250_000,
                shrink: 300,
                strategy: faults_strat,
                check: faults,
            }),
            facet(Facet {
                name: "write-faults",
                rule: "any writes, flush, then a write during which the transport fails at any byte, or a failing or interrupted flush, or a close during which either fails; non-trivial: the fault was armed",
                quick: 6_000,
                thorough: 600_000,
                shrink: 300,
                strategy: late_strat,
                check: late,
            }),
        ],
    })
}
