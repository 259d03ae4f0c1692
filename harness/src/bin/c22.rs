use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use hv::{wgen, wire};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

/// What ends the server's stream.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum End {
    /// close_notify at level warning or fatal
    Close(u8),
    /// any other alert (index into the known ones), level
    Alert(u8, u8),
    /// an alert record with other content
    OddAlert(Hex),
    Ccs(Hex),
    Msg(wire::Msg),
    Handshake(Hex),
    /// a record of unknown content type
    Unknown(u8, Hex),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Send(Blob),
    Read(u32),
    Write(Blob),
    Flush,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum After {
    Data(Blob),
    Raw(Hex),
    Alert(u8, u8),
    Tampered(Blob),
    Handshake(Hex),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    entropy: u64,
    ops: Vec<Op>,
    end: End,
    /// what follows at once, and what follows after the end has been seen
    next: Vec<After>,
    later: Vec<After>,
    reads: Vec<u32>,
    write_after: bool,
    rd: Vec<u16>,
    /// what the caller does besides, between reads that bring nothing
    #[serde(default)]
    between: Vec<u8>,
    /// the client closes before it has read everything: after this many operations
    #[serde(default)]
    closing: Option<u8>,
}
fn data() -> BoxedStrategy<Blob> {
    blob(prop_oneof![8 => 1u32..40, 1 => Just(0u32), 2 => 40u32..600, 1 => 16380u32..=16384].boxed())
}
fn end() -> BoxedStrategy<End> {
    prop_oneof![
        6 => (1u8..=2).prop_map(End::Close),
        5 => (any::<u8>(), 1u8..=2).prop_map(|(a, l)| End::Alert(a, l)),
        1 => prop_oneof![2 => bytes(0..4usize), 2 => (1u8..=2, any::<u8>(), bytes(1..20usize)).prop_map(|(l, d, b)| Hex([&[l, wire::KNOWN_ALERTS[d as usize % wire::KNOWN_ALERTS.len()]], &b[..]].concat()))].prop_map(End::OddAlert),
        1 => prop_oneof![3 => Just(Hex(vec![1])), 1 => bytes(0..3usize)].prop_map(End::Ccs),
        3 => wgen::msg_strat(true).prop_map(End::Msg),
        2 => prop_oneof![Just(Hex(vec![14, 0, 0, 0])), Just(Hex(vec![])), bytes(12).prop_map(|b| Hex(wire::frame(20, &b))), (21u8..=255, bytes(0..5usize)).prop_map(|(t, b)| Hex(wire::frame(t, &b))),
            // a known type around what it cannot hold
            (proptest::sample::select(&[1u8, 2, 11, 13, 14, 20][..]), bytes(1..9usize)).prop_map(|(t, b)| Hex(wire::frame(t, &b)))].prop_map(End::Handshake),
        1 => (24u8..=255, bytes(0..5usize)).prop_map(|(t, b)| End::Unknown(t, b)),
    ]
    .boxed()
}
fn after() -> BoxedStrategy<After> {
    prop_oneof![
        5 => data().prop_map(After::Data),
        1 => bytes(0..20usize).prop_map(After::Raw),
        1 => (any::<u8>(), 1u8..=2).prop_map(|(a, b)| After::Alert(a, b)),
        1 => data().prop_map(After::Tampered),
        1 => Just(After::Handshake(Hex(vec![14, 0, 0, 0]))),
    ]
    .boxed()
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => data().prop_map(Op::Send),
        3 => prop_oneof![4 => 0u32..60, 1 => 0u32..20_000].prop_map(Op::Read),
        1 => blob((0u32..60).boxed()).prop_map(Op::Write),
        1 => Just(Op::Flush),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let reads = vec(prop_oneof![3 => 1u32..10, 3 => 10u32..100, 1 => Just(0u32), 1 => 100u32..40_000], 1..6usize);
    let rd = prop_oneof![4 => Just(vec![]), 1 => vec(1u16..9, 1..4usize)];
    let between = prop_oneof![3 => Just(vec![]), 2 => vec(0u8..8, 1..5usize)];
    let closing = prop_oneof![4 => Just(None), 1 => (0u8..10).prop_map(Some)];
    (any::<u64>(), vec(op(), 0..8usize), end(), vec(after(), 0..4usize), vec(after(), 0..4usize), reads, any::<bool>(), rd, between, closing)
        .prop_map(|(entropy, ops, end, next, later, reads, write_after, rd, between, closing)| Case { entropy, ops, end, next, later, reads, write_after, rd, between, closing })
        .boxed()
}
fn lay(n: &mut Net<Server>, a: &[After]) {
    for a in a {
        let r = match a {
            After::Data(b) => n.peer.seal(23, (3, 3), &b.expand(), 0, false),
            After::Raw(h) => h.0.clone(),
            After::Alert(d, l) => n.peer.seal(21, (3, 3), &[*l, wire::KNOWN_ALERTS[*d as usize % wire::KNOWN_ALERTS.len()]], 0, false),
            After::Tampered(b) => {
                let mut r = n.peer.seal(23, (3, 3), &b.expand(), 0, false);
                r[5] ^= 1;
                r
            }
            After::Handshake(h) => n.peer.seal(22, (3, 3), h, 0, false),
        };
        n.s2c.extend(r);
    }
}
fn lay_end(n: &mut Net<Server>, e: &End) {
    let mut one = |t: u8, p: &[u8]| {
        let r = n.peer.seal(t, (3, 3), p, 0, false);
        n.s2c.extend(r);
    };
    match e {
        End::Close(l) => one(21, &[*l, 0]),
        End::Alert(a, l) => {
            let rest: Vec<u8> = wire::KNOWN_ALERTS.iter().copied().filter(|a| *a != 0).collect();
            one(21, &[*l, rest[*a as usize % rest.len()]])
        }
        End::OddAlert(h) => one(21, h),
        End::Ccs(h) => one(20, h),
        End::Msg(m) => {
            let b = wire::msg(m);
            // a hello request is not unexpected, a client may ignore it
            let b = if b[0] == 0 { vec![14, 0, 0, 0] } else { b };
            for p in b.chunks(16384) {
                one(22, p)
            }
        }
        End::Handshake(h) => one(22, h),
        End::Unknown(t, h) => one(*t, h),
    }
}
struct Reads {
    got: Vec<u8>,
    /// ended by an error rather than by zero bytes
    errors: usize,
}
fn read_out(cl: &mut Client, reads: &[u32], more: usize, ended: bool, between: &[u8]) -> Result<Reads, String> {
    let mut r = Reads { got: vec![], errors: 0 };
    let mut dry = ended as usize;
    let more = more + dry;
    let mut i = 0;
    let all_empty = reads.iter().all(|r| *r == 0);
    while dry < more {
        let n = match reads[i % reads.len()] as usize {
            0 if all_empty => 3,
            n => n,
        };
        i += 1;
        let mut buf = vec![0u8; n];
        let was = dry;
        match guarded(|| cl.read(&mut buf))? {
            Ok(k) if k > n => return Err(format!("a read into {n} bytes reports {k}")),
            Ok(0) if n == 0 => {}
            Ok(0) => dry += 1,
            Err(_) => {
                dry += 1;
                r.errors += 1;
            }
            Ok(k) if dry > 0 => return Err(format!("a read delivers {k} bytes ({}) after the end of the stream", hex(&buf[..k.min(16)]))),
            Ok(k) => r.got.extend_from_slice(&buf[..k]),
        }
        if dry > was {
            if let Some(b) = between.get(was) {
                meddle(cl, *b)?;
            }
        }
    }
    Ok(r)
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    net.net().rd = c.rd.clone();
    let mut down: Vec<u8> = vec![];
    let mut got: Vec<u8> = vec![];
    let mut closed = false;
    for (i, o) in c.ops.iter().enumerate() {
        if c.closing == Some(i as u8) {
            guarded(|| cl.close())?.map_err(|e| format!("close fails: {:?} {}", e.kind, e.desc))?;
            closed = true;
            ctx.label("the client closes while data is on its way");
        }
        match o {
            Op::Send(b) => {
                let p = b.expand();
                let mut n = net.net();
                let r = n.peer.seal(23, (3, 3), &p, 0, false);
                n.s2c.extend(r);
                down.extend(p);
            }
            Op::Read(k) => {
                // only what has arrived
                let k = (*k as usize).min(down.len() - got.len());
                let mut buf = vec![0u8; k];
                let m = guarded(|| cl.read(&mut buf))?.map_err(|e| format!("a read with {k} bytes waiting fails: {e}"))?;
                got.extend_from_slice(&buf[..m.min(k)]);
            }
            Op::Write(_) if closed => {}
            Op::Write(b) => guarded(|| cl.write_all(&b.expand()))?.map_err(|e| format!("write fails: {e}"))?,
            Op::Flush => guarded(|| cl.flush())?.map_err(|e| format!("flush fails: {e}"))?,
        }
    }
    if c.closing.map_or(false, |k| k as usize == c.ops.len()) {
        guarded(|| cl.close())?.map_err(|e| format!("close fails: {:?} {}", e.kind, e.desc))?;
        ctx.label("the client closes while data is on its way");
    }
    {
        let mut n = net.net();
        lay_end(&mut n, &c.end);
        lay(&mut n, &c.next);
    }
    let r = read_out(&mut cl, &c.reads, 3, false, &c.between)?;
    got.extend(&r.got);
    if got != down {
        let same = got.iter().zip(&down).take_while(|(a, b)| a == b).count();
        return Err(format!("{:?}: the client read {} bytes, {} were sent before it; they agree up to byte {same}", c.end, got.len(), down.len()));
    }
    if r.errors > 0 && matches!(c.end, End::Close(_)) {
        return Err("a read reports an error after close_notify instead of the end of the stream".into());
    }
    ctx.label(match &c.end {
        End::Close(_) => "close_notify",
        End::Alert(..) => "other alert",
        End::OddAlert(_) => "odd alert",
        End::Ccs(_) => "change cipher spec",
        End::Msg(_) | End::Handshake(_) => "handshake message",
        End::Unknown(..) => "unknown content type",
    });
    if c.next.iter().chain(&c.later).any(|a| matches!(a, After::Data(b) if b.len > 0)) {
        ctx.nt();
    }
    if c.write_after {
        let _ = guarded(|| cl.write(b"late"))?;
    }
    {
        let mut n = net.net();
        lay(&mut n, &c.later);
    }
    let r = read_out(&mut cl, &c.reads, 3, true, &c.between)?;
    if r.errors > 0 && matches!(c.end, End::Close(_)) {
        return Err("a later read reports an error after close_notify instead of the end of the stream".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Close {
    entropy: u64,
    ops: Vec<Op>,
    server_first: bool,
    wr: Vec<u16>,
    buffering: bool,
}
fn close_strat() -> BoxedStrategy<Close> {
    let op = prop_oneof![
        2 => data().prop_map(Op::Send),
        2 => (0u32..60).prop_map(Op::Read),
        5 => blob(prop_oneof![5 => 0u32..60, 1 => 0u32..40_000].boxed()).prop_map(Op::Write),
        1 => Just(Op::Flush),
    ];
    let wr = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..5usize)];
    (any::<u64>(), vec(op, 0..10usize), any::<bool>(), wr, any::<bool>()).prop_map(|(entropy, ops, server_first, wr, buffering)| Close { entropy, ops, server_first, wr, buffering }).boxed()
}
fn close(c: &Close, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    {
        let mut n = net.net();
        n.wr = c.wr.clone();
        n.buffering = c.buffering;
    }
    let mut up = vec![];
    let mut waiting = 0usize;
    for o in &c.ops {
        match o {
            Op::Send(b) => {
                let mut n = net.net();
                let p = b.expand();
                let r = n.peer.seal(23, (3, 3), &p, 0, false);
                n.s2c.extend(r);
                waiting += p.len();
            }
            Op::Read(k) => {
                let mut buf = vec![0u8; (*k as usize).min(waiting)];
                waiting -= guarded(|| cl.read(&mut buf))?.map_err(|e| format!("read fails: {e}"))?.min(waiting);
            }
            Op::Write(b) => {
                let d = b.expand();
                guarded(|| cl.write_all(&d))?.map_err(|e| format!("write fails: {e}"))?;
                up.extend(d);
            }
            Op::Flush => guarded(|| cl.flush())?.map_err(|e| format!("flush fails: {e}"))?,
        }
    }
    if c.server_first {
        let mut n = net.net();
        let r = n.peer.seal(21, (3, 3), &[1, 0], 0, false);
        n.s2c.extend(r);
        drop(n);
        read_out(&mut cl, &[50], 1, false, &[])?;
    }
    let before = net.net().accepted() as usize;
    guarded(|| cl.close())?.map_err(|e| format!("close fails: {:?} {}", e.kind, e.desc))?;
    // nobody flushes a connection after closing it
    if !net.net().held.is_empty() {
        return Err(format!("closing reports success but {} bytes, the closing alert among them, were never flushed", net.net().held.len()));
    }
    let drop_ok = guarded(move || drop(cl));
    drop_ok?;
    let mut n = net.net();
    n.pump();
    if let Some(m) = n.peer.complaints.first() {
        return Err(format!("the server objects to what the closing client sent: {m}"));
    }
    let (recs, used) = wire::split_records(&n.c2s[before..]);
    if used != n.c2s.len() - before {
        return Err("closing leaves an incomplete record".into());
    }
    if recs.len() != 1 {
        return Err(format!("closing sends {} records, of types {:?}", recs.len(), recs.iter().map(|r| r.0).collect::<Vec<_>>()));
    }
    let last = n.peer.recs.last().unwrap();
    if last.ty != 21 || !last.enc {
        return Err(format!("closing sends a record of type {}, encrypted: {}", last.ty, last.enc));
    }
    if !matches!(last.plain[..], [1 | 2, 0]) {
        return Err(format!("closing sends the alert {}", hex(&last.plain)));
    }
    if n.peer.app_in != up {
        return Err("the data before the closing alert is not what was written".into());
    }
    if !up.is_empty() {
        ctx.nt();
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C22",
        assumptions: &[
            "an alert other than close_notify, or an unexpected message, may also be reported by reads as errors",
            "HelloRequest is not counted as unexpected and not generated",
            "the level of the client's close_notify is left open (RFC 5246 7.2.1 does not fix it)",
        ],
        facets: vec![
            facet(Facet {
                name: "server",
                rule: "data, reads and writes, then close_notify, another alert, a malformed alert, a change cipher spec, a handshake message or an unknown content type (all sealed in sequence), at once followed by and later followed by more genuine data, alerts, handshake messages or garbage, the caller reading on with writes, flushes, alerts or closures of its own in between, sometimes closing its side before the data was read; non-trivial: genuine non-empty data follows the end",
                quick: 25_000,
                thorough: 2_500_000,
                shrink: 500,
                strategy: strat,
                check,
            }),
            facet(Facet {
                name: "client",
                rule: "any writes, records and reads, then close, with or without the server having closed first; non-trivial: data was written before",
                quick: 8_000,
                thorough: 800_000,
                shrink: 300,
                strategy: close_strat,
                check: close,
            }),
        ],
    })
}
