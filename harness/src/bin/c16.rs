use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use hv::{refr, wire};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    cfg: Cfg,
    entropy: u64,
    up: Blob,
    down: Blob,
}
fn strat() -> BoxedStrategy<Case> {
    (cfg(), any::<u64>(), blob((1u32..3000).boxed()), blob((1u32..3000).boxed())).prop_map(|(cfg, entropy, up, down)| Case { cfg, entropy, up, down }).boxed()
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(c.cfg.clone()));
    let r = connect(&net)?;
    let mut client = match r {
        Ok(c) => c,
        Err(e) => return Err(format!("handshake with a conforming server failed: {:?} {}", e.kind, e.desc)),
    };
    ctx.nt();
    if let Frag::Sizes(_) = c.cfg.frag {
        ctx.label("fragmented or merged flight");
    }
    {
        let mut n = net.net();
        n.pump();
        let s = &n.peer;
        if let Some(m) = s.complaints.first() {
            return Err(format!("the server objects: {m}"));
        }
        if s.st != St::Open {
            return Err(format!("the client reports success but the server is in state {:?}", s.st));
        }
        // exactly: client hello | key exchange | change cipher spec | encrypted Finished
        let got: Vec<(u8, bool, u8)> = s.recs.iter().map(|r| (r.ty, r.enc, r.plain.first().copied().unwrap_or(0))).collect();
        let want = [(22, false, 1), (22, false, 16), (20, false, 1), (22, true, 20)];
        if got != want {
            return Err(format!("client sent records {got:?} (type, encrypted, first byte), expected {want:?}"));
        }
        // everything written was complete records
        let (_, used) = wire::split_records(&n.c2s);
        if used != n.c2s.len() {
            return Err("trailing bytes after the client's records".into());
        }
    }
    // both directions, first bytes
    let up = c.up.expand();
    client.write_all(&up).map_err(|e| format!("first write failed: {e}"))?;
    client.flush().map_err(|e| format!("flush failed: {e}"))?;
    let down = c.down.expand();
    net.net().peer.queue.push(Item::sealed(23, down.clone()));
    let mut buf = vec![0u8; down.len()];
    let mut at = 0;
    while at < buf.len() {
        match client.read(&mut buf[at..]) {
            Ok(0) => break,
            Ok(k) => at += k,
            Err(e) => return Err(format!("first read failed: {e}")),
        }
    }
    if buf[..at] != down[..] {
        return Err(format!("client read {at} bytes, not the {} the server sent first", down.len()));
    }
    let mut n = net.net();
    n.pump();
    if let Some(m) = n.peer.complaints.first() {
        return Err(format!("the server objects to the first application data: {m}"));
    }
    if n.peer.app_in != up {
        return Err(format!("server decrypted {} bytes, client wrote {}", n.peer.app_in.len(), up.len()));
    }
    // the judge agrees with the server
    let j = judge(&n.s2c, &n.c2s, &c.cfg.key.scalar());
    if j.verdict != Verdict::Accept {
        return Err(format!("harness: the judge says {:?} on a conforming handshake", j.verdict));
    }
    Ok(())
}
/// A flight in very many records.
fn long_strat() -> BoxedStrategy<Case> {
    let size = hv::lits::spice((200u32..24_000).boxed());
    let small = || blob((1u32..60).boxed());
    (any::<u64>(), prop_oneof![3 => size.prop_map(|l| (l, 0u32)), 1 => (0u32..100, 200u32..20_000)], any::<u32>(), 1u16..4, small(), small())
        .prop_map(|(entropy, (cert, sig), seed, piece, up, down)| {
            let mut cfg = Cfg::plain();
            cfg.certs = vec![Blob { len: cert + 1, kind: 4, seed }];
            cfg.sig = Blob { len: sig, kind: 4, seed };
            cfg.frag = Frag::Sizes(vec![piece]);
            cfg.frag_fin = Frag::Sizes(vec![1]);
            Case { cfg, entropy, up, down }
        })
        .boxed()
}
fn main() {
    let _ = refr::n();
    hv::fw::main(Property {
        id: "C16",
        assumptions: &["the reference server implements RFC 5246, 4492 and 7905 independently of husk", "a server that asks for a client certificate is outside the property (husk has none to send)"],
        facets: vec![facet(Facet {
            name: "long",
            rule: "the same with a certificate or signature of up to 24 kB and every message in records of 1..3 bytes; non-trivial: the handshake completed",
            quick: 240,
            thorough: 20_000,
            shrink: 60,
            strategy: long_strat,
            check,
        }),
        facet(Facet {
            name: "handshake",
            rule: "server random, session id, permitted extensions, certificate chains of 0..3 certificates up to 70 kB, ephemeral key, signature bytes up to 64 kB, record fragmentation from single bytes to merged flights, values that repeat what the client sent (session id, certificate, signature, random); then the first bytes in both directions; non-trivial: the handshake completed",
            quick: 15_000,
            thorough: 600_000,
            shrink: 300,
            strategy: strat,
            check,
        })],
    })
}
