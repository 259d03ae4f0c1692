use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use hv::wire::{self, *};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::Write;

/// What the client sends to a peer that never answers.
fn hello_bytes() -> Result<Vec<u8>, String> {
    let net = Net::new(NoPeer);
    let r = guarded(|| husk::TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng).err())?;
    if r.is_none() {
        return Err("a handshake without a server succeeded".into());
    }
    let b = net.net().c2s.clone();
    Ok(b)
}
fn strict(c2s: &[u8]) -> Result<CHello, String> {
    let (recs, used) = split_records(c2s);
    if used != c2s.len() || recs.iter().any(|r| r.0 != 22 || r.1 != (3, 3)) {
        return Err(format!("the client starts with {}, not with handshake records only", hex(&c2s[..c2s.len().min(60)])));
    }
    let all: Vec<u8> = recs.iter().flat_map(|r| r.2.clone()).collect();
    let h = match p_msg(&all) {
        Ok(Msg::ClientHello(h)) => h,
        _ => return Err(format!("the first flight is not exactly one well-formed client hello: {}", hex(&all))),
    };
    if h.ver != (3, 3) {
        return Err(format!("version {:?} offered", h.ver));
    }
    if h.suites != [SUITE] {
        return Err(format!("suites {:x?} offered", h.suites));
    }
    if h.comps != [0] {
        return Err(format!("compression methods {:?} offered", h.comps));
    }
    let mut seen = [0; 3];
    for e in h.exts.iter().flatten() {
        let (k, ok) = match e {
            Ext::Curves(c) => (0, c[..] == [23]),
            Ext::Formats(f) => (1, f[..] == [0]),
            Ext::SigAlgs(a) => (2, a[..] == [(4, 1)]),
            e => return Err(format!("extension {e:?} offered")),
        };
        seen[k] += 1;
        if !ok {
            return Err(format!("extension {e:?} offers something the client does not implement"));
        }
    }
    if seen != [1, 1, 1] {
        return Err(format!("curves, point formats, signature algorithms are offered {seen:?} times"));
    }
    Ok(h)
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Seed {
    prefix: Hex,
    seed: u64,
}
fn seed_strat() -> BoxedStrategy<Seed> {
    (prop_oneof![2 => keyish(32), 1 => keyish(64), 1 => bytes(0..32usize)], any::<u64>()).prop_map(|(prefix, seed)| Seed { prefix, seed }).boxed()
}
fn hello(c: &Seed, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&c.prefix, c.seed);
    let a = strict(&hello_bytes()?)?;
    let used = getrandom::entropy_log().len();
    ctx.nt();
    ctx.execs(2);
    if used < 32 {
        return Err(format!("only {used} bytes were drawn from the random source for the hello"));
    }
    // the next connection draws new randomness
    let b = strict(&hello_bytes()?)?;
    let log = getrandom::entropy_log();
    if a.random == b.random && log[..used] != log[used..] {
        return Err("two connections with different randomness share the client random".into());
    }
    Ok(())
}
/// Every bit of the random value follows the random source.
fn bits(c: &Seed, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&c.prefix, c.seed);
    let base = strict(&hello_bytes()?)?.random;
    let log = getrandom::entropy_log();
    let mut moved = vec![0u8; 32];
    let mut effective = 0;
    for bit in 0..(log.len() * 8).min(2048) {
        let mut e = log.clone();
        e[bit / 8] ^= 1 << (bit % 8);
        getrandom::set_entropy(&e, c.seed);
        let r = strict(&hello_bytes()?)?.random;
        if r != base {
            effective += 1;
        }
        for (m, (x, y)) in moved.iter_mut().zip(r.iter().zip(base.iter())) {
            *m |= x ^ y;
        }
        ctx.execs(1);
    }
    ctx.nt();
    if effective < 256 || moved.iter().any(|m| *m != 0xff) {
        return Err(format!("{effective} bits of the random source reach the client random; bits that ever change: {}", hex(&moved)));
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Full {
    cfg: Cfg,
    seed: u64,
    data: Blob,
    /// the server deviates, so that the client also sends an alert
    dev: Option<u16>,
}
fn full_strat() -> BoxedStrategy<Full> {
    (small_cfg(), any::<u64>(), blob((0u32..300).boxed()), proptest::option::weighted(0.2, any::<u16>())).prop_map(|(cfg, seed, data, dev)| Full { cfg, seed, data, dev }).boxed()
}
fn full(c: &Full, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.seed);
    let net = Net::new(Server::new(c.cfg.clone()));
    if let Some(d) = c.dev {
        let op = if d & 1 == 0 { Op::FlipBit((d as u32) << 16) } else { Op::Drop };
        net.net().peer.devs = vec![Dev { flight: (d >> 1) as u8 & 1, at: (d >> 2) as u8, agreed: false, op }];
    }
    let client = connect(&net)?;
    if let Ok(mut cl) = client {
        let _ = cl.write_all(&c.data.expand());
        let _ = cl.close();
    }
    net.net().pump();
    let log = getrandom::entropy_log();
    let n = net.net();
    let (recs, _) = split_records(&n.c2s);
    // the hello comes first, alone
    let Some(first) = recs.first() else { return Err("nothing was sent".into()) };
    strict(&n.c2s[..5 + first.2.len()])?;
    let mut clear = n.c2s.clone();
    clear[11..43].fill(0);
    let have: HashSet<&[u8]> = clear.windows(8).collect();
    let mut secrets: Vec<(&str, Vec<u8>)> = vec![("the random source", log.clone())];
    if let Some(k) = &n.peer.keys {
        ctx.nt();
        let cke = &n.peer.cke;
        if let Some((x, _)) = hv::refr::decode_point(&cke[5..]).and_then(|p| hv::refr::mul(&c.cfg.key.scalar(), &Some(p))) {
            // a server whose private key is 1 or -1 makes the public share the secret
            let x = hv::refr::be32(&x).to_vec();
            if cke.get(6..38) != Some(&x[..]) {
                secrets.push(("the premaster secret", x));
            }
        }
        secrets.push(("the master secret", n.peer.ms.clone()));
        secrets.push(("a write key", k.cw.clone()));
        secrets.push(("a read key", k.sw.clone()));
        secrets.push(("the write IV", k.civ.clone()));
        secrets.push(("the read IV", k.siv.clone()));
    }
    for (what, s) in &secrets {
        let mut rev = s.clone();
        rev.reverse();
        for v in [s, &rev] {
            if let Some(w) = v.windows(8).find(|w| have.contains(w)) {
                return Err(format!("bytes of {what} ({}) are on the wire in clear", hex(w)));
            }
        }
    }
    let _ = wire::SUITE;
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C24",
        assumptions: &["the random source is what rand::rngs::OsRng draws from; the stand-in hands out a stream chosen by the case", "a secret is looked for byte by byte (8-byte windows, both byte orders), not in other encodings"],
        facets: vec![
            facet(Facet {
                name: "hello",
                rule: "random streams (random, constant, structured); the hello of two connections in a row against a strict parser and the list of what husk implements; non-trivial: every case",
                quick: 1_200_000,
                thorough: 60_000_000,
                shrink: 500,
                strategy: seed_strat,
                check: hello,
            }),
            facet(Facet {
                name: "bits",
                rule: "for one random stream, every bit that was drawn is flipped in turn; all 256 bits of the client random must move and at least 256 drawn bits must matter; non-trivial: every case",
                quick: 15_000,
                thorough: 750_000,
                shrink: 100,
                strategy: seed_strat,
                check: bits,
            }),
            facet(Facet {
                name: "secrecy",
                rule: "whole handshakes with data, some with a deviating server; drawn bytes (outside the client random), premaster, master secret, keys and IVs must not occur in what the client sent; non-trivial: the keys were derived",
                quick: 24_000,
                thorough: 1_200_000,
                shrink: 200,
                strategy: full_strat,
                check: full,
            }),
        ],
    })
}
