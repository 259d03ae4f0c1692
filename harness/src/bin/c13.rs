use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::{ContentType, Record, TlsWriter};
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::wgen::*;
use hv::wire::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum W {
    Data(u8, Blob),
    Record(u8, Blob),
    Hs(Msg),
    Alert(u8, u8),
    Ccs,
    App(Blob),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    ops: Vec<W>,
    /// encryption is switched on before this operation
    on: u8,
    start: u64,
    key: Hex,
    iv: Hex,
    wr: Vec<u16>,
}
fn data_len() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => Just(0u32),
        10 => 1u32..80,
        4 => 80u32..3000,
        3 => (0u32..4, -3i64..=3).prop_map(|(k, d)| (k as i64 * 16384 + d).max(0) as u32),
        1 => 1u32..70_000,
    ]
    .boxed()
}
fn ctype() -> BoxedStrategy<u8> {
    (20u8..=23).boxed()
}
fn op() -> BoxedStrategy<W> {
    prop_oneof![
        4 => (ctype(), blob(data_len())).prop_map(|(t, b)| W::Data(t, b)),
        2 => (ctype(), blob(prop_oneof![3 => 1u32..100, 1 => 16000u32..=16384, 1 => Just(16384u32)].boxed())).prop_map(|(t, b)| W::Record(t, b)),
        2 => msg_strat(false).prop_map(W::Hs),
        1 => (1u8..=2, proptest::sample::select(wire::KNOWN_ALERTS)).prop_map(|(l, d)| W::Alert(l, d)),
        1 => Just(W::Ccs),
        4 => blob(data_len()).prop_map(W::App),
    ]
    .boxed()
}
pub fn start() -> BoxedStrategy<u64> {
    let s = prop_oneof![
        3 => Just(0u64),
        1 => (0u32..62, 0u64..6).prop_map(|(k, d)| (1u64 << k).saturating_sub(d)),
        1 => (0u64..6).prop_map(|d| (1u64 << 63) - d),
        1 => (0u64..40).prop_map(|d| (1u64 << 32) - d),
        1 => any::<u64>().prop_map(|x| x.min(u64::MAX - 4000)),
        1 => (0u64..20).prop_map(|d| u64::MAX - 4000 - d),
    ];
    hv::lits::spice(s.boxed())
}
fn strat() -> BoxedStrategy<Case> {
    let wr = prop_oneof![3 => Just(vec![]), 2 => vec(0u16..7, 1..6usize), 1 => vec(1u16..5000, 1..6usize)];
    (vec(op(), 1..12usize), 0u8..14, start(), keyish(32), keyish(12), wr).prop_map(|(ops, on, start, key, iv, wr)| Case { ops, on, start, key, iv, wr }).boxed()
}
fn ty(t: u8) -> ContentType {
    match t {
        20 => ContentType::ChangeCipherSpecTy,
        21 => ContentType::AlertTy,
        22 => ContentType::HandshakeTy,
        _ => ContentType::ApplicationDataTy,
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let net = Net::new(NoPeer);
    net.net().wr = c.wr.clone();
    net.net().fuel = u64::MAX;
    let mut w = TlsWriter::new(net.writer());
    let mut enc = false;
    let mut seq = 0u64;
    let mut seen = 0;
    for (i, op) in c.ops.iter().enumerate() {
        if !enc && i == c.on as usize % 12 {
            w.set_encryptor(ChaCha20Poly1305.new_encryptor(c.key.0.clone()));
            w.set_iv(c.iv.0.clone());
            enc = true;
            seq = 0;
            #[cfg(husk_verif)]
            {
                w.verif_set_write_count(c.start);
                seq = c.start;
            }
        }
        let (t, data, r) = match op {
            W::Data(t, b) => {
                let d = b.expand();
                let r = w.write_data(ty(*t), &d);
                (*t, d, r)
            }
            W::Record(t, b) => {
                let d = b.expand();
                let r = w.write_record(Record::new(ty(*t), 3, 3, d.clone()));
                (*t, d, r)
            }
            W::Hs(m) => {
                let h = to_msg(m).map_err(|e| format!("harness: cannot build {m:?}: {e:?}"))?;
                let r = w.write_handshake(&h);
                (22, wire::msg(m), r)
            }
            W::Alert(l, d) => {
                let a = to_alert((*l, *d)).map_err(|e| format!("harness: alert {e:?}"))?;
                let r = w.write_alert(&a);
                (21, vec![*l, *d], r)
            }
            W::Ccs => (20, vec![1], w.write_change_cipher_spec()),
            W::App(b) => {
                let d = b.expand();
                let r = if enc { w.write_application_data(&d) } else { w.write_data(ContentType::ApplicationDataTy, &d) };
                (23, d, r)
            }
        };
        if let Err(e) = r {
            return Err(format!("operation {i} failed on a working transport: {e:?}"));
        }
        let n = net.net();
        let new = &n.c2s[seen..];
        let (recs, used) = split_records(new);
        if used != new.len() {
            return Err(format!("operation {i} left {} bytes that are not a record", new.len() - used));
        }
        let mut got = Vec::new();
        for (rt, ver, body) in &recs {
            if *rt != t || *ver != (3, 3) {
                return Err(format!("operation {i} of type {t} wrote a record of type {rt}, version {ver:?}"));
            }
            let plain = if enc {
                let nonce = refr::tls_nonce(&c.iv, seq);
                match body.len().checked_sub(16).and_then(|l| refr::aead_open(&c.key, &nonce, &refr::tls_ad(seq, *rt, *ver, l), body)) {
                    Some(p) => p,
                    None => return Err(format!("operation {i}: a record is not the sealing under sequence number {seq}")),
                }
            } else {
                body.clone()
            };
            seq += 1;
            if plain.is_empty() || plain.len() > 16384 {
                return Err(format!("operation {i} wrote a record of {} plaintext bytes", plain.len()));
            }
            got.extend(plain);
        }
        if got != data {
            return Err(format!("operation {i}: the records carry {} bytes that are not the {} written", got.len(), data.len()));
        }
        if recs.len() > 1 {
            ctx.label("several records");
        }
        if enc {
            ctx.nt();
        }
        seen = n.c2s.len();
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    n: u32,
    key: Hex,
    iv: Hex,
}
fn long_strat() -> BoxedStrategy<Long> {
    (prop_oneof![3 => 250u32..2000, 1 => 65_500u32..66_500], keyish(32), keyish(12)).prop_map(|(n, key, iv)| Long { n, key, iv }).boxed()
}
fn long(c: &Long, ctx: &mut Ctx) -> R {
    ctx.nt();
    ctx.execs(c.n as u64);
    let mut out: Vec<u8> = Vec::new();
    let mut w = TlsWriter::new(&mut out);
    w.set_encryptor(ChaCha20Poly1305.new_encryptor(c.key.0.clone()));
    w.set_iv(c.iv.0.clone());
    for i in 0..c.n {
        w.write_application_data(&[i as u8, (i >> 8) as u8]).map_err(|e| format!("write {i} failed: {e:?}"))?;
    }
    for (i, r) in out.chunks(23).enumerate() {
        if r != refr::tls_record(&c.key, &c.iv, i as u64, 23, (3, 3), &[i as u8, (i >> 8) as u8]) {
            return Err(format!("record {i} is not the sealing under sequence number {i}"));
        }
    }
    if out.len() != 23 * c.n as usize {
        return Err("wrong number of records".into());
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C13",
        assumptions: &["sequence numbers stay below 2^64-1", "the transport takes bytes in pieces and with retryable interruptions but does not fail (failures are C15 and C23)"],
        facets: vec![facet(Facet {
            name: "long",
            rule: "up to 66500 consecutive records written from the start of encryption, without the hook; non-trivial: every case",
            quick: 48,
            thorough: 1_600,
            shrink: 30,
            strategy: long_strat,
            check: long,
        }), facet(Facet {
            name: "vast",
            rule: "single writes around multiples of 65536 up to 2^24 and beyond; all non-trivial",
            quick: 48,
            thorough: 2_000,
            shrink: 12,
            strategy: || {
                let len = prop_oneof![3 => (1u32..70, -20i32..40).prop_map(|(k, d)| ((k << 16) as i32 + d) as u32), 1 => (-3i32..20_000).prop_map(|d| ((1 << 24) + d) as u32)];
                (blob(len.boxed()), ctype(), any::<bool>(), 0u8..3, start(), keyish(32), keyish(12))
                    .prop_map(|(b, t, app, on, start, key, iv)| Case { ops: vec![W::App(Blob { len: 3, kind: 0, seed: 1 }), if app { W::App(b) } else { W::Data(t, b) }], on: if app { 0 } else { on }, start, key, iv, wr: vec![] })
                    .boxed()
            },
            check: |c, ctx| {
                ctx.nt();
                check(c, ctx)
            },
        }), facet(Facet {
            name: "writes",
            rule: "1..11 writes of every kind (raw data of each content type up to 70 kB, single records, handshake messages, alerts, change cipher spec, application data), encryption switched on before any of them, starting at any sequence number (hook), over chunking and interrupting transports; non-trivial: at least one write was encrypted",
            quick: 600_000,
            thorough: 30_000_000,
            shrink: 2000,
            strategy: strat,
            check,
        })],
    })
}
