use husk::cipher::prf::hmac_sha256;
use husk::crypto::sha2::sha256;
use hv::fw::*;
use hv::gen::*;
use hv::refr;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Msg {
    Raw(Hex),
    Bulk(Blob),
}
impl Msg {
    fn get(&self) -> Vec<u8> {
        match self {
            Msg::Raw(h) => h.0.clone(),
            Msg::Bulk(b) => b.expand(),
        }
    }
}
fn msg(max: u32) -> BoxedStrategy<Msg> {
    prop_oneof![
        3 => bytes(0..200usize).prop_map(Msg::Raw),
        // every residue of the length modulo 64 around padding boundaries
        5 => blob((0u32..=max / 64, prop_oneof![0u32..64, 50u32..64]).prop_map(move |(k, r)| (k * 64 + r).min(max)).boxed()).prop_map(Msg::Bulk),
        1 => blob((0..=max).boxed()).prop_map(Msg::Bulk),
    ]
    .boxed()
}

fn sha_small() -> BoxedStrategy<Msg> {
    prop_oneof![6 => msg(640), 3 => msg(4096), 1 => msg(40_000)].boxed()
}
fn check_sha(c: &Msg, ctx: &mut Ctx) -> R {
    let m = c.get();
    if m.len() > 55 {
        ctx.nt();
    }
    ctx.label(match m.len() % 64 {
        0..=54 => "pad: length field fits",
        55 => "pad: exactly one 0x80 byte",
        _ => "pad: spills into another block",
    });
    if m.len() >= 8192 {
        ctx.label("bit length needs a third byte");
    }
    let (got, want) = (sha256(&m), refr::sha256(&m));
    if got != want {
        return Err(format!("sha256 of {} bytes: got {}, FIPS 180-4 says {}", m.len(), hex(&got), hex(&want)));
    }
    Ok(())
}

/// Every length in a window, so that no padding class is left to chance.
fn check_lengths(c: &(u32, u8, u32), ctx: &mut Ctx) -> R {
    ctx.nt();
    let (start, kind, seed) = *c;
    let all = Blob { len: start + 130, kind, seed }.expand();
    for len in start..start + 130 {
        ctx.execs(1);
        let m = &all[..len as usize];
        if sha256(m) != refr::sha256(m) {
            return Err(format!("sha256 wrong for {len} bytes of kind {kind}"));
        }
    }
    Ok(())
}

/// Messages whose bit length does not fit 16, 24 or 32 bits.
fn check_huge(c: &Blob, ctx: &mut Ctx) -> R {
    ctx.nt();
    let m = c.expand();
    ctx.label(format!("bit length {} bits wide", 64 - ((m.len() as u64) * 8).leading_zeros()));
    if sha256(&m) != refr::sha256(&m) {
        return Err(format!("sha256 wrong for {} bytes", m.len()));
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hm {
    key: Msg,
    msg: Msg,
}
fn hm() -> BoxedStrategy<Hm> {
    let key = prop_oneof![
        2 => bytes(0..=64usize).prop_map(Msg::Raw),
        1 => bytes(64..=66usize).prop_map(Msg::Raw),
        1 => bytes(65..=300usize).prop_map(Msg::Raw),
        1 => blob((0u32..2000).boxed()).prop_map(Msg::Bulk),
        1 => blob((60u32..70).boxed()).prop_map(Msg::Bulk),
    ];
    (key, msg(1500)).prop_map(|(key, msg)| Hm { key, msg }).boxed()
}
fn hm_long() -> BoxedStrategy<Hm> {
    let long = || prop_oneof![2 => msg(3000), 2 => msg(200_000), 1 => blob((65_450u32..65_600).boxed()).prop_map(Msg::Bulk)].boxed();
    (long(), long()).prop_map(|(key, msg)| Hm { key, msg }).boxed()
}
fn check_hm(c: &Hm, ctx: &mut Ctx) -> R {
    let (k, m) = (c.key.get(), c.msg.get());
    ctx.label(match k.len() {
        0 => "key empty",
        1..=63 => "key < block",
        64 => "key = block",
        _ => "key > block",
    });
    if !k.is_empty() {
        ctx.nt();
    }
    let got = hmac_sha256(&k, &m);
    let want = refr::hmac(&k, &m);
    if got != want {
        return Err(format!("hmac_sha256 with {}-byte key, {}-byte message: got {}, RFC 2104 says {}", k.len(), m.len(), hex(&got), hex(&want)));
    }
    Ok(())
}

fn main() {
    hv::fw::main(Property {
        id: "C01",
        assumptions: &["the sha2 crate (checked against FIPS vectors by the self-test) is the oracle for SHA-256", "HMAC oracle: RFC 2104 transcription, checked on RFC 4231 vectors"],
        facets: vec![
            facet(Facet { name: "sha256", rule: "random and structured messages up to 40 kB, lengths biased to padding boundaries; non-trivial: longer than 55 bytes (more than one block)", quick: 120_000, thorough: 6_000_000, shrink: 4000, strategy: sha_small, check: check_sha }),
            facet(Facet { name: "sha256-lengths", rule: "130 consecutive lengths from a generated start; all non-trivial", quick: 3_200, thorough: 160_000, shrink: 300, strategy: || (prop_oneof![0u32..256, 0u32..70_000], blob_kind(), any::<u32>()).boxed(), check: check_lengths }),
            facet(Facet { name: "sha256-huge", rule: "messages of 2^13..2^29+ bytes around the powers of two where the bit length grows a byte; all non-trivial", quick: 8, thorough: 60, shrink: 4, strategy: || prop_oneof![3 => (2_097_000u32..2_097_300), 1 => (16_777_150u32..16_777_300), 1 => (536_870_905u32..536_870_930)].prop_flat_map(|l| (Just(l), any::<u32>())).prop_map(|(len, seed)| Blob { len, kind: 4, seed }).boxed(), check: check_huge }),
            facet(Facet { name: "hmac", rule: "keys from empty to 2000 bytes around the 64-byte block, messages up to 1500 bytes; non-trivial: non-empty key", quick: 200_000, thorough: 10_000_000, shrink: 4000, strategy: hm, check: check_hm }),
            facet(Facet { name: "hmac-long", rule: "keys and messages up to 200 kB; non-trivial: non-empty key", quick: 6_000, thorough: 300_000, shrink: 1000, strategy: hm_long, check: check_hm }),
        ],
    })
}
