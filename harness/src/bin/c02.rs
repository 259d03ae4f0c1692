use husk::cipher::prf::Prf;
use hv::fw::*;
use hv::gen::*;
use hv::refr;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    secret: Hex,
    seed: Hex,
    draws: Vec<u16>,
}
fn secret() -> BoxedStrategy<Hex> {
    prop_oneof![3 => bytes(0..=48usize), 2 => keyish(48), 2 => keyish(32), 1 => bytes(49..=64usize), 1 => bytes(65..=200usize)].boxed()
}
fn seed() -> BoxedStrategy<Hex> {
    prop_oneof![
        3 => bytes(0..=100usize),
        1 => bytes(77..=77usize),
        1 => blob((0u32..400).boxed()).prop_map(|b| Hex(b.expand())),
        1 => bytes(60..=64usize).prop_map(|h| { let mut v = b"master secret".to_vec(); v.extend_from_slice(&h); Hex(v) }),
    ].boxed()
}
fn draw() -> BoxedStrategy<u16> {
    let s = prop_oneof![
        4 => 0u16..=33,
        2 => Just(0u16),
        1 => Just(12u16),
        2 => Just(32u16),
        1 => Just(64u16),
        2 => (0u16..=8, -1i32..=1).prop_map(|(k, d)| (k as i32 * 32 + d).max(0) as u16),
        1 => 0u16..=300,
    ];
    hv::lits::spice(s.boxed())
}
fn strat() -> BoxedStrategy<Case> {
    (secret(), seed(), vec(draw(), 1..=14)).prop_map(|(secret, seed, draws)| Case { secret, seed, draws }).boxed()
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let total: usize = c.draws.iter().map(|d| *d as usize).sum();
    let want = refr::p_sha256(&c.secret, &c.seed, total);
    let mut prf = Prf::new(c.secret.0.clone(), c.seed.0.clone());
    let mut off = 0usize;
    let mut mid = false;
    for (i, d) in c.draws.iter().enumerate() {
        let d = *d as usize;
        let left = (32 - off % 32) % 32;
        if left > 0 && d > 0 {
            mid = true;
            ctx.label(if d < left { "draw inside the left-over" } else if d == left { "draw exactly the left-over" } else { "draw past the left-over" });
        }
        if d == 0 {
            ctx.label(if left > 0 { "empty draw with left-over" } else { "empty draw at a block edge" });
        }
        let got = prf.get_bytes(d);
        if got.len() != d {
            return Err(format!("draw {i} of {d} bytes at offset {off} returned {} bytes", got.len()));
        }
        if got[..] != want[off..off + d] {
            return Err(format!("draw {i} of {d} bytes at offset {off}: got {}, P_SHA256 says {}", hex(&got), hex(&want[off..off + d])));
        }
        off += d;
    }
    if c.draws.len() > 1 && mid && total > 32 {
        ctx.nt();
    }
    Ok(())
}
/// All pairs of draw sizes 0..=96 over one stream.
fn check_pairs(c: &(Hex, Hex), ctx: &mut Ctx) -> R {
    let want = refr::p_sha256(&c.0, &c.1, 192 + 40);
    for a in 0..=96usize {
        for b in 0..=96usize {
            ctx.execs(1);
            let mut prf = Prf::new(c.0 .0.clone(), c.1 .0.clone());
            let mut got = prf.get_bytes(a);
            got.extend(prf.get_bytes(b));
            got.extend(prf.get_bytes(40));
            if got[..] != want[..a + b + 40] {
                return Err(format!("draws of {a}, {b} and 40 bytes do not concatenate to the P_SHA256 stream"));
            }
        }
    }
    ctx.nt();
    Ok(())
}
/// Streams of very many blocks.
fn far() -> BoxedStrategy<(Blob, Blob, Vec<u32>)> {
    let l = || prop_oneof![5 => 0u32..200, 1 => 0u32..70_000].boxed();
    let d = || prop_oneof![3 => 8_100u32..8_300, 2 => 0u32..40_000, 2 => 0u32..40, 1 => 65_500u32..65_600, 1 => Just(0u32)];
    let huge = (blob((0u32..200).boxed()), blob((0u32..30).boxed()), vec(prop_oneof![3 => 2_097_000u32..2_200_000, 1 => 16_777_200u32..16_777_300], 1..=1), vec(d(), 0..3)).prop_map(|(s, e, mut a, b)| {
        a.extend(b);
        (s, e, a)
    });
    let long = (blob(l()), blob(l()), vec(d(), 1..5)).prop_map(|(s, e, mut v)| {
        // the work is the number of blocks times the lengths
        if s.len.max(e.len) > 200 {
            v.iter_mut().for_each(|d| *d %= 3000);
        }
        (s, e, v)
    });
    prop_oneof![5 => long, 1 => huge].boxed()
}
fn check_far(c: &(Blob, Blob, Vec<u32>), ctx: &mut Ctx) -> R {
    ctx.nt();
    let (secret, seed) = (c.0.expand(), c.1.expand());
    let total = c.2.iter().map(|d| *d as usize).sum();
    let want = refr::p_sha256(&secret, &seed, total);
    let mut prf = Prf::new(secret, seed);
    let mut off = 0;
    for d in &c.2 {
        let got = prf.get_bytes(*d as usize);
        if got[..] != want[off..off + *d as usize] {
            return Err(format!("a draw of {d} bytes at offset {off} is not P_SHA256"));
        }
        off += *d as usize;
    }
    ctx.label(if total > 65536 * 32 { "past 65536 blocks" } else if total > 256 * 32 { "past 256 blocks" } else { "fewer blocks" });
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C02",
        assumptions: &["oracle: P_SHA256 transcribed from RFC 5246 over the sha2 crate, checked on the published 100-byte TLS 1.2 PRF vector"],
        facets: vec![
            facet(Facet { name: "draws", rule: "random secrets (0..200 bytes), seeds and up to 14 draw sizes around block edges; non-trivial: several draws, one starting inside a block, more than one block in all", quick: 360_000, thorough: 18_000_000, shrink: 4000, strategy: strat, check }),
            facet(Facet { name: "pairs", rule: "for a generated secret and seed, all 9409 pairs of draw sizes 0..=96 followed by 40 bytes; all non-trivial", quick: 48, thorough: 2_000, shrink: 40, strategy: || (secret(), seed()).boxed(), check: check_pairs }),
            facet(Facet { name: "far", rule: "streams past 256 and 65536 blocks (up to 2.2 MB, rarely 2^24) drawn in a few pieces, long secrets and seeds; all non-trivial", quick: 48, thorough: 1_000, shrink: 20, strategy: far, check: check_far }),
            facet(Facet { name: "long", rule: "streams of up to 20000 bytes drawn in large pieces; all non-trivial", quick: 2_400, thorough: 120_000, shrink: 500, strategy: || (secret(), seed(), vec(prop_oneof![0u16..6000, 0u16..40], 1..=6)).prop_map(|(secret, seed, draws)| Case { secret, seed, draws }).boxed(), check }),
        ],
    })
}
