use husk::crypto::poly1305::authenticate;
use hv::fw::*;
use hv::gen::*;
use hv::steer::poly as steer;
use hv::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// `steer`: replace the last full block so that the accumulator ends on a chosen value.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    r: Hex,
    s: Hex,
    msg: Msg,
    steer: Option<(u8, i8, u8)>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Msg {
    Raw(Hex),
    Bulk(Blob),
    Limbs(Vec<u32>, u8),
}
impl Msg {
    fn get(&self) -> Vec<u8> {
        match self {
            Msg::Raw(h) => h.0.clone(),
            Msg::Bulk(b) => b.expand(),
            Msg::Limbs(l, cut) => {
                let mut v: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
                v.truncate(v.len().saturating_sub(*cut as usize));
                v
            }
        }
    }
}
fn r_strat() -> BoxedStrategy<Hex> {
    let small = |x: u8| {
        let mut v = vec![0u8; 16];
        v[0] = x;
        Hex(v)
    };
    prop_oneof![
        4 => keyish(16),
        2 => (0u8..=9).prop_map(small),
        1 => Just(Hex(vec![0xff; 16])),
        1 => (0usize..128).prop_map(|b| { let mut v = vec![0u8; 16]; v[b / 8] = 1 << (b % 8); Hex(v) }),
    ].boxed()
}
fn msg() -> BoxedStrategy<Msg> {
    prop_oneof![
        3 => bytes(0..100usize).prop_map(Msg::Raw),
        3 => proptest::collection::vec(limb(), 0..40).prop_flat_map(|l| (Just(l), prop_oneof![3 => Just(0u8), 1 => 0u8..16])).prop_map(|(l, c)| Msg::Limbs(l, c)),
        2 => blob(len_around(16, 400)).prop_map(Msg::Bulk),
    ].boxed()
}
fn strat() -> BoxedStrategy<Case> {
    (r_strat(), keyish(16), msg()).prop_map(|(r, s, msg)| Case { r, s, msg, steer: None }).boxed()
}
/// rarely 2^24 bytes and a few
fn hugely() -> BoxedStrategy<u32> {
    prop_oneof![99 => 400_000u32..500_000, 1 => (-2i32..50).prop_map(|d| ((1 << 24) + d) as u32)].boxed()
}
fn strat_bulk() -> BoxedStrategy<Case> {
    (r_strat(), keyish(16), blob(prop_oneof![20 => len_around(16, 20_000), 1 => 65_500u32..65_600, 1 => 60_000u32..400_000, 1 => hugely()].boxed()).prop_map(Msg::Bulk)).prop_map(|(r, s, msg)| Case { r, s, msg, steer: None }).boxed()
}
fn strat_steer() -> BoxedStrategy<Case> {
    (r_strat(), keyish(16), msg(), (0u8..10, -8i8..=8, any::<u8>())).prop_map(|(r, s, msg, st)| Case { r, s, msg, steer: Some(st) }).boxed()
}


fn check(c: &Case, ctx: &mut Ctx) -> R {
    let mut m = c.msg.get();
    if let Some(st) = c.steer {
        match steer(&c.r, &m, st) {
            Some((v, l)) => {
                m = v;
                ctx.label(l);
                ctx.nt();
            }
            None => ctx.label("steering impossible (multiplier 0 or no block fits)"),
        }
    } else if !m.is_empty() && refr::poly1305_clamp(&c.r) != BigUint::from(0u8) {
        ctx.nt();
    }
    if m.len() % 16 != 0 {
        ctx.label("partial final block");
    }
    if m.is_empty() {
        ctx.label("empty message");
    }
    let r: [u8; 16] = c.r.0.clone().try_into().map_err(|_| "bad case".to_string())?;
    let s: [u8; 16] = c.s.0.clone().try_into().map_err(|_| "bad case".to_string())?;
    let got = authenticate(&m, &r, &s);
    let want = if m.len() > 2000 { refr::poly1305(&m, &r, &s) } else { refr::poly1305_big(&m, &r, &s) };
    if got != want {
        return Err(format!("tag of message {} ({} bytes) under r={} s={}: got {}, definition gives {}", hex(&m[..m.len().min(200)]), m.len(), hex(&r), hex(&s), hex(&got), hex(&want)));
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C04",
        assumptions: &["oracle: the defining polynomial on arbitrary-precision integers (num-bigint), checked on RFC 8439 vectors including the edge cases of A.3"],
        facets: vec![
            facet(Facet { name: "tag", rule: "random, sparse and saturated multipliers, addends and messages up to 400 bytes; non-trivial: non-empty message and non-zero clamped multiplier", quick: 1_500_000, thorough: 75_000_000, shrink: 4000, strategy: strat, check }),
            facet(Facet { name: "steered", rule: "the last block is solved for so that the accumulator lands within 8 of 0, p, 2^128, 2^129, 3*2^128, 2^127 or a limb edge; non-trivial: a solution exists", quick: 360_000, thorough: 18_000_000, shrink: 2000, strategy: strat_steer, check }),
            facet(Facet { name: "bulk", rule: "messages up to 20 kB", quick: 36_000, thorough: 1_800_000, shrink: 1000, strategy: strat_bulk, check }),
        ],
    })
}
