use husk::crypto::chacha20::ChaCha20;
use hv::fw::*;
use hv::gen::*;
use hv::refr;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Next,
    Encrypt(Blob),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    key: Hex,
    nonce: Hex,
    ops: Vec<Op>,
}
fn op(max: u32) -> BoxedStrategy<Op> {
    prop_oneof![2 => Just(Op::Next), 5 => blob(len_around(64, max)).prop_map(Op::Encrypt)].boxed()
}
fn strat() -> BoxedStrategy<Case> {
    (keyish(32), keyish(12), vec(op(400), 1..=6)).prop_map(|(key, nonce, ops)| Case { key, nonce, ops }).boxed()
}
fn strat_long() -> BoxedStrategy<Case> {
    (keyish(32), keyish(12), vec(prop_oneof![40 => op(40_000), 3 => op(400_000), 1 => blob(prop_oneof![12 => 4_190_000u32..4_200_000, 1 => (-2i32..200).prop_map(|d| ((1 << 24) + d) as u32)].boxed()).prop_map(Op::Encrypt)], 1..=3)).prop_map(|(key, nonce, ops)| Case { key, nonce, ops }).boxed()
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let mut ch = ChaCha20::new(&c.key, &c.nonce);
    let mut ctr = 0u32;
    let mut data = 0;
    for (i, o) in c.ops.iter().enumerate() {
        match o {
            Op::Next => {
                let got = ch.next();
                let want = refr::chacha20_block(&c.key, ctr, &c.nonce);
                if got[..] != want[..] {
                    return Err(format!("operation {i}: keystream block {ctr} is {}, RFC 8439 says {}", hex(&got), hex(&want)));
                }
                ctr += 1;
            }
            Op::Encrypt(b) => {
                let pt = b.expand();
                data += pt.len();
                if pt.len() % 64 != 0 {
                    ctx.label("partial final block");
                }
                let got = ch.encrypt(&pt);
                let want = refr::chacha20_xor(&c.key, ctr, &c.nonce, &pt);
                if got != want {
                    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    return Err(format!("operation {i}: encrypting {} bytes from block {ctr} gives {} bytes, first difference at {at}", pt.len(), got.len()));
                }
                ctr += (pt.len() as u32).div_ceil(64);
                if ctr > 256 {
                    ctx.label("counter past one byte");
                }
            }
        }
    }
    // same state twice: the stream XOR is an involution
    if let Some(Op::Encrypt(b)) = c.ops.first() {
        let pt = b.expand();
        let ct = ChaCha20::new(&c.key, &c.nonce).encrypt(&pt);
        if ChaCha20::new(&c.key, &c.nonce).encrypt(&ct) != pt {
            return Err("encrypting twice from the same state does not return the input".into());
        }
    }
    if c.ops.len() > 1 && data > 0 {
        ctx.nt();
    }
    Ok(())
}
/// Long keystreams: the block counter crosses 2^8, 2^16 (quick) and more.
fn check_far(c: &(Hex, Hex, u32), ctx: &mut Ctx) -> R {
    let (key, nonce, blocks) = c;
    let mut ch = ChaCha20::new(key, nonce);
    ctx.nt();
    ctx.execs(*blocks as u64);
    for i in 0..*blocks {
        let got = ch.next();
        let probe = i & 0xff >= 0xfe || i & 0xff < 2 || i & 0xff == i % 251;
        if probe && got[..] != refr::chacha20_block(key, i, nonce)[..] {
            return Err(format!("keystream block {i} is wrong"));
        }
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C03",
        assumptions: &["oracle: block function transcribed from RFC 8439, checked on its vector; more than 2^32 blocks from one state are out of range of the construction"],
        facets: vec![
            facet(Facet { name: "ops", rule: "sequences of block draws and encryptions (lengths around multiples of 64, structured keys and nonces); non-trivial: several operations and some data", quick: 1_200_000, thorough: 60_000_000, shrink: 3000, strategy: strat, check }),
            facet(Facet { name: "long", rule: "as ops with buffers up to 40 kB, some up to 400 kB, a few past 65536 blocks", quick: 18_000, thorough: 900_000, shrink: 1000, strategy: strat_long, check }),
            facet(Facet { name: "far", rule: "keystreams of 65540..70000 blocks (one of 2^24+ in the thorough tier), blocks around every multiple of 256 compared; all non-trivial", quick: 32, thorough: 160, shrink: 10,
                strategy: || {
                    let n = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { prop_oneof![15 => 65_540u32..70_000, 1 => 16_777_218u32..16_777_300].boxed() } else { (65_540u32..70_000).boxed() };
                    (keyish(32), keyish(12), n).boxed()
                }, check: check_far }),
        ],
    })
}
