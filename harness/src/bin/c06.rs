use husk::crypto::p256::int256::{Int256, P256, ONE, ZERO};
use husk::crypto::wrapping::Wrapping as W;
use hv::fw::*;
use hv::gen::*;
use hv::steer::*;
use hv::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How an operand in [0, p) is made.
fn to(x: &BigUint) -> Int256 {
    let d = x.to_u32_digits();
    let mut r = ZERO;
    for (i, v) in d.iter().enumerate() {
        r.v[i] = W(*v);
    }
    r
}
fn from(x: &Int256) -> BigUint {
    BigUint::new(x.v.iter().map(|w| w.0).collect())
}
fn eq(what: &str, got: &Int256, want: BigUint, a: &BigUint, b: Option<&BigUint>) -> R {
    let g = from(got);
    if g != want {
        let b = b.map(|b| format!(", b={b:x}")).unwrap_or_default();
        return Err(format!("{what} for a={a:x}{b}: got {g:x}, exact value {want:x}"));
    }
    Ok(())
}
fn check(c: &(Op, Op), ctx: &mut Ctx) -> R {
    let p = refr::p();
    let (a, b) = (c.0.get(), c.1.get());
    let (x, y) = (to(&a), to(&b));
    let two = BigUint::from(2u8);
    if a > two && b > two {
        ctx.nt();
    }
    ctx.execs(14);
    eq("a+b", &x.add(&y), (&a + &b) % p, &a, Some(&b))?;
    eq("a-b", &x.sub(&y), refr::fsub(&a, &b), &a, Some(&b))?;
    eq("b-a", &y.sub(&x), refr::fsub(&b, &a), &b, Some(&a))?;
    eq("a*b", &x.mult(&y), &a * &b % p, &a, Some(&b))?;
    eq("b*a", &y.mult(&x), &a * &b % p, &b, Some(&a))?;
    eq("2a", &x.double(), (&a + &a) % p, &a, None)?;
    eq("a^2", &x.square(), &a * &a % p, &a, None)?;
    let half = if a.bit(0) { (&a + p) >> 1 } else { &a >> 1 };
    eq("a/2", &x.divide_by_2(), half, &a, None)?;
    if x.compare(&y).0 != u32::from(a != b) || x.compare(&x).0 != 0 {
        return Err(format!("compare({a:x}, {b:x}) = {}, compare(a, a) = {}", x.compare(&y).0, x.compare(&x).0));
    }
    eq("choose(0)", &Int256::choose(W(0), &x, &y), a.clone(), &a, Some(&b))?;
    eq("choose(1)", &Int256::choose(W(1), &x, &y), b.clone(), &a, Some(&b))?;
    let bytes = x.to_bytes();
    if bytes[..] != refr::be32(&a)[..] {
        return Err(format!("to_bytes({a:x}) = {}", hex(&bytes)));
    }
    match Int256::from_bytes(&bytes) {
        Some(z) => eq("from_bytes(to_bytes(a))", &z, a.clone(), &a, None)?,
        None => return Err(format!("from_bytes(to_bytes({a:x})) refused")),
    }
    Ok(())
}
/// The product (or square) is steered to a corner value.
fn check_product(c: &(Op, Op), ctx: &mut Ctx) -> R {
    let p = refr::p();
    let (t, b) = (c.0.get(), c.1.get());
    if b == BigUint::from(0u8) {
        return Ok(());
    }
    let a = &t * refr::finv(&b) % p;
    ctx.nt();
    ctx.execs(2);
    eq("a*b", &to(&a).mult(&to(&b)), t.clone(), &a, Some(&b))?;
    if let Some(r) = refr::sqrt(&t) {
        ctx.label("square of a corner value");
        eq("a^2", &to(&r).square(), t, &r, None)?;
    }
    Ok(())
}
fn check_inverse(c: &Op, ctx: &mut Ctx) -> R {
    let a = c.get();
    if a > BigUint::from(1u8) {
        ctx.nt();
    }
    eq("1/a", &to(&a).inverse(), refr::finv(&a), &a, None)
}
/// Operands whose 512-bit product has chosen words: a short by a special one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Words {
    a: Vec<u32>,
    b: Vec<u32>,
    shift: u8,
}
fn check_words(c: &Words, ctx: &mut Ctx) -> R {
    let p = refr::p();
    let a = (BigUint::new(c.a.clone()) << (32 * (c.shift % 8) as u32)) % p;
    let b = BigUint::new(c.b.clone()) % p;
    ctx.nt();
    eq("a*b", &to(&a).mult(&to(&b)), &a * &b % p, &a, Some(&b))?;
    eq("b*a", &to(&b).mult(&to(&a)), &a * &b % p, &b, Some(&a))
}
/// The upper half of the 512-bit product chosen, and how far below the next value of it the lower half ends.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct High {
    a: Op,
    hi: Vec<u32>,
    lo: Vec<u32>,
}
fn check_high(c: &High, ctx: &mut Ctx) -> R {
    let p = refr::p();
    let a = c.a.get();
    let hi = BigUint::new(c.hi.clone());
    if a <= hi {
        ctx.label("factor too small");
        return Ok(());
    }
    let v = (&hi << 256u32) + BigUint::new(c.lo.clone());
    let b = &v / &a;
    if b >= *p {
        ctx.label("other factor too large");
        return Ok(());
    }
    let w = &a * &b;
    ctx.nt();
    ctx.label(if &w >> 256u32 == hi { "upper half as chosen" } else { "one less" });
    eq("a*b", &to(&a).mult(&to(&b)), w % p, &a, Some(&b))
}
/// Every 256-bit value plus carry below 2p.
fn check_reduce(c: &(Op, u8, i8), ctx: &mut Ctx) -> R {
    let p = refr::p();
    let base = match c.1 % 6 {
        0 => BigUint::from(0u8),
        1 => p.clone(),
        2 => BigUint::from(1u8) << 256u32,
        3 => p * 2u8,
        4 => c.0.get(),
        _ => c.0.get() + p,
    };
    let v = if c.2 < 0 { if base >= BigUint::from(200u8) { base - BigUint::from((-(c.2 as i32)) as u32) } else { base } } else { base + BigUint::from(c.2 as u32) };
    if v >= p * 2u8 {
        ctx.label("outside the domain");
        return Ok(());
    }
    let hi = u32::from(v.bit(256));
    let mut lo = v.clone();
    lo.set_bit(256, false);
    if v >= *p {
        ctx.nt();
    }
    let x = to(&lo);
    eq("reduce_once", &x.reduce_once(W(hi)), &v % p, &v, None)?;
    if hi == 0 {
        eq("reduce_once_zero", &x.reduce_once_zero(), &v % p, &v, None)?;
    }
    Ok(())
}
/// Byte strings of any length and value.
fn check_bytes(c: &Hex, ctx: &mut Ctx) -> R {
    match Int256::from_bytes(c) {
        Some(x) => {
            if c.len() != 32 {
                return Err(format!("from_bytes accepts {} bytes", c.len()));
            }
            ctx.nt();
            if from(&x) != BigUint::from_bytes_be(c) {
                return Err(format!("from_bytes({}) = {:x}", hex(c), from(&x)));
            }
            if x.to_bytes() != c.0 {
                return Err(format!("to_bytes(from_bytes({})) = {}", hex(c), hex(&x.to_bytes())));
            }
            Ok(())
        }
        None if c.len() == 32 => Err(format!("from_bytes refuses {}", hex(c))),
        None => Ok(()),
    }
}
fn main() {
    if from(&P256) != *refr::p() || from(&ONE) != BigUint::from(1u8) {
        // reported through the ordinary path: every facet below would fail as well
        println!("constants differ from the P-256 prime or one");
    }
    hv::fw::main(Property {
        id: "C06",
        assumptions: &["oracle: integers modulo p with num-bigint"],
        facets: vec![
            facet(Facet { name: "pairs", rule: "operand pairs: random, limbs from {0, 1, 2^32-1, 2^31, single bits...}, small, close to p, sums of signed powers of two, near p/2 and p/k; all binary and unary operations; non-trivial: both above 2", quick: 3_600_000, thorough: 180_000_000, shrink: 4000, strategy: || (op(), op()).boxed(), check }),
            facet(Facet { name: "product_target", rule: "b and a target t generated, a = t/b, so that the product is a corner value; square roots where they exist; all counted cases non-trivial", quick: 160_000, thorough: 8_000_000, shrink: 1000, strategy: || (op(), op()).boxed(), check: check_product }),
            facet(Facet { name: "product_words", rule: "one to three special words shifted by whole words times eight special words, so that chosen words of the 512-bit product are 0 or all ones; all non-trivial", quick: 3_600_000, thorough: 180_000_000, shrink: 2000, strategy: || (limbs(3), limbs(8), any::<u8>()).prop_map(|(a, b, shift)| Words { a, b, shift }).boxed(), check: check_words }),
            facet(Facet { name: "product_high", rule: "the upper half of the 512-bit product chosen (special words), the lower as far as one factor allows; non-trivial: such factors exist", quick: 1_000_000, thorough: 120_000_000, shrink: 2000, strategy: || (prop_oneof![2 => op(), 3 => limbs(7).prop_map(|mut l| { l.push(0xffff_fffe); Op::Limbs(l) }), 1 => (0u32..70_000).prop_map(Op::FromTop)], limbs(8), prop_oneof![1 => Just(vec![0xffff_ffff; 8]), 1 => limbs(8)]).prop_map(|(a, hi, lo)| High { a, hi, lo }).boxed(), check: check_high }),
            facet(Facet { name: "inverse", rule: "inverse of generated operands; non-trivial: above 1", quick: 80_000, thorough: 4_000_000, shrink: 500, strategy: op, check: check_inverse }),
            facet(Facet { name: "reduce", rule: "values in [0, 2p) around 0, p, 2^256, 2p and random; non-trivial: at least p", quick: 1_200_000, thorough: 60_000_000, shrink: 1000, strategy: || (op(), any::<u8>(), any::<i8>()).boxed(), check: check_reduce }),
            facet(Facet { name: "bytes", rule: "byte strings of 0..70 bytes, mostly 32; non-trivial: accepted", quick: 400_000, thorough: 20_000_000, shrink: 1000, strategy: || prop_oneof![4 => keyish(32), 1 => bytes(0..70usize)].boxed(), check: check_bytes }),
        ],
    })
}
