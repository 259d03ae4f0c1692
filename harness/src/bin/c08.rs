use husk::crypto::p256::int256::{Int256, ZERO};
use husk::crypto::p256::NPoint256;
use husk::crypto::wrapping::Wrapping as W;
use hv::fw::*;
use hv::gen::*;
use hv::points::*;
use hv::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Coord {
    /// lifted from x (the next x on the curve), y parity
    Lift(Hex, bool),
    LiftSmall(u16, bool),
    /// lifted from p-1-d downwards
    LiftTop(u16, bool),
    /// multiple of G
    Mul(Hex),
    /// no relation to the curve
    Raw(Hex, Hex),
    Spot(Spot),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Mut {
    None,
    Flip(u16),
    Prefix(u8),
    Truncate(u8),
    Append(Hex),
    /// compressed form of the point
    Compress,
    Hybrid,
    AddPX,
    AddPY,
    AddPBoth,
    NegY,
    SwapXY,
    ZeroX,
    ZeroY,
    SetX(Hex),
    SetY(Hex),
    /// x (or y) set to p + d
    XAtP(u16),
    YAtP(u16),
    LittleEndian,
    Twist,
    DropPrefix,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    c: Coord,
    m: Mut,
}
fn coord() -> BoxedStrategy<Coord> {
    prop_oneof![
        4 => (keyish(32), any::<bool>()).prop_map(|(a, b)| Coord::Lift(a, b)),
        4 => (0u16..3000, any::<bool>()).prop_map(|(a, b)| Coord::LiftSmall(a, b)),
        2 => (0u16..3000, any::<bool>()).prop_map(|(a, b)| Coord::LiftTop(a, b)),
        2 => bytes(32).prop_map(Coord::Mul),
        1 => (keyish(32), keyish(32)).prop_map(|(a, b)| Coord::Raw(a, b)),
    ]
    .boxed()
}
fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        5 => Just(Mut::None),
        5 => (0u16..520).prop_map(Mut::Flip),
        2 => prop_oneof![3 => 0u8..8, 1 => any::<u8>()].prop_map(Mut::Prefix),
        2 => (0u8..65).prop_map(Mut::Truncate),
        1 => bytes(1..5usize).prop_map(Mut::Append),
        1 => Just(Mut::Compress),
        1 => Just(Mut::Hybrid),
        3 => Just(Mut::AddPX),
        2 => Just(Mut::AddPY),
        1 => Just(Mut::AddPBoth),
        2 => Just(Mut::NegY),
        1 => Just(Mut::SwapXY),
        1 => Just(Mut::ZeroX),
        1 => Just(Mut::ZeroY),
        1 => keyish(32).prop_map(Mut::SetX),
        1 => keyish(32).prop_map(Mut::SetY),
        2 => (0u16..20).prop_map(Mut::XAtP),
        2 => (0u16..20).prop_map(Mut::YAtP),
        1 => Just(Mut::LittleEndian),
        1 => Just(Mut::Twist),
        1 => Just(Mut::DropPrefix),
    ]
    .boxed()
}
fn lift(mut x: BigUint, odd: bool) -> (BigUint, BigUint) {
    x %= refr::p();
    loop {
        if let Some(y) = refr::sqrt(&refr::rhs(&x)) {
            let y = if y.bit(0) == odd { y } else { refr::fsub(&BigUint::from(0u8), &y) };
            return (x, y);
        }
        x = (x + 1u8) % refr::p();
    }
}
fn build(c: &Case) -> (Vec<u8>, bool) {
    let max = (BigUint::from(1u8) << 256u32) - 1u8;
    let p = refr::p();
    let on;
    let (x, y) = match &c.c {
        Coord::Lift(h, o) => {
            on = true;
            lift(BigUint::from_bytes_be(h), *o)
        }
        Coord::LiftSmall(v, o) => {
            on = true;
            lift(BigUint::from(*v), *o)
        }
        Coord::LiftTop(v, o) => {
            on = true;
            lift(p - 1u8 - BigUint::from(*v), *o)
        }
        Coord::Mul(h) => {
            on = true;
            refr::mul(&(BigUint::from_bytes_be(h) % refr::n()), &refr::g()).unwrap_or_else(|| refr::g().unwrap())
        }
        Coord::Spot(s) => {
            let (x, y) = s.get();
            on = refr::on_curve(&x, &y);
            (x, y)
        }
        Coord::Raw(a, b) => {
            on = false;
            let mut v = vec![4u8];
            v.extend_from_slice(a);
            v.extend_from_slice(b);
            (BigUint::from_bytes_be(&v[1..33]), BigUint::from_bytes_be(&v[33..65]))
        }
    };
    let mut v = refr::encode_point(&x, &y);
    let put = |v: &mut Vec<u8>, at: usize, n: &BigUint| v[at..at + 32].copy_from_slice(&refr::be32(n));
    let plus = |n: &BigUint| if n + p <= max { n + p } else { n.clone() };
    match &c.m {
        Mut::None => {}
        Mut::Flip(b) => v[*b as usize / 8] ^= 1 << (b % 8),
        Mut::Prefix(b) => v[0] = *b,
        Mut::Truncate(n) => v.truncate(*n as usize),
        Mut::Append(b) => v.extend_from_slice(b),
        Mut::Compress => {
            v.truncate(33);
            v[0] = 2 + u8::from(y.bit(0));
        }
        Mut::Hybrid => v[0] = 6 + u8::from(y.bit(0)),
        Mut::AddPX => put(&mut v, 1, &plus(&x)),
        Mut::AddPY => put(&mut v, 33, &plus(&y)),
        Mut::AddPBoth => {
            put(&mut v, 1, &plus(&x));
            put(&mut v, 33, &plus(&y));
        }
        Mut::NegY => {
            if &y < p && y > BigUint::from(0u8) {
                put(&mut v, 33, &(p - &y))
            }
        }
        Mut::SwapXY => {
            put(&mut v, 1, &y);
            put(&mut v, 33, &x);
        }
        Mut::ZeroX => put(&mut v, 1, &BigUint::from(0u8)),
        Mut::ZeroY => put(&mut v, 33, &BigUint::from(0u8)),
        Mut::SetX(h) => v[1..33].copy_from_slice(h),
        Mut::SetY(h) => v[33..65].copy_from_slice(h),
        Mut::XAtP(d) => put(&mut v, 1, &(p + BigUint::from(*d))),
        Mut::YAtP(d) => put(&mut v, 33, &(p + BigUint::from(*d))),
        Mut::LittleEndian => {
            v[1..33].reverse();
            v[33..65].reverse();
        }
        Mut::Twist => put(&mut v, 33, &((&y + 1u8) % p)),
        Mut::DropPrefix => {
            v.remove(0);
        }
    }
    (v, on)
}
fn big(x: &Int256) -> BigUint {
    BigUint::new(x.v.iter().map(|w| w.0).collect())
}
fn judge(v: &[u8], ctx: &mut Ctx) -> R {
    let want = refr::decode_point(v);
    let got = guarded(|| NPoint256::from_uncompressed_bytes(v)).map_err(|e| format!("decoding {}: {e}", hex(v)))?;
    match (got, want) {
        (None, None) => {
            ctx.label("refused");
            Ok(())
        }
        (None, Some(_)) => Err(format!("a valid public key is refused: {}", hex(v))),
        (Some(_), None) => Err(format!("an invalid public key is accepted: {}", hex(v))),
        (Some(p), Some((x, y))) => {
            ctx.label("accepted");
            if big(&p.x) != x || big(&p.y) != y {
                return Err(format!("decoding {} gives ({:x}, {:x})", hex(v), big(&p.x), big(&p.y)));
            }
            if p.to_uncompressed_bytes() != v {
                return Err(format!("{} re-encodes as {}", hex(v), hex(&p.to_uncompressed_bytes())));
            }
            let q = p.to_point().normalize();
            if big(&q.x) != x || big(&q.y) != y {
                return Err(format!("{}: to_point and normalize give another point", hex(v)));
            }
            Ok(())
        }
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let (v, on) = build(c);
    if on {
        ctx.nt();
    }
    ctx.label(format!("{:?}", c.m).split('(').next().unwrap_or("").to_string());
    judge(&v, ctx)
}
fn check_related(c: &Case, ctx: &mut Ctx) -> R {
    ctx.nt();
    if let Coord::Spot(s) = &c.c {
        ctx.label(s.name());
    }
    judge(&build(c).0, ctx)
}
fn check_raw(c: &Hex, ctx: &mut Ctx) -> R {
    if c.len() == 65 && c[0] == 4 {
        ctx.nt();
    }
    judge(c, ctx)
}
/// All single-bit changes of one valid encoding, all lengths, all prefixes.
fn check_all(c: &Coord, ctx: &mut Ctx) -> R {
    let (v, on) = build(&Case { c: c.clone(), m: Mut::None });
    if !on {
        return Ok(());
    }
    ctx.nt();
    ctx.execs(520 + 70 + 256);
    for b in 0..520 {
        let mut w = v.clone();
        w[b / 8] ^= 1 << (b % 8);
        judge(&w, &mut Ctx::default())?;
    }
    for l in 0..=70usize {
        let mut w = v.clone();
        w.resize(l, 0);
        judge(&w, &mut Ctx::default())?;
    }
    for p in 0..=255u8 {
        let mut w = v.clone();
        w[0] = p;
        judge(&w, &mut Ctx::default())?;
    }
    Ok(())
}
/// Round trip of points given by coordinates.
fn check_encode(c: &(Coord, bool), ctx: &mut Ctx) -> R {
    let (v, on) = build(&Case { c: c.0.clone(), m: Mut::None });
    if !on {
        return Ok(());
    }
    ctx.nt();
    let (x, y) = refr::decode_point(&v).ok_or("reference cannot decode its own point")?;
    let int = |n: &BigUint| {
        let mut r = ZERO;
        for (i, d) in n.to_u32_digits().iter().enumerate() {
            r.v[i] = W(*d);
        }
        r
    };
    let e = NPoint256 { x: int(&x), y: int(&y) }.to_uncompressed_bytes();
    if e != v {
        return Err(format!("({x:x}, {y:x}) encodes as {}", hex(&e)));
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C08",
        assumptions: &["oracle: 65 bytes, prefix 4, coordinates below p satisfying the curve equation, on big integers"],
        facets: vec![
            facet(Facet { name: "points", rule: "encodings of points lifted from random, special, small and large x or multiplied from G, with one mutation: bit flips, prefixes, lengths, compressed and hybrid forms, p added to a coordinate, coordinates at p, negated, swapped, off-curve; non-trivial: starts from a point of the curve", quick: 140_000, thorough: 12_000_000, shrink: 1500, strategy: || (coord(), mutation()).prop_map(|(c, m)| Case { c, m }).boxed(), check }),
            facet(Facet { name: "related", rule: "points lifted from special and small y, from lines, with special values for both sides of the curve equation; coordinates on curves with other coefficients, without some of the terms, and off this curve by a small multiple of a power of two; few mutations; all non-trivial", quick: 10_000, thorough: 1_200_000, shrink: 300, strategy: || (prop_oneof![points(), nearly()].prop_map(Coord::Spot), prop_oneof![12 => Just(Mut::None), 1 => Just(Mut::AddPX), 1 => Just(Mut::AddPY), 1 => mutation()]).prop_map(|(c, m)| Case { c, m }).boxed(), check: check_related }),
            facet(Facet { name: "onebit", rule: "coordinates for which the sides of the curve equation differ by a power of two; all non-trivial", quick: 16_000, thorough: 1_200_000, shrink: 300, strategy: || one_bit().prop_map(|s| Case { c: Coord::Spot(s), m: Mut::None }).boxed(), check: check_related }),
            facet(Facet { name: "raw", rule: "byte strings of special limbs, with length 65 and prefix 4 mostly; non-trivial: those", quick: 360_000, thorough: 18_000_000, shrink: 1500, strategy: || prop_oneof![6 => limbs(16).prop_map(|l| { let mut v = vec![4u8]; v.extend(l.iter().flat_map(|x| x.to_be_bytes())); Hex(v) }), 1 => bytes(0..140usize)].boxed(), check: check_raw }),
            facet(Facet { name: "neighbourhood", rule: "for a generated point: every single-bit change, every length 0..=70, every prefix byte; all non-trivial", quick: 60, thorough: 4_000, shrink: 30, strategy: || coord(), check: check_all }),
            facet(Facet { name: "encode", rule: "encoding of points given by coordinates", quick: 30_000, thorough: 1_500_000, shrink: 500, strategy: || (coord(), any::<bool>()).boxed(), check: check_encode }),
        ],
    })
}
