use husk::crypto::p256::int256::{Int256, ZERO};
use husk::crypto::p256::{NPoint256, Point256, B, G};
use husk::crypto::wrapping::Wrapping as W;
use hv::fw::*;
use hv::gen::*;
use hv::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Scalar {
    Small(u16),
    Bit(u8),
    /// ones from bit lo, count bits
    Run(u8, u8),
    NearN(i16),
    NearP(u16),
    NearHalfN(i16),
    MulN(u8, i8),
    Raw(Hex),
    Limbs(Vec<u32>),
    Sparse(Vec<u8>),
}
impl Scalar {
    fn get(&self) -> BigUint {
        let p = refr::p();
        let n = refr::n();
        let one = BigUint::from(1u8);
        let off = |b: BigUint, d: i32| -> BigUint { b + BigUint::from((d + 100_000) as u32) - 100_000u32 };
        (match self {
            Scalar::Small(x) => BigUint::from(*x),
            Scalar::Bit(b) => &one << (*b as u32),
            Scalar::Run(lo, c) => (((&one << (*c as u32 + 1)) - 1u8) << (*lo as u32)) & ((&one << 256u32) - 1u8),
            Scalar::NearN(d) => off(n.clone(), *d as i32),
            Scalar::NearP(d) => p - 1u8 - BigUint::from(*d),
            Scalar::NearHalfN(d) => off(n >> 1, *d as i32),
            Scalar::MulN(k, d) => off(n.clone() / (*k as u32 + 1) + 0u8, *d as i32),
            Scalar::Raw(h) => BigUint::from_bytes_be(h),
            Scalar::Limbs(l) => BigUint::new(l.clone()),
            Scalar::Sparse(v) => v.iter().fold(BigUint::from(0u8), |a, b| a | (&one << (*b as u32))),
        }) % p
    }
}
fn scalar() -> BoxedStrategy<Scalar> {
    prop_oneof![
        3 => (0u16..40).prop_map(Scalar::Small),
        1 => hv::lits::spice(any::<u16>().boxed()).prop_map(Scalar::Small),
        3 => any::<u8>().prop_map(Scalar::Bit),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Scalar::Run(a, b)),
        3 => (-6i16..=6).prop_map(Scalar::NearN),
        1 => any::<i16>().prop_map(Scalar::NearN),
        1 => (0u16..100).prop_map(Scalar::NearP),
        1 => (-6i16..=6).prop_map(Scalar::NearHalfN),
        1 => (1u8..20, -3i8..=3).prop_map(|(a, b)| Scalar::MulN(a, b)),
        6 => bytes(32).prop_map(Scalar::Raw),
        4 => limbs(8).prop_map(Scalar::Limbs),
        3 => proptest::collection::vec(any::<u8>(), 1..4).prop_map(Scalar::Sparse),
    ]
    .boxed()
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Base {
    G,
    /// a*G as returned by a multiplication (not normalised), minus sign if set
    Mul(Scalar),
    /// the same, normalised
    Norm(Scalar),
    /// lifted from an x coordinate (the next one on the curve), y parity chosen
    X(Hex, bool),
    XSmall(u16, bool),
    /// on the line y = c x + d for a small c, and a d that is small or special
    Line(i8, i16),
    LineTo(i8, Hex),
}
fn base() -> BoxedStrategy<Base> {
    prop_oneof![
        3 => Just(Base::G),
        2 => scalar().prop_map(Base::Mul),
        2 => scalar().prop_map(Base::Norm),
        2 => (keyish(32), any::<bool>()).prop_map(|(a, b)| Base::X(a, b)),
        1 => (0u16..2000, any::<bool>()).prop_map(|(a, b)| Base::XSmall(a, b)),
        1 => line_base(),
    ]
    .boxed()
}
fn line_base() -> BoxedStrategy<Base> {
    prop_oneof![
        3 => (-2i8..=2, -4i16..=4).prop_map(|(a, b)| Base::Line(a, b)),
        1 => (any::<i8>(), any::<i16>()).prop_map(|(a, b)| Base::Line(a, b)),
        2 => (-2i8..=2, limbs(8)).prop_map(|(a, b)| Base::LineTo(a, Hex(refr::be32(&(BigUint::new(b) % refr::p())).to_vec()))),
    ]
    .boxed()
}
fn int(x: &BigUint) -> Int256 {
    let mut r = ZERO;
    for (i, v) in x.to_u32_digits().iter().enumerate() {
        r.v[i] = W(*v);
    }
    r
}
fn big(x: &Int256) -> BigUint {
    BigUint::new(x.v.iter().map(|w| w.0).collect())
}
fn lift(mut x: BigUint, odd: bool) -> (BigUint, BigUint) {
    x %= refr::p();
    loop {
        if let Some(y) = refr::sqrt(&refr::rhs(&x)) {
            let y = if y.bit(0) == odd { y } else { refr::fsub(&BigUint::from(0u8), &y) };
            return (x, y);
        }
        x = (x + 1u8) % refr::p();
    }
}
fn make(b: &Base) -> (Point256, refr::Pt, &'static str) {
    match b {
        Base::G => (G, refr::g(), "G"),
        Base::Mul(s) => (G.mult_scalar(&int(&s.get())), refr::mul(&s.get(), &refr::g()), "unnormalised multiple"),
        Base::Norm(s) => {
            let k = s.get();
            let w = refr::mul(&k, &refr::g());
            match w {
                // the identity has no affine coordinates: keep the projective form
                None => (G.mult_scalar(&int(&k)), None, "identity"),
                Some(_) => (G.mult_scalar(&int(&k)).normalize().to_point(), w, "normalised multiple"),
            }
        }
        Base::X(h, o) => {
            let (x, y) = lift(BigUint::from_bytes_be(h), *o);
            (NPoint256 { x: int(&x), y: int(&y) }.to_point(), Some((x, y)), "lifted x")
        }
        Base::Line(..) | Base::LineTo(..) => {
            let neg = |v: i64| if v < 0 { refr::p() - (-v) as u64 } else { BigUint::from(v as u64) };
            let (x, y) = match b {
                Base::Line(c, d) => refr::on_line(&neg(*c as i64), &neg(*d as i64)),
                Base::LineTo(c, d) => refr::on_line(&neg(*c as i64), &BigUint::from_bytes_be(d)),
                _ => unreachable!(),
            };
            (NPoint256 { x: int(&x), y: int(&y) }.to_point(), Some((x, y)), "related coordinates")
        }
        Base::XSmall(v, o) => {
            let (x, y) = lift(BigUint::from(*v), *o);
            (NPoint256 { x: int(&x), y: int(&y) }.to_point(), Some((x, y)), "lifted small x")
        }
    }
}
fn show(p: &refr::Pt) -> String {
    match p {
        None => "identity".into(),
        Some((x, y)) => format!("({x:x}, {y:x})"),
    }
}
fn same(got: &NPoint256, want: &refr::Pt, what: String) -> R {
    let (x, y) = (big(&got.x), big(&got.y));
    let zero = BigUint::from(0u8);
    let ok = match want {
        // the identity normalises to (0, 0), which is not on the curve
        None => x == zero && y == zero,
        Some((a, b)) => x == *a && y == *b,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{what}: got ({x:x}, {y:x}), true multiple is {}", show(want)))
    }
}
fn check(c: &(Base, Scalar), ctx: &mut Ctx) -> R {
    let (p, w, l) = make(&c.0);
    ctx.label(l);
    let k = c.1.get();
    if w.is_some() && k.bits() > 56 {
        ctx.nt();
    }
    let want = refr::mul(&k, &w);
    if want.is_none() {
        ctx.label("result is the identity");
    }
    same(&p.mult_scalar(&int(&k)).normalize(), &want, format!("{k:x} times {}", show(&w)))
}
/// a(bG) = b(aG) = (ab mod n)G, without going through the reference group law.
fn check_commute(c: &(Scalar, Scalar), ctx: &mut Ctx) -> R {
    let (a, b) = (c.0.get(), c.1.get());
    let n = refr::n();
    let zero = BigUint::from(0u8);
    if &a % n != zero && &b % n != zero {
        ctx.nt();
    }
    let x = G.mult_scalar(&int(&b)).mult_scalar(&int(&a)).normalize();
    let y = G.mult_scalar(&int(&a)).mult_scalar(&int(&b)).normalize();
    let z = G.mult_scalar(&int(&(&a * &b % n))).normalize();
    for (l, q) in [("b(aG)", &y), ("(ab mod n)G", &z)] {
        if big(&x.x) != big(&q.x) || big(&x.y) != big(&q.y) {
            return Err(format!("a(bG) = ({:x}, {:x}) but {l} = ({:x}, {:x}) for a={a:x} b={b:x}", big(&x.x), big(&x.y), big(&q.x), big(&q.y)));
        }
    }
    Ok(())
}
/// For one base: every k in 0..=40 and n-20..=n+20 and all single bits.
fn check_sweep(c: &Base, ctx: &mut Ctx) -> R {
    let (p, w, _) = make(c);
    if w.is_some() {
        ctx.nt();
    }
    let mut ks: Vec<BigUint> = (0..=40u32).map(BigUint::from).collect();
    ks.extend((0..=40u32).map(|d| refr::n() - 20u32 + d));
    ks.extend((0..256u32).map(|b| BigUint::from(1u8) << b));
    for k in ks {
        ctx.execs(1);
        let want = refr::mul(&k, &w);
        same(&p.mult_scalar(&int(&k)).normalize(), &want, format!("{k:x} times {}", show(&w)))?;
    }
    Ok(())
}
fn check_const(_: &u8, ctx: &mut Ctx) -> R {
    ctx.nt();
    same(&G.normalize(), &refr::g(), "the base point".into())?;
    if big(&B) != *refr::b() {
        return Err("curve coefficient b is wrong".into());
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C07",
        assumptions: &["oracle: P-256 group law on big integers (affine definition; the double-and-add used for speed is checked against it and against published multiples by the self-test)", "the identity is expected to normalise to (0, 0)"],
        facets: vec![
            facet(Facet { name: "constants", rule: "base point and coefficient b", quick: 1, thorough: 1, shrink: 0, strategy: || Just(0u8).boxed(), check: check_const }),
            facet(Facet { name: "multiply", rule: "bases: G, results of multiplications in projective and affine form, points lifted from special x; scalars: 0, 1, single bits, runs of ones, around n, n/2, n/k and p, random, special limbs; non-trivial: base not the identity and scalar above 56 bits", quick: 9_000, thorough: 900_000, shrink: 400, strategy: || (base(), scalar()).boxed(), check }),
            facet(Facet { name: "commute", rule: "pairs of scalars: a(bG), b(aG), (ab mod n)G; non-trivial: neither is a multiple of n", quick: 5_000, thorough: 500_000, shrink: 300, strategy: || (scalar(), scalar()).boxed(), check: check_commute }),
            facet(Facet { name: "related", rule: "points whose coordinates are related (on y = cx + d: equal, opposite, one or both small or of special limbs), found as roots of the cubic; scalars as above; non-trivial as above", quick: 1_500, thorough: 150_000, shrink: 200, strategy: || (line_base(), scalar()).boxed(), check }),
            facet(Facet { name: "sweep", rule: "for a generated base: all scalars 0..=40, n-20..=n+20 and all 256 single bits; non-trivial: base not the identity", quick: 24, thorough: 3_000, shrink: 20, strategy: base, check: check_sweep }),
        ],
    })
}
