//! Points with special coordinates and coordinates that nearly are points.
use crate::gen::*;
use crate::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// plus or minus v 2^(8 at), divided by 2^256 if the last is set
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Off(pub u32, pub u8, pub bool, pub bool);
impl Off {
    pub const NONE: Off = Off(0, 0, false, false);
    pub fn get(&self) -> BigUint {
        let mut d = (BigUint::from(self.0) << (8 * (self.1 % 32) as u32)) % refr::p();
        if self.3 {
            d = d * refr::finv(&(BigUint::from(1u8) << 256u32)) % refr::p();
        }
        if self.2 {
            d = refr::fsub(&BigUint::from(0u8), &d);
        }
        d
    }
}
fn off() -> BoxedStrategy<Off> {
    (prop_oneof![2 => Just(1u32), 2 => (0u32..32).prop_map(|n| 1 << n), 2 => any::<u32>(), 1 => 1u32..20], 0u8..32, any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d)| Off(a, b, c, d)).boxed()
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Spot {
    /// lifted from x (the next x on the curve), y parity
    X(Hex, bool),
    /// with y = c x + d; for c = 0 lifted from y
    Line(i8, i16),
    LineTo(i8, Hex),
    /// both sides of y^2 + 3x = x^3 + b are a chosen value
    Sum(Hex, bool),
    /// y^2 = c3 x^3 + c1 x + cb b + d: on another curve, or nearly on this one
    Related(Hex, i8, i8, i8, Off, bool),
}
impl Spot {
    pub fn get(&self) -> (BigUint, BigUint) {
        match self {
            Spot::X(h, o) => refr::related(&BigUint::from_bytes_be(h), 1, -3, 1, &BigUint::from(0u8), *o),
            Spot::Line(c, d) => refr::on_line(&refr::small(*c as i64), &refr::small(*d as i64)),
            Spot::LineTo(c, d) => refr::on_line(&refr::small(*c as i64), &BigUint::from_bytes_be(d)),
            Spot::Sum(h, o) => refr::on_sum(&BigUint::from_bytes_be(h), *o),
            Spot::Related(h, c3, c1, cb, d, o) => refr::related(&BigUint::from_bytes_be(h), *c3 as i64, *c1 as i64, *cb as i64, &d.get(), *o),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Spot::X(..) => "chosen x",
            Spot::Line(0, _) => "chosen y",
            Spot::Line(..) | Spot::LineTo(..) => "on a line",
            Spot::Sum(..) => "chosen sides",
            Spot::Related(..) => "another equation",
        }
    }
}
/// Points of the curve.
pub fn points() -> BoxedStrategy<Spot> {
    prop_oneof![
        6 => (xs(), any::<bool>()).prop_map(|(a, b)| Spot::X(a, b)),
        2 => (-3i8..=3, -4i16..=4).prop_map(|(a, b)| Spot::Line(a, b)),
        2 => (-2000i16..2000).prop_map(|b| Spot::Line(0, b)),
        1 => (any::<i8>(), any::<i16>()).prop_map(|(a, b)| Spot::Line(a, b)),
        4 => (prop_oneof![3 => Just(0i8), 1 => -3i8..=3], keyish(32)).prop_map(|(a, b)| Spot::LineTo(a, b)),
        4 => (keyish(32), any::<bool>()).prop_map(|(a, b)| Spot::Sum(a, b)),
    ]
    .boxed()
}
fn xs() -> BoxedStrategy<Hex> {
    prop_oneof![2 => bytes(32), 1 => keyish(32), 1 => (0u16..3000).prop_map(|v| Hex(refr::be32(&BigUint::from(v)).to_vec()))].boxed()
}
/// Coordinates for which the sides of the equation differ by one bit.
pub fn one_bit() -> BoxedStrategy<Spot> {
    let bit = (0u32..8, 0u8..32, any::<bool>(), prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(n, at, s, r)| Off(1 << n, at, s, r));
    (xs(), any::<bool>(), bit).prop_map(|(x, o, d)| Spot::Related(x, 1, -3, 1, d, o)).boxed()
}
/// Coordinates that are on another curve, or miss this one by little.
pub fn nearly() -> BoxedStrategy<Spot> {
    prop_oneof![
        8 => (xs(), any::<bool>(), off()).prop_map(|(x, o, d)| Spot::Related(x, 1, -3, 1, d, o)),
        6 => (xs(), -1i8..=1, -4i8..=4, -1i8..=1, any::<bool>()).prop_map(|(x, c3, c1, cb, o)| Spot::Related(x, c3, c1, cb, Off::NONE, o)),
        2 => (xs(), -1i8..=1, -4i8..=4, -2i8..=2, any::<bool>(), off()).prop_map(|(x, c3, c1, cb, o, d)| Spot::Related(x, c3, c1, cb, d, o)),
        2 => (xs(), any::<i8>(), any::<i8>(), any::<bool>()).prop_map(|(x, c1, cb, o)| Spot::Related(x, 1, c1, cb, Off::NONE, o)),
    ]
    .boxed()
}
