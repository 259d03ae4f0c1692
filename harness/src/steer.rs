//! Inputs that are solved for, so that intermediate results land on chosen values.
use crate::fw::*;
use crate::gen::*;
use crate::refr;
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A reduced field operand.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Raw(Hex),
    Limbs(Vec<u32>),
    Small(u32),
    FromTop(u32),
    /// sum of at most three signed powers of two
    Sparse(Vec<(u8, bool)>),
    NearHalf(i16),
    /// 2^k * p >> shift style values: p divided by a small number
    PDiv(u16, i8),
    /// the modular inverse / quotient making the product land on a chosen small or large value
    Quot(Box<Op>, Box<Op>),
}
impl Op {
    pub fn get(&self) -> BigUint {
        let p = refr::p();
        let one = BigUint::from(1u8);
        match self {
            Op::Raw(h) => BigUint::from_bytes_be(h) % p,
            Op::Limbs(l) => BigUint::new(l.clone()) % p,
            Op::Small(x) => BigUint::from(*x),
            Op::FromTop(x) => p - 1u8 - BigUint::from(*x),
            Op::Sparse(v) => {
                let mut a = BigUint::from(0u8);
                for (k, neg) in v {
                    let t = (&one << (*k as u32)) % p;
                    a = if *neg { refr::fsub(&a, &t) } else { (a + t) % p };
                }
                a
            }
            Op::NearHalf(d) => ((p >> 1) + BigUint::from((*d as i32 + 40_000) as u32) - 40_000u32) % p,
            Op::PDiv(k, d) => (p / (*k as u32 + 1) + 200u32 + BigUint::from((*d as i32 + 128) as u32) - 328u32 + p) % p,
            Op::Quot(t, b) => t.get() * refr::finv(&b.get()) % p,
        }
    }
}
pub fn op() -> BoxedStrategy<Op> {
    let leaf = prop_oneof![
        4 => bytes(32).prop_map(Op::Raw),
        6 => limbs(8).prop_map(Op::Limbs),
        2 => (0u32..70_000).prop_map(Op::Small),
        1 => crate::lits::spice(any::<u32>().boxed()).prop_map(Op::Small),
        2 => (0u32..70_000).prop_map(Op::FromTop),
        1 => crate::lits::spice(any::<u32>().boxed()).prop_map(Op::FromTop),
        3 => proptest::collection::vec((any::<u8>(), any::<bool>()), 0..4).prop_map(Op::Sparse),
        1 => any::<i16>().prop_map(Op::NearHalf),
        1 => (0u16..300, any::<i8>()).prop_map(|(a, b)| Op::PDiv(a, b)),
    ]
    .boxed();
    leaf
}

/// Try to make the accumulator after the last block equal a target near a corner value.
pub fn poly(r: &[u8], m: &[u8], (which, delta, salt): (u8, i8, u8)) -> Option<(Vec<u8>, String)> {
    let p = refr::p130();
    let rr = refr::poly1305_clamp(r) % &p;
    if rr == BigUint::from(0u8) {
        return None;
    }
    let one = BigUint::from(1u8);
    let base = match which {
        0 => BigUint::from(0u8),
        1 => p.clone(),
        2 => &one << 128u32,
        3 => &one << 129u32,
        4 => (&one << 128u32) * 3u8,
        5 => &one << 26u32,
        6 => &one << 52u32,
        7 => &one << 78u32,
        8 => &one << 104u32,
        _ => &one << 127u32,
    };
    let t = (base + &p * 2u8 + BigUint::from((delta as i64 + 100) as u64) - BigUint::from(100u8)) % &p;
    // accumulator of the leading blocks, with a salt byte to vary it until a block fits
    let mut lead = m.to_vec();
    let full = lead.len() / 16 * 16;
    lead.truncate(full);
    let rinv = rr.modpow(&(&p - 2u8), &p);
    let lo = &one << 128u32;
    let hi = &one << 129u32;
    for k in 0..16u8 {
        let mut l = lead.clone();
        l.extend_from_slice(&[salt.wrapping_add(k); 16]);
        let mut acc = BigUint::from(0u8);
        for b in l.chunks(16) {
            let mut b = b.to_vec();
            b.push(1);
            acc = (acc + BigUint::from_bytes_le(&b)) * &rr % &p;
        }
        let need = (&t * &rinv % &p + &p - acc) % &p;
        if need >= lo && need < hi {
            let mut b = (need - &lo).to_bytes_le();
            b.resize(16, 0);
            l.extend_from_slice(&b);
            return Some((l, format!("accumulator on corner {which}")));
        }
    }
    None
}
