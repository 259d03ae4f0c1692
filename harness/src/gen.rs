//! Generators shared by the checks.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes that print as hex in replay files.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Hex(pub Vec<u8>);
impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl std::ops::Deref for Hex {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    if b.len() % 2 != 0 {
        return None;
    }
    b.chunks(2)
        .map(|p| Some(((p[0] as char).to_digit(16)? * 16 + (p[1] as char).to_digit(16)?) as u8))
        .collect()
}
impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hex, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(Hex).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

/// `n` random-looking bytes, each shrinking towards 0.
pub fn bytes(n: impl Into<proptest::collection::SizeRange>) -> BoxedStrategy<Hex> {
    crate::lits::season(vec(any::<u8>(), n).boxed()).prop_map(Hex).boxed()
}

/// Bulk data described by (length, kind, seed) so that large inputs stay cheap to generate,
/// shrink and store. `kind`: 0 zeros, 1 all 0xff, 2 counter, 3 repeated seed byte, 5 the seed's
/// bytes at the start of random ones, 6 at the end, 7 over and over, else random.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Blob {
    pub len: u32,
    pub kind: u8,
    pub seed: u32,
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Blob {
    pub fn expand(&self) -> Vec<u8> {
        let n = self.len as usize;
        match self.kind {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => (0..n).map(|i| (i as u32).wrapping_add(self.seed) as u8).collect(),
            3 => vec![self.seed as u8; n],
            5..=7 => {
                let w = self.seed.to_be_bytes();
                if self.kind == 7 {
                    return (0..n).map(|i| w[i % 4]).collect();
                }
                let mut v = Blob { kind: 4, ..*self }.expand();
                let k = n.min(4);
                let at = if self.kind == 5 { 0 } else { n - k };
                v[at..at + k].copy_from_slice(&w[..k]);
                v
            }
            _ => {
                let mut s = self.seed as u64 ^ 0x5eed_0000_0000;
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                }
                v.truncate(n);
                v
            }
        }
    }
}
pub fn blob_kind() -> BoxedStrategy<u8> {
    prop_oneof![1 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 6 => Just(4u8)].boxed()
}
pub fn blob(len: BoxedStrategy<u32>) -> BoxedStrategy<Blob> {
    let plain = (blob_kind(), any::<u32>());
    let fill = match crate::lits::word() {
        Some(w) => prop_oneof![9 => plain, 1 => (5u8..8, w)].boxed(),
        None => plain.boxed(),
    };
    (crate::lits::spice(len), fill).prop_map(|(len, (kind, seed))| Blob { len, kind, seed }).boxed()
}
/// Lengths in 0..=max, biased to small values and to just around multiples of `block`.
pub fn len_around(block: u32, max: u32) -> BoxedStrategy<u32> {
    let k = max / block;
    let s = prop_oneof![
        3 => 0..=max.min(2 * block),
        3 => (0..=k, -2i64..=2).prop_map(move |(m, d)| ((m as i64 * block as i64 + d).max(0) as u32).min(max)),
        1 => 0..=max,
    ];
    crate::lits::spice(s.boxed())
}
/// 16/32-byte strings with structure: each 4-byte limb special or random.
pub fn limb() -> BoxedStrategy<u32> {
    let s = prop_oneof![
        3 => Just(0u32),
        3 => Just(0xffff_ffffu32),
        1 => Just(1u32),
        1 => Just(0xffff_fffeu32),
        1 => Just(0x8000_0000u32),
        1 => Just(0x7fff_ffffu32),
        1 => (0u32..32).prop_map(|s| 1u32 << s),
        6 => any::<u32>(),
    ];
    crate::lits::spice(s.boxed())
}
pub fn limbs(n: usize) -> BoxedStrategy<Vec<u32>> {
    vec(limb(), n).boxed()
}
/// Key-like bytes: random, or made of special limbs, or constant.
pub fn keyish(n: usize) -> BoxedStrategy<Hex> {
    prop_oneof![
        4 => bytes(n),
        2 => limbs((n + 3) / 4).prop_map(move |l| {
            let mut v: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
            v.truncate(n);
            Hex(v)
        }),
        1 => any::<u8>().prop_map(move |b| Hex(vec![b; n])),
    ]
    .boxed()
}
/// Monotone but not panicking index into 0..len.
pub fn pick(sel: u32, len: usize) -> usize {
    if len == 0 {
        0
    } else {
        ((sel as u64 * len as u64) >> 32) as usize
    }
}
