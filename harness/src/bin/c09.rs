use husk::cipher::ecdhe::EllipticDiffieHellman;
use husk::cipher::KeyExchange;
use hv::fw::*;
use hv::gen::*;
use hv::server::{key, Key};
use hv::wgen::*;
use hv::wire::{self, *};
use hv::points::*;
use hv::refr;
use num_bigint::BigUint;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::rngs::OsRng;
use serde::{Deserialize, Serialize};

type Out = Result<(Vec<u8>, Vec<u8>), String>;
fn run(data: &[u8], prefix: &[u8], seed: u64) -> Result<Out, String> {
    getrandom::set_entropy(prefix, seed);
    next(data)
}
fn next(data: &[u8]) -> Result<Out, String> {
    guarded(|| EllipticDiffieHellman.compute_keys(data, &mut OsRng).map_err(|e| format!("{:?} {}", e.kind, e.desc)))
}
fn server_point(k: &BigUint) -> Vec<u8> {
    let (x, y) = refr::mul(k, &refr::g()).unwrap();
    refr::encode_point(&x, &y)
}
/// The public key inside what the client would send, or why it is not valid.
fn public(out: &[u8]) -> Result<(BigUint, BigUint), String> {
    if out.len() != 66 || out[0] != 65 {
        return Err(format!("the client's public value is not one length byte and 65 bytes: {}", hex(out)));
    }
    refr::decode_point(&out[1..]).ok_or_else(|| format!("the client's public key is not a point of the curve: {}", hex(out)))
}
fn verify(out: &Out, d: &BigUint) -> Result<(Vec<u8>, Vec<u8>), String> {
    let (p, s) = out.as_ref().map_err(|e| format!("a valid server key exchange was refused: {e}"))?;
    let q = public(p)?;
    let (x, _) = refr::mul(d, &Some(q)).ok_or("the client's public key is the identity")?;
    if s[..] != refr::be32(&x)[..] {
        return Err(format!("premaster secret {} but the server computes {}", hex(s), hex(&refr::be32(&x))));
    }
    Ok((p.clone(), s.clone()))
}

// ------------------------------------------------------------------------------------- agreement

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Agree {
    key: Key,
    sig: Blob,
    seed: u64,
    /// entropy starts with this many words of all ones (a scalar that must be drawn again) ...
    ones: u8,
    /// ... or with these words
    words: Vec<u32>,
    lead: bool,
}
/// The words of m*n + d (n the group order), least significant first.
fn near(d: i64, m: u32) -> Vec<u32> {
    let top = BigUint::from(1u8) << 256u32;
    let v = &top + refr::n() * m + BigUint::from((d + 8) as u64) - 8u8;
    let v = v % top;
    let mut w = v.to_u32_digits();
    w.resize(8, 0);
    w
}
fn agree_strat() -> BoxedStrategy<Agree> {
    (
        key(),
        blob(prop_oneof![4 => 0u32..300, 1 => 0u32..=65535].boxed()),
        any::<u64>(),
        prop_oneof![6 => Just(0u8), 2 => Just(8u8), 1 => Just(16u8), 1 => 0u8..20],
        prop_oneof![6 => Just(vec![]), 2 => vec(limb(), 8), 1 => (-3i64..4, 0u32..3).prop_map(|(d, m)| near(d, m))],
        prop_oneof![12 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(key, sig, seed, ones, words, lead)| Agree { key, sig, seed, ones, words, lead })
        .boxed()
}
fn agree(c: &Agree, ctx: &mut Ctx) -> R {
    ctx.nt();
    let d = c.key.scalar();
    let mut pre = vec![0xff; c.ones as usize * 4];
    pre.extend(c.words.iter().flat_map(|w| w.to_le_bytes()));
    let k = Ske { curve: 23, point: Hex(server_point(&d)), alg: (4, 1), sig: Hex(c.sig.expand()) };
    let out = run(&wire::ske(&k), &pre, c.seed)?;
    let (p, _) = verify(&out, &d)?;
    if c.ones >= 8 {
        ctx.label("scalar drawn again");
    }
    // a second exchange of the same server with the source running on
    let again = next(&wire::ske(&k))?;
    let (p2, _) = verify(&again, &d)?;
    if p == p2 {
        return Err("two exchanges used the same client key".into());
    }
    if c.lead {
        // a server key for which the shared x coordinate starts with a zero byte
        let q = refr::decode_point(&p[1..]);
        let mut pt = q.clone();
        let mut n = BigUint::from(1u8);
        for _ in 0..3000 {
            if let Some((x, _)) = &pt {
                if refr::be32(x)[0] == 0 {
                    break;
                }
            }
            pt = refr::add(&pt, &q);
            n += 1u8;
        }
        let k = Ske { point: Hex(server_point(&n)), ..k };
        let out = run(&wire::ske(&k), &pre, c.seed)?;
        let (_, s) = verify(&out, &n)?;
        if s[0] == 0 {
            ctx.label("leading zero byte");
        }
    }
    Ok(())
}

// --------------------------------------------------------------------- a chosen shared point

/// The server's key is chosen after the client's (the source of entropy is replayed), such that
/// the point both arrive at is a chosen one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Steer {
    seed: u64,
    /// words of the x coordinate, least significant first
    x: Vec<u32>,
    /// instead: p - 1 - top
    top: Option<u32>,
    /// bytes of the x coordinate that are cleared: (first, how many), most significant first
    clear: Vec<(u8, u8)>,
    odd: bool,
    sig: Blob,
}
fn steer_strat() -> BoxedStrategy<Steer> {
    (
        any::<u64>(),
        prop_oneof![2 => vec(any::<u32>(), 8), 2 => vec(limb(), 8)],
        prop_oneof![12 => Just(None), 1 => (0u32..4000).prop_map(Some), 1 => any::<u32>().prop_map(Some)],
        prop_oneof![
            2 => Just(vec![]),
            3 => (0u8..32).prop_map(|n| vec![(0, n)]),
            2 => vec((0u8..32, 1u8..32), 1..3usize),
            2 => (0u8..8).prop_map(|n| vec![(4 * n, 4)]),
        ],
        any::<bool>(),
        blob((0u32..300).boxed()),
    )
        .prop_map(|(seed, x, top, clear, odd, sig)| Steer { seed, x, top, clear, odd, sig })
        .boxed()
}
fn steer(c: &Steer, ctx: &mut Ctx) -> R {
    let server = BigUint::from(5u8);
    let mut k = Ske { curve: 23, point: Hex(server_point(&server)), alg: (4, 1), sig: Hex(c.sig.expand()) };
    let out = run(&wire::ske(&k), &[], c.seed)?;
    let (p, _) = out.map_err(|e| format!("a valid server key exchange was refused: {e}"))?;
    let q = public(&p)?;
    // the client's key: 32 of the bytes that were drawn, in either order
    let log = getrandom::entropy_log();
    let d = log.chunks_exact(32).rev().flat_map(|w| [BigUint::from_bytes_le(w), BigUint::from_bytes_be(w)]).find(|d| {
        refr::mul(d, &refr::g()).as_ref() == Some(&q)
    });
    let Some(d) = d else {
        // a client that makes its key in another way
        ctx.label("key not known");
        return Ok(());
    };
    let mut b = [0u8; 32];
    for (i, w) in c.x.iter().enumerate() {
        b[28 - 4 * i..32 - 4 * i].copy_from_slice(&w.to_be_bytes());
    }
    if let Some(t) = c.top {
        b = refr::be32(&(refr::p() - 1u8 - t));
    }
    for (at, n) in &c.clear {
        let e = (*at as usize + *n as usize).min(32);
        b[*at as usize..e].fill(0);
    }
    let mut x = BigUint::from_bytes_be(&b) % refr::p();
    let y = loop {
        if let Some(y) = refr::sqrt(&refr::rhs(&x)) {
            break y;
        }
        x = (x + 1u8) % refr::p();
    };
    let y = if y.bit(0) == c.odd { y } else { refr::p() - y };
    // (1/d) times the point; the inverse by Fermat, the group order is prime
    let inv = d.modpow(&(refr::n() - 2u8), refr::n());
    let (sx, sy) = refr::mul(&inv, &Some((x.clone(), y))).unwrap();
    k.point = Hex(refr::encode_point(&sx, &sy));
    let (p2, s) = run(&wire::ske(&k), &[], c.seed)?.map_err(|e| format!("a valid server key exchange was refused: {e}"))?;
    if p2 != p {
        ctx.label("key not known");
        return Ok(());
    }
    ctx.nt();
    let x = refr::be32(&x);
    let zeros = x.iter().take_while(|b| **b == 0).count();
    ctx.label(match zeros {
        0 => "no leading zero byte",
        1..=3 => "leading zero bytes",
        _ => "leading zero limbs",
    });
    if x[..] >= refr::be32(refr::n())[..] {
        ctx.label("x at least the group order");
    }
    if s[..] != x[..] {
        return Err(format!("premaster secret {} but the shared point has the x coordinate {}", hex(&s), hex(&x)));
    }
    Ok(())
}

// ------------------------------------------------------------------ server keys of any form

/// The server's public key has special coordinates; what is shared follows from the client's key.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Any {
    seed: u64,
    /// the bytes the client's key is drawn from, if not at random
    key: Option<Hex>,
    spot: Spot,
    sig: Blob,
}
fn any_strat() -> BoxedStrategy<Any> {
    (
        any::<u64>(),
        prop_oneof![3 => Just(None), 1 => keyish(32).prop_map(Some), 1 => (1u8..9, 0u8..32).prop_map(|(v, at)| { let mut b = vec![0; 32]; b[at as usize] = v; Some(Hex(b)) })],
        prop_oneof![3 => points(), 1 => nearly()],
        blob((0u32..300).boxed()),
    )
        .prop_map(|(seed, key, spot, sig)| Any { seed, key, spot, sig })
        .boxed()
}
fn any_point(c: &Any, ctx: &mut Ctx) -> R {
    let (x, y) = c.spot.get();
    ctx.label(c.spot.name());
    let k = Ske { curve: 23, point: Hex(refr::encode_point(&x, &y)), alg: (4, 1), sig: Hex(c.sig.expand()) };
    let none = Hex(vec![]);
    let out = run(&wire::ske(&k), c.key.as_ref().unwrap_or(&none), c.seed)?;
    if !refr::on_curve(&x, &y) {
        ctx.nt();
        return match out {
            Ok(_) => Err(format!("accepted ({x:x}, {y:x}) as a server's key")),
            Err(_) => Ok(()),
        };
    }
    let (p, s) = out.map_err(|e| format!("a valid server key exchange was refused: {e}"))?;
    let q = public(&p)?;
    let log = getrandom::entropy_log();
    let d = log.chunks_exact(32).rev().flat_map(|w| [BigUint::from_bytes_le(w), BigUint::from_bytes_be(w)]).find(|d| {
        refr::mul(d, &refr::g()).as_ref() == Some(&q)
    });
    let Some(d) = d else {
        ctx.label("key not known");
        return Ok(());
    };
    ctx.nt();
    let Some((sx, _)) = refr::mul(&d, &Some((x, y))) else {
        return Ok(());
    };
    if s[..] != refr::be32(&sx)[..] {
        return Err(format!("premaster secret {} but the shared point has the x coordinate {sx:x}", hex(&s)));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- refusals

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum M {
    None,
    CurveType(u8),
    Curve(u16),
    Alg(u8, u8),
    /// the x, y or both coordinates moved by p, y negated, one bit flipped, ...
    Point(Pm),
    Trail(Hex),
    Cut(u32),
    Edits(Vec<Edit>),
    Raw(Hex),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Pm {
    Flip(u16),
    Len(u8),
    Prefix(u8),
    Compress,
    PlusP(bool, u16),
    Bytes(Hex),
    Zero,
    NegY,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Bad {
    key: u16,
    sig: Blob,
    seed: u64,
    m: M,
}
fn bad_strat() -> BoxedStrategy<Bad> {
    let pm = prop_oneof![
        3 => (0u16..520).prop_map(Pm::Flip),
        2 => prop_oneof![0u8..70, any::<u8>()].prop_map(Pm::Len),
        1 => any::<u8>().prop_map(Pm::Prefix),
        1 => Just(Pm::Compress),
        2 => (any::<bool>(), 0u16..3000).prop_map(|(a, b)| Pm::PlusP(a, b)),
        1 => bytes(0..70usize).prop_map(Pm::Bytes),
        1 => Just(Pm::Zero),
        1 => Just(Pm::NegY),
    ];
    let m = prop_oneof![
        1 => Just(M::None),
        2 => any::<u8>().prop_map(M::CurveType),
        1 => (0u8..5).prop_map(M::CurveType),
        3 => curve().prop_map(M::Curve),
        1 => any::<u16>().prop_map(M::Curve),
        1 => (0u8..9, 0u8..6).prop_map(|(a, b)| M::Alg(a, b)),
        8 => pm.prop_map(M::Point),
        3 => bytes(1..6usize).prop_map(M::Trail),
        4 => any::<u32>().prop_map(M::Cut),
        6 => vec(edit(), 1..4usize).prop_map(M::Edits),
        1 => bytes(0..120usize).prop_map(M::Raw),
    ];
    (any::<u16>(), blob((0u32..80).boxed()), any::<u64>(), m).prop_map(|(key, sig, seed, m)| Bad { key, sig, seed, m }).boxed()
}
fn bad(c: &Bad, ctx: &mut Ctx) -> R {
    let d = Key::Small(c.key).scalar();
    let mut k = Ske { curve: 23, point: Hex(server_point(&d)), alg: (4, 1), sig: Hex(c.sig.expand()) };
    let mut w = None;
    match &c.m {
        M::None | M::CurveType(_) | M::Trail(_) | M::Cut(_) | M::Edits(_) => {}
        M::Curve(x) => k.curve = *x,
        M::Alg(a, b) => k.alg = (*a, *b),
        M::Raw(b) => w = Some(b.0.clone()),
        M::Point(p) => {
            let v = &mut k.point.0;
            match p {
                Pm::Flip(b) => v[*b as usize / 8] ^= 1 << (b % 8),
                Pm::Len(n) => v.resize(*n as usize, 0),
                Pm::Prefix(b) => v[0] = *b,
                Pm::Compress => {
                    v[0] = 2 + (v[64] & 1);
                    v.truncate(33);
                }
                Pm::PlusP(is_x, n) => {
                    // a point with that coordinate small enough for the sum to fit in 256 bits
                    let mut a = BigUint::from(*n);
                    let (x, y) = if *is_x {
                        loop {
                            if let Some(y) = refr::sqrt(&refr::rhs(&a)) {
                                break (a + refr::p(), y);
                            }
                            a += 1u8;
                        }
                    } else {
                        let (x, y) = refr::mul(&d, &refr::g()).unwrap();
                        (x, (y + refr::p()) % (BigUint::from(1u8) << 256u32))
                    };
                    *v = [vec![4], refr::be32(&x).to_vec(), refr::be32(&y).to_vec()].concat();
                }
                Pm::Bytes(b) => *v = b.0.clone(),
                Pm::Zero => v[1..].fill(0),
                Pm::NegY => {
                    let y = refr::p() - BigUint::from_bytes_be(&v[33..]);
                    v[33..].copy_from_slice(&refr::be32(&y));
                }
            }
        }
    }
    let mut w = w.unwrap_or_else(|| wire::ske(&k));
    match &c.m {
        M::CurveType(t) => w[0] = *t,
        M::Trail(b) => w.extend_from_slice(b),
        M::Cut(n) => w.truncate(pick(*n, w.len())),
        M::Edits(e) => apply(e, &mut w),
        _ => {}
    }
    let mut p = P::new(&w);
    let parsed = p_ske(&mut p).filter(|_| p.end());
    let good = parsed.as_ref().filter(|s| s.curve == 23 && refr::decode_point(&s.point).is_some());
    let out = run(&w, &[], c.seed)?;
    match good {
        None => {
            ctx.nt();
            ctx.label(match &parsed {
                None => "malformed",
                Some(s) if s.curve != 23 => "another curve",
                _ => "invalid point",
            });
            match out {
                Err(_) => Ok(()),
                Ok(_) => Err(format!(
                    "accepted parameters that are {}",
                    match parsed {
                        None => "malformed or carry extra bytes",
                        Some(s) if s.curve != 23 => "not on the offered curve",
                        _ => "an invalid point",
                    }
                )),
            }
        }
        Some(s) => {
            ctx.label("still valid");
            if s.alg != (4, 1) && out.is_err() {
                return Ok(());
            }
            let (p, x) = out.map_err(|e| format!("valid parameters refused: {e}"))?;
            public(&p)?;
            if x.len() != 32 {
                return Err(format!("premaster secret of {} bytes", x.len()));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------- freshness

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Fresh {
    seed: u64,
    bits: Vec<u32>,
}
fn fresh(c: &Fresh, ctx: &mut Ctx) -> R {
    let k = Ske { curve: 23, point: Hex(server_point(&BigUint::from(5u8))), alg: (4, 1), sig: Hex(vec![]) };
    let w = wire::ske(&k);
    let (p0, _) = run(&w, &[], c.seed)?.map_err(|e| format!("valid parameters refused: {e}"))?;
    let log = getrandom::entropy_log();
    if log.len() < 32 {
        return Err(format!("only {} bytes were drawn for the client's private key", log.len()));
    }
    ctx.nt();
    let flip = |bit: usize| -> Result<bool, String> {
        let mut e = log.clone();
        e[bit / 8] ^= 1 << (bit % 8);
        let (p, _) = run(&w, &e, c.seed)?.map_err(|e| format!("valid parameters refused: {e}"))?;
        Ok(p != p0)
    };
    if log.len() == 32 {
        // every one of them must count
        for b in &c.bits {
            let b = pick(*b, 256);
            ctx.execs(1);
            if !flip(b)? {
                return Err(format!("the client's key does not depend on bit {b} of the 256 drawn"));
            }
        }
    } else {
        let mut n = 0;
        for b in 0..log.len() * 8 {
            ctx.execs(1);
            n += flip(b)? as u32;
        }
        if n < 256 {
            return Err(format!("the client's key depends on {n} bits only"));
        }
    }
    Ok(())
}
fn main() {
    let _ = refr::n();
    hv::fw::main(Property {
        id: "C09",
        assumptions: &[
            "signature algorithms other than RSA/SHA-256 may be accepted or refused: the signature is not verified by husk",
            "the server's parameters are those inside the server key exchange message, header removed",
        ],
        facets: vec![
            facet(Facet {
                name: "agreement",
                rule: "server key pairs, signature sizes, entropy (special words; all ones so that the draw repeats); one in 13 with a server key chosen so that the secret starts with a zero byte; non-trivial: every case",
                quick: 4_500,
                thorough: 500_000,
                shrink: 60,
                strategy: agree_strat,
                check: agree,
            }),
            facet(Facet {
                name: "steered",
                rule: "the server's key chosen, knowing the client's, such that the shared point is a chosen one: x coordinate of special words, with zero bytes at its start or elsewhere, near the prime; non-trivial: every case in which the client's key is 32 of the bytes drawn",
                quick: 3_000,
                thorough: 400_000,
                shrink: 60,
                strategy: steer_strat,
                check: steer,
            }),
            facet(Facet {
                name: "anypoint",
                rule: "server keys with special coordinates (small, large, special words, x or y; special values of both sides of the curve equation), one in four on another curve or nearly on this one; client's keys drawn from random, special or nearly empty bytes; non-trivial: the client's key is 32 of the bytes drawn, or the point is not of the curve",
                quick: 3_500,
                thorough: 600_000,
                shrink: 60,
                strategy: any_strat,
                check: any_point,
            }),
            facet(Facet {
                name: "refusal",
                rule: "a valid server key exchange with curve type, curve, point, signature algorithm or bytes changed; non-trivial: the result is not a valid server key exchange on P-256",
                quick: 45_000,
                thorough: 3_000_000,
                shrink: 300,
                strategy: bad_strat,
                check: bad,
            }),
            facet(Facet {
                name: "fresh",
                rule: "single bits of the drawn entropy flipped, 16 per case; non-trivial: at least 32 bytes were drawn",
                quick: 450,
                thorough: 40_000,
                shrink: 40,
                strategy: || (any::<u64>(), vec(any::<u32>(), 16)).prop_map(|(seed, bits)| Fresh { seed, bits }).boxed(),
                check: fresh,
            }),
        ],
    })
}
