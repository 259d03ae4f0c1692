//! Generated deviations of the server or the network during the handshake, and running them.
use crate::fw::guarded;
use crate::gen::*;
use crate::net::*;
use crate::refr;
use crate::server::*;
use crate::wire;
use husk::tls_result::TlsError;
use num_bigint::BigUint;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scenario {
    pub cfg: Cfg,
    pub devs: Vec<Dev>,
    pub mitm: Option<(u8, u32)>,
    pub strict: bool,
    pub entropy: u64,
    pub rd: Vec<u16>,
}
/// Short handshake messages that could be pushed in somewhere.
fn spare_msg() -> BoxedStrategy<Hex> {
    prop_oneof![
        1 => Just(vec![0u8, 0, 0, 0]),
        1 => Just(vec![14u8, 0, 0, 0]),
        1 => Just(vec![11u8, 0, 0, 3, 0, 0, 0]),
        1 => vec(any::<u8>(), 12).prop_map(|v| wire::frame(20, &v)),
        1 => Just(vec![13u8, 0, 0, 8, 1, 1, 0, 2, 4, 1, 0, 0]),
        1 => vec(any::<u8>(), 0..20usize).prop_map(|v| wire::frame(12, &v)),
        1 => vec(any::<u8>(), 0..20usize).prop_map(|v| wire::frame(16, &v)),
        2 => (any::<u8>(), vec(any::<u8>(), 0..6usize)).prop_map(|(t, v)| wire::frame(t, &v)),
        1 => Just(vec![]),
        1 => vec(any::<u8>(), 1..5usize),
    ]
    .prop_map(Hex)
    .boxed()
}
pub fn ctype() -> BoxedStrategy<u8> {
    prop_oneof![8 => 20u8..=23, 1 => any::<u8>(), 1 => Just(24u8)].boxed()
}
/// (content type, content) of a record that may be pushed in.
pub fn spare_record() -> BoxedStrategy<(u8, Hex)> {
    prop_oneof![
        3 => (prop_oneof![3 => 1u8..=2, 1 => any::<u8>()], prop_oneof![3 => proptest::sample::select(wire::KNOWN_ALERTS), 1 => any::<u8>()]).prop_map(|(l, d)| (21, Hex(vec![l, d]))),
        1 => vec(any::<u8>(), 0..4usize).prop_map(|v| (21, Hex(v))),
        2 => Just((20, Hex(vec![1]))),
        1 => vec(any::<u8>(), 0..3usize).prop_map(|v| (20, Hex(v))),
        3 => spare_msg().prop_map(|m| (22, m)),
        2 => bytes(0..30usize).prop_map(|m| (23, m)),
        1 => (any::<u8>(), bytes(0..6usize)),
    ]
    .boxed()
}
fn edgy_mask() -> BoxedStrategy<Hex> {
    prop_oneof![
        2 => (0usize..12, 0u32..8).prop_map(|(p, b)| { let mut v = vec![0; p + 1]; v[p] = 1 << b; v }),
        // two bytes changed alike, or in ways that cancel under xor or sum
        1 => (0usize..12, 0usize..12, any::<u8>()).prop_map(|(p, q, m)| { let mut v = vec![0; 12]; v[p] ^= m; v[q] ^= m; v }),
        1 => vec(any::<u8>(), 12),
        1 => any::<u8>().prop_map(|b| vec![b; 12]),
    ]
    .prop_map(Hex)
    .boxed()
}
fn point() -> BoxedStrategy<Hex> {
    prop_oneof![
        1 => bytes(0..70usize),
        1 => Just(Hex(vec![0])),
        1 => Just(Hex(vec![4; 65])),
        1 => (any::<u16>(), 0u16..520).prop_map(|(k, b)| {
            let (x, y) = refr::mul(&BigUint::from(k as u32 + 1), &refr::g()).unwrap();
            let mut v = refr::encode_point(&x, &y);
            v[b as usize / 8] ^= 1 << (b % 8);
            Hex(v)
        }),
        1 => any::<u16>().prop_map(|k| {
            let (x, y) = refr::mul(&BigUint::from(k as u32 + 1), &refr::g()).unwrap();
            let odd = y.bit(0);
            let mut v = vec![2 + odd as u8];
            v.extend_from_slice(&refr::be32(&x));
            Hex(v)
        }),
    ]
    .boxed()
}
fn ext_block() -> BoxedStrategy<Hex> {
    prop_oneof![
        2 => crate::wgen::exts_strat().prop_map(|e| Hex(wire::exts(&e))),
        1 => (crate::wgen::exts_strat(), crate::wgen::edits()).prop_map(|(e, d)| { let mut v = wire::exts(&e); crate::wgen::apply(&d, &mut v); Hex(v) }),
        1 => bytes(0..12usize),
    ]
    .boxed()
}
pub fn op() -> BoxedStrategy<Op> {
    let general = prop_oneof![
        6 => any::<u32>().prop_map(Op::FlipBit),
        1 => bytes(0..24usize).prop_map(Op::Set),
        2 => (prop_oneof![0u8..6, any::<u8>()], any::<bool>()).prop_map(|(a, b)| Op::Truncate(a, b)),
        2 => (bytes(1..8usize), any::<bool>()).prop_map(|(a, b)| Op::Extend(a, b)),
        2 => prop_oneof![any::<u8>(), 0u8..21].prop_map(Op::MsgType),
        2 => any::<i8>().prop_map(Op::LenDelta),
        1 => ctype().prop_map(Op::ContentType),
        1 => prop_oneof![(any::<u8>(), any::<u8>()), (Just(3u8), 0u8..5)].prop_map(|(a, b)| Op::Version(a, b)),
        4 => Just(Op::Drop),
        4 => Just(Op::Dup),
        4 => Just(Op::SwapNext),
        6 => spare_record().prop_map(|(t, d)| Op::Insert(t, d)),
        2 => (ctype(), prop_oneof![2 => 16380u16..16400, 1 => 18400u16..18450, 1 => 16385u16..=18432, 1 => any::<u16>()]).prop_map(|(t, n)| Op::InsertLong(t, n)),
        1 => Just(Op::EmptyBefore),
        2 => Just(Op::ToggleEnc),
        3 => any::<u32>().prop_map(Op::Tamper),
        2 => prop_oneof![-3i8..4, any::<i8>()].prop_map(Op::SeqDelta),
        1 => Just(Op::WrongKey),
        2 => any::<u16>().prop_map(Op::CutRecord),
        2 => Just(Op::CutAfter),
        1 => bytes(1..12usize).prop_map(Op::RawBefore),
        1 => prop_oneof![-10i16..10, any::<i16>()].prop_map(Op::HeaderLen),
    ];
    let hello = prop_oneof![
        2 => prop_oneof![(Just(3u8), 0u8..6), (any::<u8>(), any::<u8>())].prop_map(|(a, b)| Op::ShVersion(a, b)),
        2 => prop_oneof![(Just(0xccu8), 0xa0u8..0xb0), (any::<u8>(), any::<u8>()), (Just(0xc0u8), any::<u8>())].prop_map(|(a, b)| Op::ShSuite(a, b)),
        2 => prop_oneof![0u8..4, any::<u8>()].prop_map(Op::ShComp),
        2 => ext_block().prop_map(Op::ShExts),
        1 => bytes(0..40usize).prop_map(Op::ShSid),
        1 => bytes(0..20usize).prop_map(Op::CertsRaw),
    ];
    let kex = prop_oneof![
        1 => prop_oneof![0u8..5, any::<u8>()].prop_map(Op::SkeCurveType),
        2 => prop_oneof![19u16..27, any::<u16>(), Just(0xff01u16), Just(29u16)].prop_map(Op::SkeCurve),
        3 => point().prop_map(Op::SkePoint),
        1 => (0u8..8, 0u8..5).prop_map(|(a, b)| Op::SkeAlg(a, b)),
        1 => bytes(1..6usize).prop_map(Op::SkeTrail),
        1 => (-6i16..6).prop_map(Op::SkeSigLen),
        1 => any::<u16>().prop_map(Op::SkeOtherKey),
    ];
    let fin = prop_oneof![
        4 => edgy_mask().prop_map(Op::FinMask),
        1 => Just(Op::FinReflect),
        2 => prop_oneof![0u8..14, any::<u8>()].prop_map(Op::FinLen),
        2 => any::<u8>().prop_map(Op::FinSkip),
        2 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Op::FinEarly),
    ];
    prop_oneof![8 => general, 3 => hello, 3 => kex, 3 => fin].boxed()
}
pub fn dev() -> BoxedStrategy<Dev> {
    (op(), any::<bool>(), 0u8..8, any::<bool>())
        .prop_map(|(op, second, at, agreed)| {
            // field deviations belong to a flight
            let flight = match op {
                Op::FinMask(_) | Op::FinReflect | Op::FinLen(_) | Op::FinSkip(_) | Op::FinEarly(_) => 1,
                Op::ShVersion(..) | Op::ShSuite(..) | Op::ShComp(_) | Op::ShExts(_) | Op::ShSid(_) | Op::CertsRaw(_) => 0,
                Op::SkeCurveType(_) | Op::SkeCurve(_) | Op::SkePoint(_) | Op::SkeAlg(..) | Op::SkeTrail(_) | Op::SkeSigLen(_) | Op::SkeOtherKey(_) => 0,
                _ => second as u8,
            };
            Dev { flight, at, agreed, op }
        })
        .boxed()
}
pub fn scenario() -> BoxedStrategy<Scenario> {
    let devs = prop_oneof![1 => Just(vec![]), 12 => vec(dev(), 1usize), 4 => vec(dev(), 2usize), 1 => vec(dev(), 3usize)];
    let mitm = proptest::option::weighted(0.1, (0u8..3, any::<u32>()));
    let rd = prop_oneof![4 => Just(vec![]), 1 => vec(1u16..9, 1..4usize)];
    (small_cfg(), devs, mitm, any::<bool>(), any::<u64>(), rd)
        .prop_map(|(cfg, devs, mitm, strict, entropy, rd)| Scenario { cfg, devs, mitm, strict, entropy, rd })
        .boxed()
}
pub struct Ran {
    pub net: Shared<Server>,
    pub result: Result<Client, TlsError>,
    pub judged: Judged,
}
pub fn run(s: &Scenario) -> Result<Ran, String> {
    getrandom::set_entropy(&[], s.entropy);
    let net = Net::new(Server::new(s.cfg.clone()));
    {
        let mut n = net.net();
        n.rd = s.rd.clone();
        n.peer.devs = s.devs.clone();
        n.peer.mitm = s.mitm;
        n.peer.strict = s.strict;
    }
    let result = connect(&net)?;
    let judged = {
        let n = net.net();
        judge(&n.s2c, &n.c2s, &s.cfg.key.scalar())
    };
    Ok(Ran { net, result, judged })
}
/// The keys the client has derived, worked out from what it saw; None if it used a key share the
/// harness does not hold the private key of, or never got that far.
pub fn client_keys(s2c: &[u8], c2s: &[u8], d: &BigUint) -> Option<Keys> {
    fn handshakes(b: &[u8]) -> Vec<Vec<u8>> {
        let (recs, _) = wire::split_records(b);
        let all: Vec<u8> = recs.iter().take_while(|r| r.0 == 22).flat_map(|r| r.2.clone()).collect();
        let mut v = Vec::new();
        let mut at = 0;
        while all.len() - at >= 4 {
            let n = (all[at + 1] as usize) << 16 | (all[at + 2] as usize) << 8 | all[at + 3] as usize;
            if all.len() - at < 4 + n {
                break;
            }
            v.push(all[at..at + 4 + n].to_vec());
            at += 4 + n;
        }
        v
    }
    let c = handshakes(c2s);
    let s = handshakes(s2c);
    let (ch, cke) = (c.first()?, c.get(1)?);
    let (sh, ske) = (s.first()?, s.get(2)?);
    let own = refr::mul(d, &refr::g()).map(|(x, y)| refr::encode_point(&x, &y))?;
    if sh.len() < 38 || ske.get(8..73)? != &own[..] || cke.len() != 70 {
        return None;
    }
    let (x, _) = refr::mul(d, &Some(refr::decode_point(&cke[5..])?))?;
    Some(Keys::derive(&refr::be32(&x), &ch[6..38], &sh[6..38]).1)
}
pub fn drop_quietly(c: Client) -> Result<(), String> {
    guarded(move || drop(c))
}
