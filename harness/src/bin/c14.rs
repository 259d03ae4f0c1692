use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::{Message, TlsReader};
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::wgen::*;
use hv::wire::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A record holding one complete message.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum G {
    Ccs,
    Alert(u8, u8),
    Hs(Msg),
    App(Blob),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum D {
    /// the next record unchanged
    None,
    Flip(u32),
    Replay(u8),
    Skip(u8),
    Truncate(u32, bool),
    Extend(Hex, bool),
    Short(u8, u8),
    Long(u16),
    BigPlain(u16),
    UnknownType(u8),
    OtherType(u8),
    OtherVersion(u8, u8),
    WrongKey(u32),
    WrongIv(u32),
    Seq(i8),
    SeqBit(u8),
    Clear,
    AdLen(i16),
    Empty,
    ZeroTag,
    Cut(u32),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    recs: Vec<G>,
    d: D,
    /// index of the disturbed record
    at: u8,
    start: u64,
    key: Hex,
    iv: Hex,
    rd: Vec<u16>,
}
fn start() -> BoxedStrategy<u64> {
    let s = prop_oneof![
        3 => Just(0u64),
        1 => (0u32..62, 0u64..6).prop_map(|(k, d)| (1u64 << k).saturating_sub(d)),
        1 => (0u64..6).prop_map(|d| (1u64 << 63) - d),
        1 => (0u64..8).prop_map(|d| (1u64 << 32) - d),
        1 => any::<u64>().prop_map(|x| x.min(u64::MAX - 400)),
        1 => (0u64..20).prop_map(|d| u64::MAX - 400 - d),
    ];
    hv::lits::spice(s.boxed())
}
fn g() -> BoxedStrategy<G> {
    let len = prop_oneof![1 => Just(0u32), 8 => 1u32..60, 2 => 60u32..2000, 1 => Just(16384u32), 1 => 16_000u32..=16384];
    prop_oneof![
        1 => Just(G::Ccs),
        2 => (1u8..=2, proptest::sample::select(wire::KNOWN_ALERTS)).prop_map(|(l, d)| G::Alert(l, d)),
        2 => msg_strat(false).prop_filter("one record", |m| wire::msg(m).len() <= 16384).prop_map(G::Hs),
        6 => blob(len.boxed()).prop_map(G::App),
    ]
    .boxed()
}
fn unknown() -> BoxedStrategy<u8> {
    prop_oneof![2 => any::<u8>(), 1 => 16u8..20, 1 => 24u8..28, 1 => Just(0u8)].prop_filter("known", |t| !(20..=23).contains(t)).boxed()
}
fn d() -> BoxedStrategy<D> {
    prop_oneof![
        2 => Just(D::None),
        6 => any::<u32>().prop_map(D::Flip),
        // the header
        3 => (0u32..40).prop_map(|b| D::Flip(0x8000_0000 | b)),
        2 => any::<u8>().prop_map(D::Replay),
        2 => (1u8..4).prop_map(D::Skip),
        3 => (any::<u32>(), any::<bool>()).prop_map(|(a, b)| D::Truncate(a, b)),
        2 => (bytes(1..40usize), any::<bool>()).prop_map(|(a, b)| D::Extend(a, b)),
        2 => (0u8..20, any::<u8>()).prop_map(|(a, b)| D::Short(a, b)),
        1 => (18433u16..=65535).prop_map(D::Long),
        1 => prop_oneof![Just(18433u16), Just(65535u16), Just(32768u16)].prop_map(D::Long),
        1 => prop_oneof![Just(16385u16), Just(18416u16), 16385u16..=18416].prop_map(D::BigPlain),
        2 => unknown().prop_map(D::UnknownType),
        1 => (20u8..=23).prop_map(D::OtherType),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| D::OtherVersion(a, b)),
        1 => (3u8..4, 0u8..5).prop_map(|(a, b)| D::OtherVersion(a, b)),
        1 => any::<u32>().prop_map(D::WrongKey),
        1 => any::<u32>().prop_map(D::WrongIv),
        2 => any::<i8>().prop_filter("zero", |x| *x != 0).prop_map(D::Seq),
        2 => (0u8..64).prop_map(D::SeqBit),
        1 => Just(D::Clear),
        2 => prop_oneof![-20i16..20, any::<i16>()].prop_filter("zero", |x| *x != 0).prop_map(D::AdLen),
        1 => Just(D::Empty),
        1 => Just(D::ZeroTag),
        1 => any::<u32>().prop_map(D::Cut),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let rd = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..5usize)];
    (vec(g(), 1..7usize), d(), any::<u8>(), start(), keyish(32), keyish(12), rd)
        .prop_map(|(recs, d, at, start, key, iv, rd)| Case { recs, d, at, start, key, iv, rd })
        .boxed()
}
fn plain(g: &G) -> (u8, Vec<u8>) {
    match g {
        G::Ccs => (20, vec![1]),
        G::Alert(l, d) => (21, vec![*l, *d]),
        G::Hs(m) => (22, wire::msg(m)),
        G::App(b) => (23, b.expand()),
    }
}
fn matches(m: &Message, g: &G) -> bool {
    match (m, g) {
        (Message::ChangeCipherSpecMessage, G::Ccs) => true,
        (Message::AlertMessage(a), G::Alert(l, d)) => (hv::wgen::of_level(a.level), hv::wgen::of_desc(a.description)) == (*l, *d),
        (Message::HandshakeMessage(h), G::Hs(m)) => of_msg(h) == *m,
        (Message::ApplicationDataMessage(v), G::App(b)) => *v == b.expand(),
        _ => false,
    }
}
fn show(m: &Message) -> String {
    match m {
        Message::HandshakeMessage(_) => "a handshake message".into(),
        Message::ChangeCipherSpecMessage => "a change cipher spec".into(),
        Message::AlertMessage(a) => format!("alert {:?}", a.description),
        Message::ApplicationDataMessage(v) => format!("{} bytes of application data", v.len()),
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    #[cfg(husk_verif)]
    let start = c.start;
    #[cfg(not(husk_verif))]
    let start = 0u64;
    let at = c.at as usize % c.recs.len();
    let seal = |i: usize| {
        let (t, p) = plain(&c.recs[i]);
        refr::tls_record(&c.key, &c.iv, start + i as u64, t, (3, 3), &p)
    };
    let mut stream = Vec::new();
    for i in 0..at {
        stream.extend(seal(i));
    }
    let genuine = seal(at);
    let (t, p) = plain(&c.recs[at]);
    let seq = start + at as u64;
    let relen = |v: &mut Vec<u8>| {
        let l = v.len() - 5;
        v[3..5].copy_from_slice(&u16v(l));
    };
    let mut r = genuine.clone();
    let mut cut = false;
    let mut follow = at + 1;
    match &c.d {
        D::None => {}
        D::Flip(b) => {
            let k = if *b >= 0x8000_0000 && *b < 0x8000_0028 { (*b & 0xff) as usize } else { pick(*b, r.len() * 8) };
            r[k / 8] ^= 1 << (k % 8);
        }
        D::Replay(i) if at > 0 => r = seal(*i as usize % at),
        D::Skip(n) if at + (*n as usize) < c.recs.len() => {
            r = seal(at + *n as usize);
            follow = at + *n as usize + 1;
        }
        D::Truncate(n, fix) => {
            let k = 5 + pick(*n, r.len() - 5);
            r.truncate(k);
            if *fix {
                relen(&mut r);
            }
        }
        D::Extend(h, fix) => {
            r.extend_from_slice(h);
            if *fix {
                relen(&mut r);
            }
        }
        D::Short(n, b) => r = record(t, (3, 3), &vec![*b; *n as usize]),
        D::Long(n) => r = record(t, (3, 3), &vec![0; *n as usize]),
        D::BigPlain(n) => r = refr::tls_record(&c.key, &c.iv, seq, t, (3, 3), &vec![if t == 20 { 1 } else { 2 }; *n as usize]),
        D::UnknownType(x) => r = refr::tls_record(&c.key, &c.iv, seq, *x, (3, 3), &p),
        D::OtherType(x) => r[0] = *x,
        D::OtherVersion(a, b) => {
            r[1] = *a;
            r[2] = *b;
        }
        D::WrongKey(b) => {
            let mut k = c.key.0.clone();
            let b = pick(*b, 256);
            k[b / 8] ^= 1 << (b % 8);
            r = refr::tls_record(&k, &c.iv, seq, t, (3, 3), &p);
        }
        D::WrongIv(b) => {
            let mut k = c.iv.0.clone();
            let b = pick(*b, 96);
            k[b / 8] ^= 1 << (b % 8);
            r = refr::tls_record(&c.key, &k, seq, t, (3, 3), &p);
        }
        D::Seq(n) => r = refr::tls_record(&c.key, &c.iv, seq.wrapping_add(*n as i64 as u64), t, (3, 3), &p),
        D::SeqBit(b) => r = refr::tls_record(&c.key, &c.iv, seq ^ (1 << b), t, (3, 3), &p),
        D::Clear => r = record(t, (3, 3), &p),
        D::AdLen(n) => {
            let ad = refr::tls_ad(seq, t, (3, 3), (p.len() as i64 + *n as i64).rem_euclid(65536) as usize);
            let b = refr::aead_seal(&c.key, &refr::tls_nonce(&c.iv, seq), &ad, &p);
            r = record(t, (3, 3), &b);
        }
        D::Empty => r = record(t, (3, 3), &[]),
        D::ZeroTag => {
            let l = r.len();
            r[l - 16..].fill(0);
        }
        D::Cut(n) => {
            let k = pick(*n, r.len());
            r.truncate(k);
            cut = true;
        }
        _ => {}
    }
    ctx.label(format!("{:?}", c.d).split(|x: char| !x.is_alphanumeric()).next().unwrap().to_string());
    let from = stream.len();
    stream.extend_from_slice(&r);
    if !cut {
        for i in follow..c.recs.len() {
            stream.extend(seal(i));
        }
        stream.extend_from_slice(&[0u8; 700]);
    }
    // what follows may happen to make the record whole again
    let intact = stream[from..].starts_with(&genuine);
    if !intact {
        ctx.nt();
    }
    let net = Net::new(NoPeer);
    {
        let mut n = net.net();
        n.fuel = u64::MAX;
        n.rd = c.rd.clone();
        n.s2c = stream;
    }
    let mut rd = TlsReader::new(net.reader());
    rd.set_iv(c.iv.0.clone());
    rd.set_decryptor(ChaCha20Poly1305.new_decryptor(c.key.0.clone()));
    #[cfg(husk_verif)]
    rd.verif_set_read_count(start);
    for (i, g) in c.recs.iter().enumerate().take(at + 1) {
        if i == at && !intact {
            break;
        }
        match guarded(|| rd.read_message())? {
            Ok(m) if matches(&m, g) => {}
            Ok(m) => return Err(format!("record {i} came out as {}", show(&m))),
            Err(e) => return Err(format!("genuine record {i} was refused: {e:?}")),
        }
    }
    if !intact {
        if let Ok(m) = guarded(|| rd.read_message())? {
            return Err(format!("{:?}: not the genuine record {at}, but accepted as {}", c.d, show(&m)));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Plain {
    recs: Vec<(u8, Blob)>,
    rd: Vec<u16>,
}
fn plain_strat() -> BoxedStrategy<Plain> {
    let len = prop_oneof![1 => Just(0u32), 4 => 1u32..60, 1 => 16380u32..=16390, 1 => 18400u32..18500, 1 => 16385u32..=18432, 1 => 0u32..=65535];
    let ty = prop_oneof![6 => Just(23u8), 1 => unknown()];
    let rd = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..900, 1..5usize)];
    (vec((ty, blob(len.boxed())), 1..6usize), rd).prop_map(|(recs, rd)| Plain { recs, rd }).boxed()
}
fn clear(c: &Plain, ctx: &mut Ctx) -> R {
    let net = Net::new(NoPeer);
    {
        let mut n = net.net();
        n.fuel = u64::MAX;
        n.rd = c.rd.clone();
        for (t, b) in &c.recs {
            n.s2c.extend(record(*t, (3, 3), &b.expand()));
        }
        n.s2c.extend_from_slice(&[0; 20]);
    }
    let mut rd = TlsReader::new(net.reader());
    for (i, (t, b)) in c.recs.iter().enumerate() {
        let fine = *t == 23 && b.len <= 16384;
        match (guarded(|| rd.read_message())?, fine) {
            (Ok(Message::ApplicationDataMessage(v)), true) if v == b.expand() => {}
            (Err(_), false) => {
                ctx.nt();
                return Ok(());
            }
            (Ok(m), _) => return Err(format!("record {i} (type {t}, {} bytes) came out as {}", b.len, show(&m))),
            (Err(e), true) => return Err(format!("well-formed clear record {i} of {} bytes was refused: {e:?}", b.len)),
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    n: u32,
    key: Hex,
    iv: Hex,
    /// a record replayed at the end
    old: u32,
}
fn long_strat() -> BoxedStrategy<Long> {
    (prop_oneof![3 => 250u32..2000, 1 => 65_500u32..66_500], keyish(32), keyish(12), prop_oneof![any::<u32>(), Just(0u32)]).prop_map(|(n, key, iv, old)| Long { n, key, iv, old }).boxed()
}
fn long(c: &Long, ctx: &mut Ctx) -> R {
    ctx.nt();
    ctx.execs(c.n as u64 + 1);
    let seal = |i: u32| refr::tls_record(&c.key, &c.iv, i as u64, 23, (3, 3), &[i as u8, (i >> 8) as u8]);
    let mut s = Vec::new();
    for i in 0..c.n {
        s.extend(seal(i));
    }
    s.extend(seal(pick(c.old, c.n as usize) as u32));
    let mut rd = TlsReader::new(&s[..]);
    rd.set_iv(c.iv.0.clone());
    rd.set_decryptor(ChaCha20Poly1305.new_decryptor(c.key.0.clone()));
    for i in 0..c.n {
        match rd.read_application_data() {
            Ok(v) if v == [i as u8, (i >> 8) as u8] => {}
            Ok(_) => return Err(format!("record {i} came out wrong")),
            Err(e) => return Err(format!("genuine record {i} was refused: {e:?}")),
        }
    }
    if rd.read_application_data().is_ok() {
        return Err(format!("a replayed record was accepted at position {}", c.n));
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C14",
        assumptions: &["sequence numbers stay below 2^64-1", "records the key holder seals with another version than 3.3 are not generated (no peer of a 1.2 connection produces them)"],
        facets: vec![
            facet(Facet {
                name: "protected",
                rule: "up to 6 genuine records of all content types at any starting sequence number (hook), the chosen one disturbed in one of 20 ways (bit flips in header and body, replay, skip, truncation, extension, too short, too long, oversized plaintext, unknown or other type, version, key, IV, sequence number, associated length, no encryption, zero tag, end of stream); everything before must come out exactly, the disturbed one must be an error; non-trivial: the bytes differ from the genuine record",
                quick: 1_200_000,
                thorough: 60_000_000,
                shrink: 2000,
                strategy: strat,
                check,
            }),
            facet(Facet {
                name: "clear",
                rule: "clear records of 0..65535 bytes, some of unknown type; non-trivial: one must be refused",
                quick: 200_000,
                thorough: 10_000_000,
                shrink: 1000,
                strategy: plain_strat,
                check: clear,
            }),
            facet(Facet {
                name: "long",
                rule: "up to 66500 consecutive genuine records from the start of decryption, without the hook, then a replayed one; non-trivial: every case",
                quick: 48,
                thorough: 1_600,
                shrink: 30,
                strategy: long_strat,
                check: long,
            }),
        ],
    })
}
