//! Reference TLS 1.2 server (ECDHE_RSA, P-256, ChaCha20-Poly1305, RFC 5246/4492/7905) that builds
//! every byte itself, conforming or deviating on request, and the judge that decides from the
//! bytes exchanged whether a client was entitled to accept the handshake.
use crate::gen::*;
use crate::net::*;
use crate::refr;
use crate::wire::{self, Ext, Msg, SHello, Ske, Why};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Key {
    Small(u16),
    Full(Hex),
}
impl Key {
    pub fn scalar(&self) -> BigUint {
        match self {
            Key::Small(x) => BigUint::from(*x as u32 + 1),
            Key::Full(h) => BigUint::from_bytes_be(h) % (refr::n() - 1u8) + 1u8,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Frag {
    /// one record per message (messages above 2^14 bytes take several)
    PerMessage,
    /// the whole flight cut into records of these sizes, cyclic
    Sizes(Vec<u16>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cfg {
    /// empty: that of the client is sent back
    pub random: Hex,
    pub sid: Hex,
    /// 0 none, 1 empty block, 2 uncompressed, 3 and more: several formats
    pub exts: u8,
    pub certs: Vec<Blob>,
    pub key: Key,
    pub sig: Blob,
    pub frag: Frag,
    pub frag_fin: Frag,
    /// what the server sends back from what it was sent: 1 session id is the client's random,
    /// 2 session id is the server's, 3 the certificate is the client hello, 4 the signature is
    /// the client's random, 5 the session id starts like the client's random, 6 all of 1, 3, 4
    #[serde(default)]
    pub echo: u8,
}
impl Cfg {
    pub fn plain() -> Cfg {
        Cfg {
            random: Hex(vec![7; 32]),
            sid: Hex(vec![]),
            exts: 0,
            certs: vec![Blob { len: 20, kind: 2, seed: 1 }],
            key: Key::Small(4),
            sig: Blob { len: 16, kind: 2, seed: 3 },
            frag: Frag::PerMessage,
            frag_fin: Frag::PerMessage,
            echo: 0,
        }
    }
    pub fn ske(&self) -> Ske {
        let (x, y) = refr::mul(&self.key.scalar(), &refr::g()).unwrap();
        Ske { curve: 23, point: Hex(refr::encode_point(&x, &y)), alg: (4, 1), sig: Hex(self.sig.expand()) }
    }
    pub fn flight1(&self) -> Vec<Item> {
        let exts = match self.exts {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![Ext::Formats(vec![0])]),
            3 => Some(vec![Ext::Formats(vec![0, 1, 2])]),
            4 => Some(vec![Ext::Formats(vec![2, 1, 0])]),
            5 => Some(vec![Ext::Formats(vec![1, 0])]),
            _ => Some(vec![Ext::Formats(vec![0, 2])]),
        };
        let sh = SHello { ver: (3, 3), random: self.random.clone(), sid: self.sid.clone(), suite: wire::SUITE, comp: 0, exts };
        let certs = self.certs.iter().map(|b| Hex(b.expand())).filter(|c| !c.is_empty()).collect();
        [Msg::ServerHello(sh), Msg::Certificate(certs), Msg::ServerKeyExchange(Hex(wire::ske(&self.ske()))), Msg::ServerHelloDone]
            .iter()
            .map(|m| Item::clear(22, wire::msg(m)))
            .collect()
    }
}
pub fn frag() -> BoxedStrategy<Frag> {
    prop_oneof![
        3 => Just(Frag::PerMessage),
        1 => Just(Frag::Sizes(vec![16384])),
        1 => (1u16..8).prop_map(|n| Frag::Sizes(vec![n])),
        3 => proptest::collection::vec(prop_oneof![4 => 1u16..6, 2 => 1u16..200, 1 => 1u16..=16384], 1..6).prop_map(Frag::Sizes),
    ]
    .boxed()
}
pub fn key() -> BoxedStrategy<Key> {
    prop_oneof![5 => any::<u16>().prop_map(Key::Small), 1 => bytes(32).prop_map(Key::Full)].boxed()
}
/// Randoms with the marks that servers of other versions leave, and other peculiar ones.
fn server_random() -> BoxedStrategy<Hex> {
    let tail = |t: &'static [u8]| {
        bytes(32).prop_map(move |mut h| {
            h.0[32 - t.len()..].copy_from_slice(t);
            h
        })
    };
    prop_oneof![
        12 => keyish(32),
        1 => tail(b"DOWNGRD\x01"),
        1 => tail(b"DOWNGRD\x00"),
        1 => tail(&[0xed, 0xbf, 0xb4, 0xa8, 0xc2, 0x47, 0x10, 0xff]),
        1 => Just(Hex(refr::sha256(b"HelloRetryRequest").to_vec())),
        1 => Just(Hex(vec![])),
        1 => (any::<u32>(), bytes(28)).prop_map(|(t, h)| Hex([&(1_700_000_000 + t % 1_000_000).to_be_bytes()[..], &h].concat())),
    ]
    .boxed()
}
fn echo() -> BoxedStrategy<u8> {
    prop_oneof![20 => Just(0u8), 1 => 1u8..7].boxed()
}
/// Parameters of a conforming server.
pub fn cfg() -> BoxedStrategy<Cfg> {
    let cert_len = prop_oneof![6 => 1u32..1500, 1 => 16_000u32..17_000, 1 => 1u32..70_000].boxed();
    let sig_len = prop_oneof![6 => 0u32..600, 1 => Just(256u32), 1 => 0u32..=65535].boxed();
    (
        server_random(),
        prop_oneof![2 => bytes(0..33usize), 1 => Just(Hex(vec![])), 1 => bytes(32)],
        0u8..7,
        prop_oneof![12 => proptest::collection::vec(blob(cert_len), 0..4), 1 => proptest::collection::vec(blob((1u32..300).boxed()), 4..40)],
        key(),
        blob(sig_len),
        (frag(), frag(), echo()),
    )
        .prop_map(|(random, sid, exts, certs, key, sig, (frag, frag_fin, echo))| Cfg { random, sid, exts, certs, key, sig, frag, frag_fin, echo })
        .boxed()
}
/// Parameters that keep the flights small.
pub fn small_cfg() -> BoxedStrategy<Cfg> {
    (bytes(32), bytes(0..33usize), 0u8..4, proptest::collection::vec(blob((1u32..60).boxed()), 0..3), any::<u16>(), blob((0u32..40).boxed()), (frag(), frag(), echo()))
        .prop_map(|(random, sid, exts, certs, key, sig, (frag, frag_fin, echo))| Cfg { random, sid, exts, certs, key: Key::Small(key), sig, frag, frag_fin, echo })
        .boxed()
}

/// Something the server puts on the wire.
#[derive(Clone, Debug)]
pub struct Item {
    pub ty: u8,
    pub ver: (u8, u8),
    pub data: Vec<u8>,
    pub enc: bool,
    /// bit of the finished record (header included) to flip
    pub tamper: Vec<u32>,
    pub seq_delta: i8,
    pub wrong_key: bool,
    /// emit in one record of its own whatever the size
    pub alone: bool,
    /// cut the record after this many bytes
    pub cut: Option<u32>,
    /// already on-the-wire bytes
    pub raw: bool,
}
impl Item {
    pub fn clear(ty: u8, data: Vec<u8>) -> Item {
        Item { ty, ver: (3, 3), data, enc: false, tamper: vec![], seq_delta: 0, wrong_key: false, alone: false, cut: None, raw: false }
    }
    pub fn sealed(ty: u8, data: Vec<u8>) -> Item {
        Item { enc: true, ..Item::clear(ty, data) }
    }
    fn plain(&self) -> bool {
        self.ty == 22 && !self.raw && !self.alone && self.tamper.is_empty() && self.seq_delta == 0 && !self.wrong_key && self.cut.is_none() && self.ver == (3, 3)
    }
}
/// One deviation, applied to the item chosen by `at` of flight 0 (hello to done) or 1 (change
/// cipher spec and Finished). `agreed`: the server itself did it, so its transcript contains it;
/// otherwise the network did it behind the server's back.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Dev {
    pub flight: u8,
    pub at: u8,
    pub agreed: bool,
    pub op: Op,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    FlipBit(u32),
    Set(Hex),
    /// shorten by n bytes, fixing the message length or not
    Truncate(u8, bool),
    Extend(Hex, bool),
    MsgType(u8),
    LenDelta(i8),
    ContentType(u8),
    Version(u8, u8),
    Drop,
    Dup,
    SwapNext,
    /// a record of this content type and content before the item
    Insert(u8, Hex),
    /// a record of this content type and length
    InsertLong(u8, u16),
    EmptyBefore,
    ToggleEnc,
    Tamper(u32),
    SeqDelta(i8),
    WrongKey,
    CutRecord(u16),
    CutAfter,
    RawBefore(Hex),
    HeaderLen(i16),
    // fields
    ShVersion(u8, u8),
    ShSuite(u8, u8),
    ShComp(u8),
    ShExts(Hex),
    ShSid(Hex),
    SkeCurveType(u8),
    SkeCurve(u16),
    SkePoint(Hex),
    SkeAlg(u8, u8),
    SkeTrail(Hex),
    SkeSigLen(i16),
    SkeOtherKey(u16),
    FinMask(Hex),
    /// the client's own Finished value sent back
    FinReflect,
    FinLen(u8),
    /// Finished over a transcript without one message
    FinSkip(u8),
    CertsRaw(Hex),
    /// the first n bytes of the Finished message travel in clear before the change cipher spec
    FinEarly(u8),
}

pub struct Rec {
    pub ty: u8,
    pub ver: (u8, u8),
    pub plain: Vec<u8>,
    pub enc: bool,
    pub wire_len: usize,
}
pub struct Keys {
    pub cw: Vec<u8>,
    pub sw: Vec<u8>,
    pub civ: Vec<u8>,
    pub siv: Vec<u8>,
}
impl Keys {
    pub fn derive(pre: &[u8], crandom: &[u8], srandom: &[u8]) -> (Vec<u8>, Keys) {
        let ms = refr::prf(pre, "master secret", &[crandom, srandom].concat(), 48);
        let kb = refr::prf(&ms, "key expansion", &[srandom, crandom].concat(), 88);
        (ms, Keys { cw: kb[..32].to_vec(), sw: kb[32..64].to_vec(), civ: kb[64..76].to_vec(), siv: kb[76..].to_vec() })
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Hello,
    Cke,
    Ccs,
    Fin,
    Open,
    Dead,
}
pub struct Server {
    pub cfg: Cfg,
    pub devs: Vec<Dev>,
    /// what the network does to the client's messages: (0 hello, 1 key exchange, 2 Finished; bit)
    pub mitm: Option<(u8, u32)>,
    /// a server that finds a fault in the client's messages stops with an alert
    pub strict: bool,
    pub st: St,
    pos: usize,
    hs: Vec<u8>,
    pub client_enc: bool,
    pub read_seq: u64,
    pub write_seq: u64,
    pub keys: Option<Keys>,
    pub ms: Vec<u8>,
    pub transcript: Vec<u8>,
    flight1: Vec<Vec<u8>>,
    pub hello: Vec<u8>,
    pub cke: Vec<u8>,
    pub client_fin: Vec<u8>,
    srandom: Vec<u8>,
    crandom: Vec<u8>,
    pub recs: Vec<Rec>,
    pub app_in: Vec<u8>,
    pub complaints: Vec<String>,
    /// more to send once the connection is open
    pub queue: Vec<Item>,
    pub hello_done_at: usize,
}
impl Server {
    pub fn new(cfg: Cfg) -> Server {
        Server {
            cfg,
            devs: vec![],
            mitm: None,
            strict: false,
            st: St::Hello,
            pos: 0,
            hs: vec![],
            client_enc: false,
            read_seq: 0,
            write_seq: 0,
            keys: None,
            ms: vec![],
            transcript: vec![],
            flight1: vec![],
            hello: vec![],
            cke: vec![],
            client_fin: vec![],
            srandom: vec![],
            crandom: vec![],
            recs: vec![],
            app_in: vec![],
            complaints: vec![],
            queue: vec![],
            hello_done_at: 0,
        }
    }
    fn complain(&mut self, m: impl Into<String>) {
        self.complaints.push(m.into());
    }
    /// Seal one record under the server's write key and the next (or a shifted) sequence number.
    pub fn seal(&mut self, ty: u8, ver: (u8, u8), plain: &[u8], delta: i64, wrong_key: bool) -> Vec<u8> {
        let k = self.keys.as_ref().expect("no keys yet");
        let mut key = k.sw.clone();
        if wrong_key {
            key[0] ^= 1;
        }
        let seq = self.write_seq.wrapping_add(delta as u64);
        self.write_seq = self.write_seq.wrapping_add(1);
        refr::tls_record(&key, &k.siv, seq, ty, ver, plain)
    }
    pub fn put(&mut self, items: &[Item], frag: &Frag, out: &mut Vec<u8>) {
        let mut i = 0;
        while i < items.len() {
            let it = &items[i];
            if it.raw {
                out.extend_from_slice(&it.data);
                i += 1;
                continue;
            }
            if it.plain() {
                // a run of ordinary handshake messages is cut as the configuration says
                let mut j = i;
                let mut run = Vec::new();
                let mut ends = Vec::new();
                while j < items.len() && items[j].plain() && items[j].enc == it.enc {
                    run.extend_from_slice(&items[j].data);
                    ends.push(run.len());
                    j += 1;
                }
                let pieces = cut(&run, frag, &ends);
                for p in pieces {
                    if it.enc && self.keys.is_some() {
                        out.extend(self.seal(22, (3, 3), p, 0, false));
                    } else {
                        out.extend(wire::record(22, (3, 3), p));
                    }
                }
                i = j;
                continue;
            }
            let max = if it.alone { usize::MAX } else { 16384 };
            let chunks: Vec<&[u8]> = if it.data.is_empty() { vec![&[][..]] } else { it.data.chunks(max).collect() };
            for c in chunks {
                let mut r = if it.enc && self.keys.is_some() { self.seal(it.ty, it.ver, c, it.seq_delta as i64, it.wrong_key) } else { wire::record(it.ty, it.ver, c) };
                for b in &it.tamper {
                    let k = pick(*b, r.len() * 8);
                    r[k / 8] ^= 1 << (k % 8);
                }
                if let Some(n) = it.cut {
                    let n = pick((n & 0xffff) << 16, r.len());
                    r.truncate(n);
                }
                out.extend(r);
            }
            i += 1;
        }
    }
    fn apply(&self, items: &mut Vec<Item>, flight: u8, agreed: bool) -> bool {
        let mut eof = false;
        for d in self.devs.iter().filter(|d| d.flight == flight && d.agreed == agreed) {
            eof |= self.dev(items, d);
            if eof {
                break;
            }
        }
        eof
    }
    fn dev(&self, items: &mut Vec<Item>, d: &Dev) -> bool {
        if items.is_empty() {
            return false;
        }
        let mut at = d.at as usize % items.len();
        // field deviations go to the message they concern
        let want = match d.op {
            Op::ShVersion(..) | Op::ShSuite(..) | Op::ShComp(_) | Op::ShExts(_) | Op::ShSid(_) => Some(2),
            Op::SkeCurveType(_) | Op::SkeCurve(_) | Op::SkePoint(_) | Op::SkeAlg(..) | Op::SkeTrail(_) | Op::SkeSigLen(_) | Op::SkeOtherKey(_) => Some(12),
            Op::FinMask(_) | Op::FinReflect | Op::FinLen(_) | Op::FinSkip(_) | Op::FinEarly(_) => Some(20),
            Op::CertsRaw(_) => Some(11),
            _ => None,
        };
        if let Some(w) = want {
            match items.iter().position(|i| i.ty == 22 && i.data.first() == Some(&w)) {
                Some(k) => at = k,
                None => return false,
            }
        }
        fn relen(v: &mut Vec<u8>) {
            if v.len() >= 4 {
                let n = wire::u24v(v.len() - 4);
                v[1..4].copy_from_slice(&n);
            }
        }
        let enc = items[at].enc;
        let it = &mut items[at];
        let hs = it.ty == 22;
        match &d.op {
            Op::FlipBit(b) => {
                if !it.data.is_empty() {
                    let k = pick(*b, it.data.len() * 8);
                    it.data[k / 8] ^= 1 << (k % 8);
                }
            }
            Op::Set(h) => it.data = h.0.clone(),
            Op::Truncate(n, fix) => {
                let l = it.data.len().saturating_sub(*n as usize + 1);
                it.data.truncate(l);
                if *fix && hs {
                    relen(&mut it.data);
                }
            }
            Op::Extend(h, fix) => {
                it.data.extend_from_slice(h);
                if *fix && hs {
                    relen(&mut it.data);
                }
            }
            Op::MsgType(t) => {
                if let Some(b) = it.data.first_mut() {
                    *b = *t
                }
            }
            Op::LenDelta(n) => {
                if hs && it.data.len() >= 4 {
                    let l = (it.data.len() as i64 - 4 + *n as i64).rem_euclid(1 << 24) as usize;
                    it.data[1..4].copy_from_slice(&wire::u24v(l));
                }
            }
            Op::ContentType(t) => it.ty = *t,
            Op::Version(a, b) => it.ver = (*a, *b),
            Op::Drop => {
                items.remove(at);
            }
            Op::Dup => {
                let c = it.clone();
                items.insert(at, c);
            }
            Op::SwapNext => {
                let j = (at + 1) % items.len();
                items.swap(at, j);
            }
            Op::Insert(ty, h) => {
                let n = Item { alone: true, enc, ..Item::clear(*ty, h.0.clone()) };
                items.insert(at, n);
            }
            Op::InsertLong(ty, n) => {
                let n = Item { alone: true, enc, ..Item::clear(*ty, vec![0; *n as usize]) };
                items.insert(at, n);
            }
            Op::EmptyBefore => {
                let n = Item { alone: true, enc, ..Item::clear(it.ty, vec![]) };
                items.insert(at, n);
            }
            Op::ToggleEnc => it.enc = !it.enc,
            Op::Tamper(b) => it.tamper.push(*b),
            Op::SeqDelta(n) => it.seq_delta = *n,
            Op::WrongKey => it.wrong_key = true,
            Op::CutRecord(n) => {
                it.cut = Some(*n as u32);
                items.truncate(at + 1);
                return true;
            }
            Op::CutAfter => {
                items.truncate(at);
                return true;
            }
            Op::RawBefore(h) => {
                let n = Item { raw: true, ..Item::clear(0, h.0.clone()) };
                items.insert(at, n);
            }
            Op::HeaderLen(n) => {
                let mut r = wire::record(it.ty, it.ver, &it.data);
                let l = (it.data.len() as i64 + *n as i64).rem_euclid(65536) as usize;
                r[3..5].copy_from_slice(&wire::u16v(l));
                it.data = r;
                it.raw = true;
            }
            Op::ShVersion(a, b) => {
                if it.data.len() > 5 {
                    it.data[4] = *a;
                    it.data[5] = *b;
                }
            }
            Op::ShSuite(a, b) | Op::SkeAlg(a, b) if it.data.len() > 40 => {
                let k = match &d.op {
                    Op::ShSuite(..) => 4 + 2 + 32 + 1 + it.data[38] as usize,
                    _ => 4 + 3 + 1 + it.data[7] as usize,
                };
                if k + 1 < it.data.len() {
                    it.data[k] = *a;
                    it.data[k + 1] = *b;
                }
            }
            Op::ShComp(c) if it.data.len() > 40 => {
                let k = 4 + 2 + 32 + 1 + it.data[38] as usize + 2;
                if k < it.data.len() {
                    it.data[k] = *c;
                }
            }
            Op::ShExts(h) if it.data.len() > 40 => {
                let k = 4 + 2 + 32 + 1 + it.data[38] as usize + 3;
                it.data.truncate(k);
                it.data.extend_from_slice(h);
                relen(&mut it.data);
            }
            Op::ShSid(h) if it.data.len() > 40 => {
                let old = it.data[38] as usize;
                if 39 + old <= it.data.len() {
                    let mut n = it.data[..38].to_vec();
                    n.push(h.len() as u8);
                    n.extend_from_slice(h);
                    n.extend_from_slice(&it.data[39 + old..]);
                    it.data = n;
                    relen(&mut it.data);
                }
            }
            Op::SkeCurveType(c) if it.data.len() > 8 => it.data[4] = *c,
            Op::SkeCurve(c) if it.data.len() > 8 => it.data[5..7].copy_from_slice(&c.to_be_bytes()),
            Op::SkePoint(h) if it.data.len() > 8 => {
                let old = it.data[7] as usize;
                if 8 + old <= it.data.len() {
                    let mut n = it.data[..7].to_vec();
                    n.push(h.len() as u8);
                    n.extend_from_slice(h);
                    n.extend_from_slice(&it.data[8 + old..]);
                    it.data = n;
                    relen(&mut it.data);
                }
            }
            Op::SkeOtherKey(k) if it.data.len() > 73 => {
                let (x, y) = refr::mul(&BigUint::from(*k as u32 + 70_000), &refr::g()).unwrap();
                it.data[8..73].copy_from_slice(&refr::encode_point(&x, &y));
            }
            Op::SkeTrail(h) => {
                it.data.extend_from_slice(h);
                relen(&mut it.data);
            }
            Op::SkeSigLen(n) if it.data.len() >= 77 => {
                let l = (it.data.len() as i64 - 77 + *n as i64).rem_euclid(65536) as usize;
                it.data[75..77].copy_from_slice(&wire::u16v(l));
            }
            Op::FinMask(h) => {
                for (k, m) in h.iter().enumerate() {
                    if 4 + k < it.data.len() {
                        it.data[4 + k] ^= m;
                    }
                }
            }
            Op::FinReflect => {
                if self.client_fin.len() == 16 {
                    it.data = self.client_fin.clone();
                }
            }
            Op::FinLen(n) => {
                it.data.resize(4 + *n as usize, 0);
                relen(&mut it.data);
            }
            Op::FinSkip(n) => {
                let mut t: Vec<&[u8]> = vec![&self.hello];
                t.extend(self.flight1.iter().map(|v| &v[..]));
                t.push(&self.cke);
                t.push(&self.client_fin);
                t.remove(*n as usize % t.len());
                let v = refr::prf(&self.ms, "server finished", &refr::sha256(&t.concat()), 12);
                it.data = wire::frame(20, &v);
            }
            Op::FinEarly(n) => {
                let k = 1 + *n as usize % it.data.len().max(1);
                let head = it.data[..k.min(it.data.len())].to_vec();
                let rest = it.data[k.min(it.data.len())..].to_vec();
                if rest.is_empty() {
                    items.remove(at);
                } else {
                    it.data = rest;
                }
                let n = Item { alone: true, ..Item::clear(22, head) };
                let p = items.iter().position(|i| i.ty == 20).unwrap_or(0);
                items.insert(p, n);
            }
            Op::CertsRaw(h) => it.data = wire::frame(11, h),
            _ => {}
        }
        false
    }
    fn fatal(&mut self, desc: u8, out: &mut Vec<u8>) {
        let ver = (3, 3);
        out.extend(wire::record(21, ver, &[2, desc]));
        self.st = St::Dead;
    }
    fn on_handshake(&mut self, m: Vec<u8>, out: &mut Vec<u8>) {
        match self.st {
            St::Hello => {
                let mut m = m;
                self.tamper(0, &mut m);
                match wire::p_msg(&m) {
                    Ok(Msg::ClientHello(c)) => {
                        if !c.suites.contains(&wire::SUITE) || !c.comps.contains(&0) {
                            self.complain("client hello does not offer what a server must choose");
                        }
                        self.crandom = c.random.0.clone();
                    }
                    _ => {
                        self.complain("malformed client hello");
                        if self.strict || m.len() < 38 {
                            return self.fatal(50, out);
                        }
                        self.crandom = m[6..38].to_vec();
                    }
                }
                if self.cfg.random.is_empty() {
                    self.cfg.random = Hex(self.crandom.clone());
                }
                let mut extra = None;
                match self.cfg.echo {
                    1 | 6 => self.cfg.sid = Hex(self.crandom.clone()),
                    2 => self.cfg.sid = self.cfg.random.clone(),
                    5 => self.cfg.sid.0.splice(..self.cfg.sid.0.len().min(28), self.crandom[..28].iter().copied()).for_each(drop),
                    _ => {}
                }
                if matches!(self.cfg.echo, 3 | 6) {
                    extra = Some(wire::msg(&Msg::Certificate(vec![Hex(m.clone())])));
                }
                self.hello = m;
                let mut items = self.cfg.flight1();
                if let Some(c) = extra {
                    items[1].data = c;
                }
                if matches!(self.cfg.echo, 4 | 6) {
                    let k = Ske { sig: Hex(self.crandom.clone()), ..self.cfg.ske() };
                    items[2].data = wire::msg(&Msg::ServerKeyExchange(Hex(wire::ske(&k))));
                }
                let mut eof = self.apply(&mut items, 0, true);
                self.flight1 = items.iter().filter(|i| i.ty == 22 && !i.raw).map(|i| i.data.clone()).collect();
                self.srandom = match self.flight1.iter().find(|d| d.first() == Some(&2) && d.len() >= 38) {
                    Some(d) => d[6..38].to_vec(),
                    None => self.cfg.random.0.clone(),
                };
                eof |= self.apply(&mut items, 0, false);
                let f = self.cfg.frag.clone();
                self.put(&items, &f, out);
                self.hello_done_at = out.len();
                self.st = if eof { St::Dead } else { St::Cke };
            }
            St::Cke => {
                let mut m = m;
                self.tamper(1, &mut m);
                if m[0] != 16 {
                    self.complain(format!("handshake message {} where client key exchange is due", m[0]));
                    return self.fatal(10, out);
                }
                let pt = if m.len() == 70 && m[4] == 65 { refr::decode_point(&m[5..]) } else { None };
                let Some(pt) = pt else {
                    self.complain(format!("bad client key exchange {}", hex(&m)));
                    return self.fatal(47, out);
                };
                let Some((x, _)) = refr::mul(&self.cfg.key.scalar(), &Some(pt)) else {
                    return self.fatal(47, out);
                };
                self.cke = m;
                let (ms, k) = Keys::derive(&refr::be32(&x), &self.crandom, &self.srandom);
                self.ms = ms;
                self.keys = Some(k);
                let mut t = self.hello.clone();
                for f in &self.flight1 {
                    t.extend_from_slice(f);
                }
                t.extend_from_slice(&self.cke);
                self.transcript = t;
                self.st = St::Ccs;
            }
            St::Fin => {
                let want = wire::frame(20, &refr::prf(&self.ms, "client finished", &refr::sha256(&self.transcript), 12));
                if m != want {
                    self.complain("client Finished does not match the transcript");
                    if self.strict {
                        let a = self.seal(21, (3, 3), &[2, 51], 0, false);
                        // a server that has not switched yet sends its alert in clear
                        let _ = a;
                        self.write_seq = 0;
                        return self.fatal(51, out);
                    }
                }
                self.client_fin = m;
                self.transcript.extend_from_slice(&self.client_fin);
                self.finish(out);
            }
            St::Ccs => {
                self.complain("handshake message where change cipher spec is due");
                self.fatal(10, out);
            }
            _ => self.complain("handshake message on an open connection"),
        }
    }
    fn finish(&mut self, out: &mut Vec<u8>) {
        let v = refr::prf(&self.ms, "server finished", &refr::sha256(&self.transcript), 12);
        let mut items = vec![Item { alone: true, ..Item::clear(20, vec![1]) }, Item::sealed(22, wire::frame(20, &v))];
        let mut eof = self.apply(&mut items, 1, true);
        eof |= self.apply(&mut items, 1, false);
        let f = self.cfg.frag_fin.clone();
        self.put(&items, &f, out);
        self.st = if eof { St::Dead } else { St::Open };
    }
    fn tamper(&self, which: u8, m: &mut [u8]) {
        if let Some((w, b)) = self.mitm {
            if w == which {
                let k = pick(b, m.len() * 8);
                m[k / 8] ^= 1 << (k % 8);
            }
        }
    }
    fn on_record(&mut self, ty: u8, ver: (u8, u8), body: &[u8], out: &mut Vec<u8>) {
        let wire_len = body.len();
        let mut plain = body.to_vec();
        let enc = self.client_enc;
        if ver != (3, 3) {
            self.complain(format!("record version {}.{}", ver.0, ver.1));
        }
        if enc {
            let k = self.keys.as_ref().unwrap();
            let nonce = refr::tls_nonce(&k.civ, self.read_seq);
            let n = body.len().wrapping_sub(16);
            let ad = refr::tls_ad(self.read_seq, ty, ver, n & 0xffff);
            let mut b = body.to_vec();
            if self.st == St::Fin {
                self.tamper(2, &mut b);
            }
            match refr::aead_open(&k.cw, &nonce, &ad, &b) {
                Some(p) => plain = p,
                None => {
                    self.complain(format!("record {} (type {ty}, {} bytes) does not decrypt under sequence number {}", self.recs.len(), body.len(), self.read_seq));
                    if self.strict && self.st == St::Fin {
                        return self.fatal(20, out);
                    }
                    if self.st == St::Fin {
                        // a careless server carries on
                        self.client_fin = vec![];
                        return self.finish(out);
                    }
                    self.st = St::Dead;
                    return;
                }
            }
            self.read_seq = self.read_seq.wrapping_add(1);
        }
        if plain.len() > 16384 {
            self.complain(format!("record of {} plaintext bytes", plain.len()));
        }
        if plain.is_empty() {
            self.complain(format!("empty record of type {ty}"));
        }
        self.recs.push(Rec { ty, ver, plain: plain.clone(), enc, wire_len });
        match ty {
            20 => {
                if plain != [1] {
                    self.complain("malformed change cipher spec");
                }
                if self.st == St::Ccs && self.hs.is_empty() {
                    self.client_enc = true;
                    self.read_seq = 0;
                    self.st = St::Fin;
                } else {
                    self.complain("change cipher spec out of place");
                    self.st = St::Dead;
                }
            }
            21 => {
                if self.st != St::Open {
                    self.st = St::Dead;
                }
            }
            22 => {
                self.hs.extend_from_slice(&plain);
                while self.hs.len() >= 4 && self.st != St::Dead {
                    let n = (self.hs[1] as usize) << 16 | (self.hs[2] as usize) << 8 | self.hs[3] as usize;
                    if self.hs.len() < 4 + n {
                        break;
                    }
                    let m: Vec<u8> = self.hs.drain(..4 + n).collect();
                    self.on_handshake(m, out);
                }
            }
            23 => {
                if self.st == St::Open && enc {
                    self.app_in.extend_from_slice(&plain);
                } else {
                    self.complain("application data before the handshake is complete");
                }
            }
            t => self.complain(format!("record of unknown type {t}")),
        }
    }
    /// Process what the client has sent without letting the server answer.
    pub fn absorb(&mut self, c2s: &[u8]) {
        let mut out = Vec::new();
        self.run(c2s, &mut out);
    }
    fn run(&mut self, c2s: &[u8], out: &mut Vec<u8>) {
        while c2s.len() - self.pos >= 5 {
            let h = &c2s[self.pos..];
            let n = (h[3] as usize) << 8 | h[4] as usize;
            if h.len() < 5 + n {
                break;
            }
            self.pos += 5 + n;
            if self.st == St::Dead {
                // keep what arrives for inspection
                let (ty, ver, b) = (h[0], (h[1], h[2]), &h[5..5 + n]);
                self.late(ty, ver, b);
                continue;
            }
            let (ty, ver, b) = (h[0], (h[1], h[2]), h[5..5 + n].to_vec());
            self.on_record(ty, ver, &b, out);
        }
    }
    fn late(&mut self, ty: u8, ver: (u8, u8), b: &[u8]) {
        let mut plain = b.to_vec();
        let mut enc = false;
        if let Some(k) = &self.keys {
            let nonce = refr::tls_nonce(&k.civ, self.read_seq);
            let ad = refr::tls_ad(self.read_seq, ty, ver, b.len().wrapping_sub(16) & 0xffff);
            if self.client_enc {
                if let Some(p) = refr::aead_open(&k.cw, &nonce, &ad, b) {
                    plain = p;
                    enc = true;
                    self.read_seq += 1;
                }
            }
        }
        if ty == 20 && !self.client_enc && self.keys.is_some() {
            self.client_enc = true;
            self.read_seq = 0;
        }
        self.recs.push(Rec { ty, ver, plain, enc, wire_len: b.len() });
    }
}
/// Cut a run of bytes into record payloads.
pub fn cut<'a>(run: &'a [u8], f: &Frag, ends: &[usize]) -> Vec<&'a [u8]> {
    let mut v = Vec::new();
    match f {
        Frag::PerMessage => {
            let mut a = 0;
            for e in ends {
                v.extend(run[a..*e].chunks(16384));
                a = *e;
            }
        }
        Frag::Sizes(s) => {
            // keep the number of records bounded
            // (one very small size is meant)
            let most = if s.len() == 1 && s[0] < 4 { 40_000 } else { 1500 };
            let least = (run.len() / most + 1).min(16384);
            let mut a = 0;
            let mut i = 0;
            while a < run.len() {
                let n = (s.get(i % s.len().max(1)).copied().unwrap_or(100) as usize).clamp(least, 16384).min(run.len() - a);
                v.push(&run[a..a + n]);
                a += n;
                i += 1;
            }
        }
    }
    v
}
impl Peer for Server {
    fn pump(&mut self, c2s: &[u8], out: &mut Vec<u8>) {
        self.run(c2s, out);
        if self.st == St::Open && !self.queue.is_empty() {
            let q = std::mem::take(&mut self.queue);
            self.put(&q, &Frag::PerMessage, out);
        }
    }
}

// ---------------------------------------------------------------- the judge

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Unexpected,
    Mac,
    Overflow,
    Illegal,
    Decode,
    Decrypt,
    Alert,
    Io,
}
#[derive(Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    /// must be refused, with one of these kinds
    Reject(Vec<K>, &'static str),
    /// the properties do not say
    Open,
}
pub struct Judged {
    pub verdict: Verdict,
    /// ambiguous because of something the properties leave open
    pub soft: bool,
}
/// Decide from the bytes a client received and sent what it had to do.
pub fn judge(s2c: &[u8], c2s: &[u8], d: &BigUint) -> Judged {
    let mut soft = false;
    let verdict = judge_inner(s2c, c2s, d, &mut soft);
    Judged { verdict: if soft && verdict == Verdict::Accept { Verdict::Open } else { verdict }, soft }
}
fn judge_inner(s2c: &[u8], c2s: &[u8], d: &BigUint, soft: &mut bool) -> Verdict {
    use Verdict::*;
    // the client's side
    let (crecs, _) = wire::split_records(c2s);
    let mut chs: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < crecs.len() && crecs[i].0 == 22 {
        chs.extend_from_slice(&crecs[i].2);
        i += 1;
    }
    let split = |b: &[u8]| -> Vec<Vec<u8>> {
        let mut v = Vec::new();
        let mut at = 0;
        while b.len() - at >= 4 {
            let n = (b[at + 1] as usize) << 16 | (b[at + 2] as usize) << 8 | b[at + 3] as usize;
            if b.len() - at < 4 + n {
                break;
            }
            v.push(b[at..at + 4 + n].to_vec());
            at += 4 + n;
        }
        v
    };
    let cm = split(&chs);
    let Some(ch) = cm.first() else { return Reject(vec![K::Io], "no client hello") };
    let cke = cm.get(1);
    let after_ccs = &crecs[(i + 1).min(crecs.len())..];

    let mut at = 0usize;
    let mut hs: Vec<u8> = Vec::new();
    let mut stage = 0; // 0 hello, 1 certificate, 2 key exchange, 3 done, 4 change cipher spec, 5 Finished
    let mut transcript = ch.clone();
    let mut srandom = vec![];
    let mut enc: Option<Option<(Vec<u8>, Keys)>> = None; // Some(None): keys the judge cannot know
    let mut seq = 0u64;
    let mut foreign = false;
    let own = refr::mul(d, &refr::g()).map(|(x, y)| refr::encode_point(&x, &y)).unwrap();
    loop {
        let r = &s2c[at..];
        let known = r.first().map_or(true, |t| (20..=23).contains(t));
        if r.len() < 5 {
            return Reject(if known { vec![K::Io] } else { vec![K::Io, K::Unexpected] }, "stream ends");
        }
        let (ty, ver, len) = (r[0], (r[1], r[2]), (r[3] as usize) << 8 | r[4] as usize);
        if !known {
            let mut k = vec![K::Unexpected];
            if len > 18432 {
                k.push(K::Overflow)
            }
            return Reject(k, "unknown content type");
        }
        if len > 18432 {
            return Reject(vec![K::Overflow], "record longer than any can be");
        }
        if r.len() < 5 + len {
            return Reject(if enc.is_none() && len > 16384 { vec![K::Io, K::Overflow] } else { vec![K::Io] }, "stream ends inside a record");
        }
        at += 5 + len;
        let mut body = r[5..5 + len].to_vec();
        match &enc {
            None => {
                if len > 16384 {
                    return Reject(vec![K::Overflow], "clear record too long");
                }
                if ver != (3, 3) {
                    *soft = true;
                }
            }
            Some(None) => return Reject(vec![K::Mac], "record under keys the client cannot have"),
            Some(Some((_, k))) => {
                let ok = refr::aead_open(&k.sw, &refr::tls_nonce(&k.siv, seq), &refr::tls_ad(seq, ty, ver, len.wrapping_sub(16) & 0xffff), &body);
                match ok {
                    None => return Reject(if len > 16400 { vec![K::Mac, K::Overflow] } else { vec![K::Mac] }, "record does not authenticate"),
                    Some(p) if p.len() > 16384 => return Reject(vec![K::Overflow], "plaintext too long"),
                    Some(p) => body = p,
                }
                if ver != (3, 3) {
                    *soft = true;
                }
                seq += 1;
            }
        }
        match ty {
            20 => {
                if body != [1] {
                    return Reject(vec![K::Unexpected, K::Decode], "malformed change cipher spec");
                }
                if stage != 4 || !hs.is_empty() {
                    return Reject(vec![K::Unexpected], "change cipher spec out of place");
                }
                let Some(cke) = cke else { return Reject(vec![K::Io, K::Unexpected], "no client key exchange") };
                transcript.extend_from_slice(cke);
                enc = Some(None);
                if !foreign && cke.len() == 70 {
                    if let Some(pt) = refr::decode_point(&cke[5..]) {
                        if let Some((x, _)) = refr::mul(d, &Some(pt)) {
                            enc = Some(Some(Keys::derive(&refr::be32(&x), &ch[6..38], &srandom)));
                        }
                    }
                }
                stage = 5;
            }
            21 => {
                let mut p = wire::P::new(&body);
                return match wire::p_alert(&mut p) {
                    // nothing but a handshake message was due, and it is said why it does not come
                    Some(_) if p.end() && stage != 4 && hs.is_empty() => Reject(vec![K::Alert], "alert"),
                    Some(_) if p.end() => Reject(vec![K::Alert, K::Unexpected], "alert"),
                    Some(_) => Reject(vec![K::Alert, K::Unexpected, K::Decode], "overlong alert"),
                    None => Reject(vec![K::Unexpected, K::Decode], "malformed alert"),
                };
            }
            23 => return Reject(vec![K::Unexpected], "application data during the handshake"),
            _ => {
                if body.is_empty() {
                    return Reject(vec![K::Unexpected, K::Decode], "empty handshake record");
                }
                hs.extend_from_slice(&body);
                while hs.len() >= 4 {
                    let n = (hs[1] as usize) << 16 | (hs[2] as usize) << 8 | hs[3] as usize;
                    if hs.len() < 4 + n {
                        break;
                    }
                    let m: Vec<u8> = hs.drain(..4 + n).collect();
                    let due = [2u8, 11, 12, 14, 255, 20][stage];
                    let msg = match wire::p_msg(&m) {
                        Err(Why::UnknownType) => return Reject(vec![K::Unexpected], "unknown handshake type"),
                        Err(Why::Malformed) => {
                            let mut k = vec![K::Decode];
                            if m[0] != due {
                                k.push(K::Unexpected);
                            } else if m[0] == 2 {
                                k.push(K::Illegal); // e.g. a compression method that does not exist
                            }
                            return Reject(k, "malformed handshake message");
                        }
                        Ok(m) => m,
                    };
                    if m[0] != due {
                        return Reject(vec![K::Unexpected], "handshake message out of place");
                    }
                    match msg {
                        Msg::ServerHello(s) => {
                            if s.ver != (3, 3) {
                                return Reject(vec![K::Illegal], "wrong version");
                            }
                            if s.suite != wire::SUITE {
                                return Reject(vec![K::Illegal], "wrong suite");
                            }
                            if s.comp != 0 {
                                return Reject(vec![K::Illegal], "compression");
                            }
                            srandom = s.random.0.clone();
                            let fine = |e: &[Ext]| match e {
                                [] => true,
                                [Ext::Formats(f)] => f.contains(&0),
                                _ => false,
                            };
                            if let Some(e) = &s.exts {
                                if !fine(e) {
                                    *soft = true; // unsolicited extensions: not specified here
                                }
                            }
                            stage = 1;
                        }
                        Msg::Certificate(_) => stage = 2,
                        Msg::ServerKeyExchange(b) => {
                            let mut p = wire::P::new(&b);
                            let parsed = wire::p_ske(&mut p);
                            let complete = p.end();
                            let mut k = vec![];
                            if parsed.is_none() || !complete {
                                k.push(K::Decode);
                            }
                            // what can be read of the parameters may be faulted as well
                            let curve = if b.len() >= 3 { Some((b[0], u16::from_be_bytes([b[1], b[2]]))) } else { None };
                            if let Some(c) = curve {
                                if c != (3, 23) {
                                    k.push(K::Illegal);
                                }
                            }
                            let point = if b.len() > 4 { b.get(4..4 + b[3] as usize) } else { None };
                            if let Some(pt) = point {
                                if refr::decode_point(pt).is_none() {
                                    k.push(K::Illegal);
                                }
                            } else if b.len() > 3 {
                                k.push(K::Illegal);
                            }
                            if !k.is_empty() {
                                return Reject(k, "bad server key exchange");
                            }
                            let s = parsed.unwrap();
                            if s.alg != (4, 1) {
                                *soft = true;
                            }
                            foreign = s.point.0 != own;
                            stage = 3;
                        }
                        Msg::ServerHelloDone => stage = 4,
                        Msg::Finished(v) => {
                            let Some(Some((ms, k))) = &enc else { return Open };
                            // the client's Finished
                            let Some((ty, ver, b)) = after_ccs.first() else { return Reject(vec![K::Io], "client Finished missing") };
                            let n = b.len().wrapping_sub(16) & 0xffff;
                            let Some(fin) = refr::aead_open(&k.cw, &refr::tls_nonce(&k.civ, 0), &refr::tls_ad(0, *ty, *ver, n), b) else {
                                return Reject(vec![K::Decrypt], "client Finished unreadable");
                            };
                            let mut t = transcript.clone();
                            t.extend_from_slice(&fin);
                            if refr::prf(ms, "server finished", &refr::sha256(&t), 12) != v.0 {
                                return Reject(vec![K::Decrypt], "wrong Finished");
                            }
                            return Accept;
                        }
                        _ => return Reject(vec![K::Unexpected], "handshake message out of place"),
                    }
                    transcript.extend_from_slice(&m);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- driving the client

pub type Client = husk::TlsClient<Rd<Server>, Wr<Server>>;
/// What a caller may do to a connection between two reads; how it turns out does not matter.
pub fn meddle(cl: &mut Client, what: u8) -> Result<(), String> {
    use std::io::{Read, Write};
    crate::fw::guarded(|| match what % 8 {
        0 => drop(cl.write(b"x")),
        1 => drop(cl.write_all(&[7; 40])),
        2 => drop(cl.write(b"")),
        3 => drop(cl.flush()),
        4 => drop(cl.close()),
        5 => drop(cl.read(&mut [])),
        6 => {
            cl.reader();
            cl.writer();
        }
        _ => drop(cl.write_all(&vec![9; 20_000])),
    })
}
pub fn kind_of(k: husk::tls_result::TlsErrorKind) -> Option<K> {
    use husk::tls_result::TlsErrorKind::*;
    Some(match k {
        UnexpectedMessage => K::Unexpected,
        BadRecordMac => K::Mac,
        RecordOverflow => K::Overflow,
        IllegalParameter => K::Illegal,
        DecodeError => K::Decode,
        DecryptError => K::Decrypt,
        AlertReceived => K::Alert,
        IoFailure => K::Io,
        InternalError => return None,
    })
}
/// Run a handshake over the given transport; the entropy must have been set.
pub fn connect(net: &Shared<Server>) -> Result<Result<Client, husk::tls_result::TlsError>, String> {
    crate::fw::guarded(|| husk::TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng))
}
/// An established connection with a conforming server.
pub fn open(cfg: &Cfg, entropy: u64) -> Result<(Shared<Server>, Client), String> {
    getrandom::set_entropy(&[], entropy);
    let net = Net::new(Server::new(cfg.clone()));
    match connect(&net)? {
        Ok(c) => {
            net.net().pump();
            Ok((net, c))
        }
        Err(e) => Err(format!("handshake with a conforming server failed: {e:?}")),
    }
}
