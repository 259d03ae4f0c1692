//! TLS 1.2 wire format written from RFC 5246 / RFC 4492, independent of husk: an encoder for a
//! plain data model and a strict recogniser.
use crate::gen::Hex;
use serde::{Deserialize, Serialize};

pub const SUITE: (u8, u8) = (0xcc, 0xa8);
pub const KNOWN_ALERTS: &[u8] = &[
    0, 10, 20, 21, 22, 30, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 60, 70, 71, 80, 90, 100, 110, 111, 112, 113, 114,
];
pub const KNOWN_CERT_TYPES: &[u8] = &[1, 2, 3, 4, 5, 6, 20];
pub fn known_curve(c: u16) -> bool {
    (1..=25).contains(&c) || c == 0xff01 || c == 0xff02
}
pub fn known_format(c: u8) -> bool {
    c <= 2
}
pub fn known_hash(c: u8) -> bool {
    c <= 6
}
pub fn known_sig(c: u8) -> bool {
    c <= 3
}
pub fn known_compression(c: u8) -> bool {
    c <= 1
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ext {
    Curves(Vec<u16>),
    Formats(Vec<u8>),
    SigAlgs(Vec<(u8, u8)>),
    Unknown(u16, Hex),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct CHello {
    pub ver: (u8, u8),
    pub random: Hex,
    pub sid: Hex,
    pub suites: Vec<(u8, u8)>,
    pub comps: Vec<u8>,
    pub exts: Option<Vec<Ext>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SHello {
    pub ver: (u8, u8),
    pub random: Hex,
    pub sid: Hex,
    pub suite: (u8, u8),
    pub comp: u8,
    pub exts: Option<Vec<Ext>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct CertReq {
    pub types: Vec<u8>,
    pub sigs: Vec<(u8, u8)>,
    pub names: Vec<Hex>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ske {
    pub curve: u16,
    pub point: Hex,
    pub alg: (u8, u8),
    pub sig: Hex,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Msg {
    HelloRequest,
    ClientHello(CHello),
    ServerHello(SHello),
    Certificate(Vec<Hex>),
    ServerKeyExchange(Hex),
    CertificateRequest(CertReq),
    ServerHelloDone,
    ClientKeyExchange(Hex),
    Finished(Hex),
}

// ---------------------------------------------------------------- encoding

pub fn u16v(n: usize) -> [u8; 2] {
    [(n >> 8) as u8, n as u8]
}
pub fn u24v(n: usize) -> [u8; 3] {
    [(n >> 16) as u8, (n >> 8) as u8, n as u8]
}
fn vec8(o: &mut Vec<u8>, b: &[u8]) {
    o.push(b.len() as u8);
    o.extend_from_slice(b);
}
fn vec16(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&u16v(b.len()));
    o.extend_from_slice(b);
}
fn vec24(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&u24v(b.len()));
    o.extend_from_slice(b);
}
pub fn pairs(v: &[(u8, u8)]) -> Vec<u8> {
    v.iter().flat_map(|(a, b)| [*a, *b]).collect()
}
pub fn curves(v: &[u16]) -> Vec<u8> {
    v.iter().flat_map(|a| a.to_be_bytes()).collect()
}
pub fn ext(e: &Ext) -> Vec<u8> {
    let mut body = Vec::new();
    let ty = match e {
        Ext::Curves(c) => {
            vec16(&mut body, &curves(c));
            10
        }
        Ext::Formats(f) => {
            vec8(&mut body, f);
            11
        }
        Ext::SigAlgs(s) => {
            vec16(&mut body, &pairs(s));
            13
        }
        Ext::Unknown(t, b) => {
            body.extend_from_slice(b);
            *t
        }
    };
    let mut o = u16v(ty as usize).to_vec();
    vec16(&mut o, &body);
    o
}
pub fn exts(e: &[Ext]) -> Vec<u8> {
    let all: Vec<u8> = e.iter().flat_map(ext).collect();
    let mut o = Vec::new();
    vec16(&mut o, &all);
    o
}
pub fn ske(s: &Ske) -> Vec<u8> {
    let mut o = ecdh_params(s);
    o.extend(signed(s.alg, &s.sig));
    o
}
pub fn ecdh_params(s: &Ske) -> Vec<u8> {
    let mut o = vec![3];
    o.extend_from_slice(&s.curve.to_be_bytes());
    vec8(&mut o, &s.point);
    o
}
pub fn signed(alg: (u8, u8), sig: &[u8]) -> Vec<u8> {
    let mut o = vec![alg.0, alg.1];
    vec16(&mut o, sig);
    o
}
pub fn certs(c: &[Hex]) -> Vec<u8> {
    let mut all = Vec::new();
    for x in c {
        vec24(&mut all, x);
    }
    let mut o = Vec::new();
    vec24(&mut o, &all);
    o
}
pub fn body(m: &Msg) -> (u8, Vec<u8>) {
    let mut o = Vec::new();
    let ty = match m {
        Msg::HelloRequest => 0,
        Msg::ClientHello(c) => {
            o.extend_from_slice(&[c.ver.0, c.ver.1]);
            o.extend_from_slice(&c.random);
            vec8(&mut o, &c.sid);
            vec16(&mut o, &pairs(&c.suites));
            vec8(&mut o, &c.comps);
            if let Some(e) = &c.exts {
                o.extend(exts(e));
            }
            1
        }
        Msg::ServerHello(s) => {
            o.extend_from_slice(&[s.ver.0, s.ver.1]);
            o.extend_from_slice(&s.random);
            vec8(&mut o, &s.sid);
            o.extend_from_slice(&[s.suite.0, s.suite.1, s.comp]);
            if let Some(e) = &s.exts {
                o.extend(exts(e));
            }
            2
        }
        Msg::Certificate(c) => {
            o = certs(c);
            11
        }
        Msg::ServerKeyExchange(b) => {
            o.extend_from_slice(b);
            12
        }
        Msg::CertificateRequest(r) => {
            vec8(&mut o, &r.types);
            vec16(&mut o, &pairs(&r.sigs));
            let mut all = Vec::new();
            for n in &r.names {
                vec16(&mut all, n);
            }
            vec16(&mut o, &all);
            13
        }
        Msg::ServerHelloDone => 14,
        Msg::ClientKeyExchange(b) => {
            o.extend_from_slice(b);
            16
        }
        Msg::Finished(b) => {
            o.extend_from_slice(b);
            20
        }
    };
    (ty, o)
}
pub fn frame(ty: u8, b: &[u8]) -> Vec<u8> {
    let mut o = vec![ty];
    vec24(&mut o, b);
    o
}
pub fn msg(m: &Msg) -> Vec<u8> {
    let (t, b) = body(m);
    frame(t, &b)
}
pub fn record(ty: u8, ver: (u8, u8), b: &[u8]) -> Vec<u8> {
    let mut o = vec![ty, ver.0, ver.1];
    vec16(&mut o, b);
    o
}

// ---------------------------------------------------------------- strict parsing

pub struct P<'a> {
    pub d: &'a [u8],
    pub at: usize,
}
impl<'a> P<'a> {
    pub fn new(d: &'a [u8]) -> P<'a> {
        P { d, at: 0 }
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.d.len() - self.at < n {
            return None;
        }
        self.at += n;
        Some(&self.d[self.at - n..self.at])
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn num(&mut self, w: usize) -> Option<usize> {
        Some(self.take(w)?.iter().fold(0, |a, b| a << 8 | *b as usize))
    }
    /// A vector with a `w`-byte length between lo and hi.
    pub fn vec(&mut self, w: usize, lo: usize, hi: usize) -> Option<&'a [u8]> {
        let n = self.num(w)?;
        if n < lo || n > hi {
            return None;
        }
        self.take(n)
    }
    pub fn end(&self) -> bool {
        self.at == self.d.len()
    }
}
fn all_of<T>(d: &[u8], mut f: impl FnMut(&mut P) -> Option<T>) -> Option<Vec<T>> {
    let mut p = P::new(d);
    let mut v = Vec::new();
    while !p.end() {
        v.push(f(&mut p)?);
    }
    Some(v)
}
pub fn p_sigalgs(p: &mut P) -> Option<Vec<(u8, u8)>> {
    all_of(p.vec(2, 2, 65534)?, |p| p_alg(p))
}
pub fn p_alg(p: &mut P) -> Option<(u8, u8)> {
    let (h, s) = (p.u8()?, p.u8()?);
    if known_hash(h) && known_sig(s) {
        Some((h, s))
    } else {
        None
    }
}
pub fn p_curves(p: &mut P) -> Option<Vec<u16>> {
    all_of(p.vec(2, 1, 65535)?, |p| {
        let c = p.num(2)? as u16;
        if known_curve(c) {
            Some(c)
        } else {
            None
        }
    })
}
pub fn p_formats(p: &mut P) -> Option<Vec<u8>> {
    all_of(p.vec(1, 1, 255)?, |p| p.u8().filter(|c| known_format(*c)))
}
pub fn p_ext(p: &mut P) -> Option<Ext> {
    let ty = p.num(2)? as u16;
    let b = p.vec(2, 0, 65535)?;
    let mut q = P::new(b);
    let e = match ty {
        10 => Ext::Curves(p_curves(&mut q)?),
        11 => Ext::Formats(p_formats(&mut q)?),
        13 => Ext::SigAlgs(p_sigalgs(&mut q)?),
        _ => {
            q.at = b.len();
            Ext::Unknown(ty, Hex(b.to_vec()))
        }
    };
    if q.end() {
        Some(e)
    } else {
        None
    }
}
pub fn p_exts(p: &mut P) -> Option<Vec<Ext>> {
    all_of(p.vec(2, 0, 65535)?, p_ext)
}
fn p_opt_exts(p: &mut P) -> Option<Option<Vec<Ext>>> {
    if p.end() {
        return Some(None);
    }
    let e = p_exts(p)?;
    if p.end() {
        Some(Some(e))
    } else {
        None
    }
}
pub fn p_client_hello(p: &mut P) -> Option<CHello> {
    let ver = (p.u8()?, p.u8()?);
    let random = Hex(p.take(32)?.to_vec());
    let sid = Hex(p.vec(1, 0, 32)?.to_vec());
    let suites = all_of(p.vec(2, 2, 65534)?, |p| Some((p.u8()?, p.u8()?)))?;
    let comps = all_of(p.vec(1, 1, 255)?, |p| p.u8().filter(|c| known_compression(*c)))?;
    let exts = p_opt_exts(p)?;
    Some(CHello { ver, random, sid, suites, comps, exts })
}
pub fn p_server_hello(p: &mut P) -> Option<SHello> {
    let ver = (p.u8()?, p.u8()?);
    let random = Hex(p.take(32)?.to_vec());
    let sid = Hex(p.vec(1, 0, 32)?.to_vec());
    let suite = (p.u8()?, p.u8()?);
    let comp = p.u8().filter(|c| known_compression(*c))?;
    let exts = p_opt_exts(p)?;
    Some(SHello { ver, random, sid, suite, comp, exts })
}
pub fn p_certs(p: &mut P) -> Option<Vec<Hex>> {
    all_of(p.vec(3, 0, (1 << 24) - 1)?, |p| Some(Hex(p.vec(3, 1, (1 << 24) - 1)?.to_vec())))
}
pub fn p_cert_req(p: &mut P) -> Option<CertReq> {
    let types = all_of(p.vec(1, 1, 255)?, |p| p.u8().filter(|c| KNOWN_CERT_TYPES.contains(c)))?;
    let sigs = p_sigalgs(p)?;
    let names = all_of(p.vec(2, 0, 65535)?, |p| Some(Hex(p.vec(2, 1, 65535)?.to_vec())))?;
    Some(CertReq { types, sigs, names })
}
pub fn p_ecdh_params(p: &mut P) -> Option<(u16, Hex)> {
    if p.u8()? != 3 {
        return None;
    }
    let c = p.num(2)? as u16;
    if !known_curve(c) {
        return None;
    }
    Some((c, Hex(p.vec(1, 1, 255)?.to_vec())))
}
pub fn p_signed(p: &mut P) -> Option<((u8, u8), Hex)> {
    Some((p_alg(p)?, Hex(p.vec(2, 0, 65535)?.to_vec())))
}
pub fn p_ske(p: &mut P) -> Option<Ske> {
    let (curve, point) = p_ecdh_params(p)?;
    let (alg, sig) = p_signed(p)?;
    Some(Ske { curve, point, alg, sig })
}
pub fn p_alert(p: &mut P) -> Option<(u8, u8)> {
    let l = p.u8().filter(|l| *l == 1 || *l == 2)?;
    let d = p.u8().filter(|d| KNOWN_ALERTS.contains(d))?;
    Some((l, d))
}
pub enum Why {
    UnknownType,
    Malformed,
}
/// One complete handshake message (header included, nothing after it).
pub fn p_msg(d: &[u8]) -> Result<Msg, Why> {
    let mut p = P::new(d);
    let (Some(ty), Some(len)) = (p.u8(), p.num(3)) else { return Err(Why::Malformed) };
    if !matches!(ty, 0 | 1 | 2 | 11 | 12 | 13 | 14 | 16 | 20) {
        return Err(Why::UnknownType);
    }
    if d.len() - 4 != len {
        return Err(Why::Malformed);
    }
    let rest = |p: &mut P| {
        let v = Hex(p.d[p.at..].to_vec());
        p.at = p.d.len();
        v
    };
    let m = match ty {
        0 => Some(Msg::HelloRequest),
        1 => p_client_hello(&mut p).map(Msg::ClientHello),
        2 => p_server_hello(&mut p).map(Msg::ServerHello),
        11 => p_certs(&mut p).map(Msg::Certificate),
        12 => Some(Msg::ServerKeyExchange(rest(&mut p))),
        13 => p_cert_req(&mut p).map(Msg::CertificateRequest),
        14 => Some(Msg::ServerHelloDone),
        16 => Some(Msg::ClientKeyExchange(rest(&mut p))),
        _ => p.take(12).map(|b| Msg::Finished(Hex(b.to_vec()))),
    };
    match m {
        Some(m) if p.end() => Ok(m),
        _ => Err(Why::Malformed),
    }
}
/// Split a byte stream into complete records (type, version, body); the rest is returned too.
pub fn split_records(d: &[u8]) -> (Vec<(u8, (u8, u8), Vec<u8>)>, usize) {
    let mut v = Vec::new();
    let mut at = 0;
    while d.len() - at >= 5 {
        let n = (d[at + 3] as usize) << 8 | d[at + 4] as usize;
        if d.len() - at - 5 < n {
            break;
        }
        v.push((d[at], (d[at + 1], d[at + 2]), d[at + 5..at + 5 + n].to_vec()));
        at += 5 + n;
    }
    (v, at)
}
