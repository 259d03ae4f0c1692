use husk::alert::Alert;
use husk::cipher::ecdhe as ec;
use husk::handshake as h;
use husk::signature as sg;
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::tls_result::TlsResult;
use hv::fw::*;
use hv::gen::*;
use hv::wgen::*;
use hv::wire::{self, *};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Val {
    Msg(Msg),
    Ext(Ext),
    Exts(Vec<Ext>),
    Alert(u8, u8),
    Ske(Ske),
    Certs(Vec<Hex>),
    CertReq(CertReq),
    Curve(Hex, Hex),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    v: Val,
    tail: Hex,
}
fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        12 => msg_strat(false).prop_map(Val::Msg),
        4 => ext_strat().prop_map(Val::Ext),
        2 => exts_strat().prop_map(Val::Exts),
        2 => (1u8..=2, proptest::sample::select(KNOWN_ALERTS.to_vec())).prop_map(|(a, b)| Val::Alert(a, b)),
        3 => ske_strat().prop_map(Val::Ske),
        1 => certs_strat().prop_map(Val::Certs),
        1 => certreq().prop_map(Val::CertReq),
        1 => (bytes(1..255usize), bytes(1..40usize)).prop_map(|(a, b)| Val::Curve(a, b)),
        1 => any::<u8>().prop_map(Val::U8),
        1 => any::<u16>().prop_map(Val::U16),
        1 => any::<u32>().prop_map(Val::U32),
        1 => any::<u64>().prop_map(Val::U64),
    ]
    .boxed()
}
fn one<T: TlsItem>(what: &str, v: TlsResult<T>, want: &[u8], tail: &[u8], same: impl Fn(&T) -> bool) -> R {
    let v = v.map_err(|e| format!("{what}: cannot be built: {e:?}"))?;
    if !same(&v) {
        return Err(format!("{what}: the built value does not hold what it was given"));
    }
    let mut got = b"#".to_vec();
    v.tls_write(&mut got).map_err(|e| format!("{what}: cannot be written: {e:?}"))?;
    if got[0] != b'#' || got[1..] != *want {
        let k = got[1..].iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len() + 1) - 1);
        return Err(format!("{what}: wrote {} bytes, the wire format is {} bytes, first difference at {k}", got.len() - 1, want.len()));
    }
    if v.tls_size() != want.len() as u64 {
        return Err(format!("{what}: size reported {}, written {}", v.tls_size(), want.len()));
    }
    let mut all = want.to_vec();
    all.extend_from_slice(tail);
    let mut rd = &all[..];
    let back = T::tls_read(&mut rd).map_err(|e| format!("{what}: own encoding refused: {e:?}"))?;
    if rd.len() != tail.len() {
        return Err(format!("{what}: decoding consumed {} bytes of {}", all.len() - rd.len(), want.len()));
    }
    if !same(&back) {
        return Err(format!("{what}: decoding gives another value"));
    }
    Ok(())
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    ctx.nt();
    let t = &c.tail[..];
    match &c.v {
        Val::Msg(m) => {
            let (ty, b) = body(m);
            ctx.label(format!("message {ty}"));
            let w = wire::msg(m);
            // a message is decoded from exactly its own bytes
            one("message", to_msg(m), &w, &[], |x| of_msg(x) == *m)?;
            match m {
                Msg::ClientHello(_) | Msg::ServerHello(_) => {
                    let x = to_msg(m).map_err(|e| format!("{e:?}"))?;
                    let (e, s) = match &x {
                        h::Handshake::client_hello(x) => (enc(x), x.tls_size()),
                        h::Handshake::server_hello(x) => (enc(x), x.tls_size()),
                        _ => unreachable!(),
                    };
                    if e.map_err(|e| format!("{e:?}"))? != b || s != b.len() as u64 {
                        return Err("hello body differs from the message body".into());
                    }
                }
                Msg::ServerKeyExchange(x) => one("opaque", Ok(ObscureData::new(x.0.clone())), &b, &[], |v| v[..] == x[..])?,
                Msg::Finished(x) => one("verify data", h::VerifyData::new(x.0.clone()), &b, t, |v| v[..] == x[..])?,
                Msg::ServerHelloDone => one("empty", Ok(DummyItem), &[], t, |_| true)?,
                _ => {}
            }
            // through the reassembly buffer
            let mut hb = h::HandshakeBuffer::new();
            hb.add_record(&w);
            match hb.get_message() {
                Ok(Some(x)) if of_msg(&x) == *m => {}
                Ok(Some(_)) => return Err("reassembly gives another message".into()),
                Ok(None) => return Err("reassembly does not see the complete message".into()),
                Err(e) => return Err(format!("reassembly refuses the message: {e:?}")),
            }
        }
        Val::Ext(e) => {
            ctx.label("extension");
            one("extension", to_ext(e), &ext(e), t, |x| of_ext(x) == *e)?
        }
        Val::Exts(e) => one("extension list", to_exts(e), &exts(e), t, |x| of_exts(x) == *e)?,
        Val::Alert(l, d) => one("alert", to_alert((*l, *d)), &[*l, *d], t, |x: &Alert| (of_level(x.level), of_desc(x.description)) == (*l, *d))?,
        Val::Ske(k) => {
            ctx.label("server key exchange");
            one("ecdh parameters", to_ecdh(k), &ecdh_params(k), t, |x| of_ecdh(x) == (k.curve, k.point.clone()))?;
            one("signature", to_signed(k), &signed(k.alg, &k.sig), t, |x| of_alg(&x.algorithm) == k.alg && x.signature[..] == k.sig[..])?;
            one("server key exchange", to_ske(k), &ske(k), t, |x| {
                of_ecdh(&x.params) == (k.curve, k.point.clone()) && of_alg(&x.signed_params.algorithm) == k.alg && x.signed_params.signature[..] == k.sig[..]
            })?;
        }
        Val::Certs(v) => one("certificate list", to_certs(v), &certs(v), t, |x| of_certs(x) == *v)?,
        Val::CertReq(r) => one("certificate request", to_certreq(r), &body(&Msg::CertificateRequest(r.clone())).1, t, |x| of_certreq(x) == *r)?,
        Val::Curve(a, b) => {
            let mut w = vec![a.len() as u8];
            w.extend_from_slice(a);
            w.push(b.len() as u8);
            w.extend_from_slice(b);
            let v = ec::EcData::new(a.0.clone()).and_then(|a| Ok(ec::EcCurve { a, b: ec::EcData::new(b.0.clone())? }));
            one("curve", v, &w, t, |x| x.a[..] == a[..] && x.b[..] == b[..])?
        }
        Val::U8(x) => one("u8", Ok(*x), &[*x], t, |v| v == x)?,
        Val::U16(x) => one("u16", Ok(*x), &x.to_be_bytes(), t, |v| v == x)?,
        Val::U32(x) => one("u32", Ok(*x), &x.to_be_bytes(), t, |v| v == x)?,
        Val::U64(x) => one("u64", Ok(*x), &x.to_be_bytes(), t, |v| v == x)?,
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ limits

#[derive(Clone, Copy, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum Lim {
    Sid,
    Suites,
    Comps,
    Curves,
    Formats,
    SigAlgs,
    Signature,
    Ec,
    Cert,
    CertTypes,
    Dn,
    Dns,
    Exts,
    Random,
    Verify,
}
const LIMS: &[Lim] = &[
    Lim::Sid,
    Lim::Suites,
    Lim::Comps,
    Lim::Curves,
    Lim::Formats,
    Lim::SigAlgs,
    Lim::Signature,
    Lim::Ec,
    Lim::Cert,
    Lim::CertTypes,
    Lim::Dn,
    Lim::Dns,
    Lim::Exts,
    Lim::Random,
    Lim::Verify,
];
impl Lim {
    /// lower and upper limit in bytes, bytes per item
    fn of(self) -> (usize, usize, usize) {
        match self {
            Lim::Sid => (0, 32, 1),
            Lim::Suites => (2, 65534, 2),
            Lim::Comps => (1, 255, 1),
            Lim::Curves => (1, 65535, 2),
            Lim::Formats => (1, 255, 1),
            Lim::SigAlgs => (2, 65534, 2),
            Lim::Signature => (0, 65535, 1),
            Lim::Ec => (1, 255, 1),
            Lim::Cert => (1, (1 << 24) - 1, 1),
            Lim::CertTypes => (1, 255, 1),
            Lim::Dn => (1, 65535, 1),
            Lim::Dns => (0, 65535, 5),
            Lim::Exts => (0, 65535, 5),
            Lim::Random => (32, 32, 1),
            Lim::Verify => (12, 12, 1),
        }
    }
    fn build(self, n: usize) -> TlsResult<Vec<u8>> {
        match self {
            Lim::Sid => enc(&h::SessionId::new(vec![1; n])?),
            Lim::Suites => enc(&h::CipherSuiteVec::new(vec![husk::cipher::CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256; n])?),
            Lim::Comps => enc(&h::CompressionMethodVec::new(vec![h::CompressionMethod::DEFLATE; n])?),
            Lim::Curves => enc(&h::EllipticCurveList::new(vec![to_curve(0xff01); n])?),
            Lim::Formats => enc(&h::ECPointFormatList::new(vec![h::ECPointFormat::uncompressed; n])?),
            Lim::SigAlgs => enc(&to_sigalgs(&vec![(4, 1); n])?),
            Lim::Signature => enc(&sg::Signature::new(vec![9; n])?),
            Lim::Ec => enc(&ec::EcData::new(vec![9; n])?),
            Lim::Cert => enc(&h::Asn1Cert::new(vec![9; n])?),
            Lim::CertTypes => enc(&h::CertificiateTypeVec::new((0..n).map(|_| h::ClientCertificateType::rsa_sign).collect())?),
            Lim::Dn => enc(&h::DistinguishedName::new(vec![9; n])?),
            Lim::Dns => enc(&h::DistinguishedNameVec::new((0..n).map(|_| h::DistinguishedName::new(vec![1, 2, 3])).collect::<TlsResult<_>>()?)?),
            Lim::Exts => enc(&h::ExtensionVec::new((0..n).map(|_| h::Extension::Unknown(7, vec![5])).collect())?),
            Lim::Random => enc(&h::Random::new(vec![1; n])?),
            Lim::Verify => enc(&h::VerifyData::new(vec![1; n])?),
        }
    }
    fn want(self, n: usize) -> Vec<u8> {
        let b: Vec<u8> = match self {
            Lim::Sid | Lim::Comps | Lim::CertTypes | Lim::Random | Lim::Verify => vec![1; n],
            Lim::Suites => [0xcc, 0xa8].repeat(n),
            Lim::Curves => [0xff, 1].repeat(n),
            Lim::Formats => vec![0; n],
            Lim::SigAlgs => [4, 1].repeat(n),
            Lim::Signature | Lim::Ec | Lim::Cert | Lim::Dn => vec![9; n],
            Lim::Dns => [0, 3, 1, 2, 3].repeat(n),
            Lim::Exts => [0, 7, 0, 1, 5].repeat(n),
        };
        let mut o = match self {
            Lim::Random | Lim::Verify => vec![],
            Lim::Sid | Lim::Comps | Lim::CertTypes | Lim::Formats | Lim::Ec => vec![b.len() as u8],
            Lim::Cert => u24v(b.len()).to_vec(),
            _ => u16v(b.len()).to_vec(),
        };
        o.extend(b);
        o
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LimCase {
    lim: Lim,
    items: u32,
}
fn lim_strat() -> BoxedStrategy<LimCase> {
    proptest::sample::select(LIMS.to_vec())
        .prop_flat_map(|lim| {
            let (lo, hi, per) = lim.of();
            let (l, u) = ((lo / per) as i64, (hi / per) as i64);
            let wide = if lim == Lim::Cert { Just(u).boxed() } else { (0..=(u * 3 + 70_000).min(200_000)).boxed() };
            let top = if lim == Lim::Cert { prop_oneof![40 => (0i64..4000).boxed(), 1 => (u - 1..=u + 2).boxed()].boxed() } else { (u - 3..=u + 3).boxed() };
            let tens = if lim == Lim::Cert { Just(65536i64).boxed() } else { proptest::sample::select(vec![255i64, 256, 257, 65535, 65536, 65537, 131072]).boxed() };
            prop_oneof![6 => top, 3 => (l - 2..=l + 3), 1 => tens, 1 => if lim == Lim::Cert { (0i64..400).boxed() } else { wide }]
                .prop_map(move |n| LimCase { lim, items: n.max(0) as u32 })
        })
        .boxed()
}
fn lim_check(c: &LimCase, ctx: &mut Ctx) -> R {
    let (lo, hi, per) = c.lim.of();
    let size = c.items as usize * per;
    let ok = size >= lo && size <= hi;
    ctx.label(if ok { "within" } else { "outside" });
    ctx.nt();
    match (c.lim.build(c.items as usize), ok) {
        (Ok(got), true) => {
            if got != c.lim.want(c.items as usize) {
                return Err(format!("{:?} of {size} bytes is written wrongly", c.lim));
            }
            Ok(())
        }
        (Err(_), false) => Ok(()),
        (Ok(_), false) => Err(format!("{:?} of {size} bytes is outside {lo}..={hi} and was not refused", c.lim)),
        (Err(e), true) => Err(format!("{:?} of {size} bytes is within {lo}..={hi} and was refused: {e:?}", c.lim)),
    }
}

// ---------------------------------------------------------------------- length fields that overflow

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Big {
    ExtCurves(u32),
    ExtSigAlgs(u32),
    ExtUnknown(u32),
    /// the extension inside a list of its own
    Listed(u32),
    /// handshake bodies next to 2^24 bytes
    Ske(u32),
    Certs(u32, u8),
}
fn big_strat() -> BoxedStrategy<Big> {
    let m = 1u32 << 24;
    prop_oneof![
        20 => (32760u32..32769).prop_map(Big::ExtCurves),
        20 => (32760u32..32769).prop_map(Big::ExtSigAlgs),
        40 => prop_oneof![65530u32..65545, 65536u32..140_000].prop_map(Big::ExtUnknown),
        20 => (65525u32..65545).prop_map(Big::Listed),
        2 => (m - 3..m + 4).prop_map(Big::Ske),
        1 => (m - 16..m - 3, 1u8..3).prop_map(|(a, b)| Big::Certs(a, b)),
    ]
    .boxed()
}
fn big_check(c: &Big, ctx: &mut Ctx) -> R {
    // (what was written or refused, what the wire format is if it can be expressed at all)
    let (got, want): (TlsResult<Vec<u8>>, Option<Vec<u8>>) = match c {
        Big::ExtCurves(n) => {
            let e = Ext::Curves(vec![23; *n as usize]);
            (to_ext(&e).and_then(|x| enc(&x)), if 2 + 2 * n <= 65535 { Some(ext(&e)) } else { None })
        }
        Big::ExtSigAlgs(n) => {
            let e = Ext::SigAlgs(vec![(4, 1); *n as usize]);
            (to_ext(&e).and_then(|x| enc(&x)), if 2 + 2 * n <= 65535 { Some(ext(&e)) } else { None })
        }
        Big::ExtUnknown(n) => {
            let e = Ext::Unknown(99, Hex(vec![3; *n as usize]));
            (to_ext(&e).and_then(|x| enc(&x)), if *n <= 65535 { Some(ext(&e)) } else { None })
        }
        Big::Listed(n) => {
            let e = vec![Ext::Unknown(99, Hex(vec![3; *n as usize]))];
            (to_exts(&e).and_then(|x| enc(&x)), if *n + 4 <= 65535 { Some(exts(&e)) } else { None })
        }
        Big::Ske(n) => {
            let m = Msg::ServerKeyExchange(Hex(vec![3; *n as usize]));
            (to_msg(&m).and_then(|x| enc(&x)), if *n < 1 << 24 { Some(wire::msg(&m)) } else { None })
        }
        Big::Certs(n, k) => {
            let mut v = vec![Hex(vec![3; *n as usize - 4 * (*k as usize - 1)])];
            v.extend((1..*k).map(|_| Hex(vec![5; 1])));
            let data: usize = v.iter().map(|c| c.len() + 3).sum();
            let m = Msg::Certificate(v);
            (to_msg(&m).and_then(|x| enc(&x)), if data + 3 < 1 << 24 { Some(wire::msg(&m)) } else { None })
        }
    };
    ctx.nt();
    ctx.label(if want.is_some() { "fits" } else { "does not fit" });
    match (got, want) {
        (Ok(g), Some(w)) if g == w => Ok(()),
        (Ok(_), Some(_)) => Err("written wrongly".into()),
        (Err(e), Some(_)) => Err(format!("refused although it fits: {e:?}")),
        (Err(_), None) => Ok(()),
        (Ok(g), None) => Err(format!("a body too long for its length field was written with a wrong length ({} bytes in all)", g.len())),
    }
}

fn main() {
    hv::fw::main(Property {
        id: "C10",
        assumptions: &["cipher suites husk does not implement cannot be written by it and are not generated here"],
        facets: vec![
            facet(Facet {
                name: "values",
                rule: "values of every wire type with field sizes from 0 to the limits; non-trivial: every case",
                quick: 1_600_000,
                thorough: 80_000_000,
                shrink: 3000,
                strategy: || (val(), bytes(0..4usize)).prop_map(|(v, tail)| Case { v, tail }).boxed(),
                check,
            }),
            facet(Facet {
                name: "limits",
                rule: "vectors with a number of items next to the lower or upper limit or to a power of 256; non-trivial: every case",
                quick: 120_000,
                thorough: 6_000_000,
                shrink: 200,
                strategy: lim_strat,
                check: lim_check,
            }),
            facet(Facet {
                name: "length-fields",
                rule: "extensions next to 2^16 and handshake bodies next to 2^24 bytes; non-trivial: every case",
                quick: 16_000,
                thorough: 800_000,
                shrink: 100,
                strategy: big_strat,
                check: big_check,
            }),
        ],
    })
}
