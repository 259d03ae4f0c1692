//! Generators for the wire model, byte-string edits, and the translation between the wire model
//! and husk's own types.
use crate::gen::*;
use crate::wire::*;
use husk::alert::{Alert, AlertDescription, AlertLevel};
use husk::cipher::ecdhe::{EcData, EcParameters, EcdheServerKeyExchange, ServerEcdhParams};
use husk::cipher::CipherSuite;
use husk::handshake as h;
use husk::signature as s;
use husk::tls_item::{DummyItem, ObscureData, TlsItem};
use husk::tls_result::TlsResult;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn curve() -> BoxedStrategy<u16> {
    prop_oneof![3 => 1u16..=25, 1 => Just(0xff01u16), 1 => Just(0xff02u16), 2 => Just(23u16)].boxed()
}
pub fn alg() -> BoxedStrategy<(u8, u8)> {
    prop_oneof![1 => Just((4u8, 1u8)), 2 => (0u8..=6, 0u8..=3)].boxed()
}
/// Mostly short, sometimes up to `max`, sometimes right at the limit.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![12 => 0..=max.min(6), 4 => 0..=max.min(60), 2 => 0..=max.min(700), 1 => 0usize..=3].prop_map(move |n| n.min(max)).boxed()
}
fn limit(min: usize, max: usize) -> BoxedStrategy<usize> {
    let s = prop_oneof![
        30 => size(max),
        2 => (0usize..3).prop_map(move |d| max - d.min(max)),
        1 => min..=max,
    ]
    .prop_map(move |n| n.clamp(min, max));
    crate::lits::spice(s.boxed())
}
fn bulk(min: usize, max: usize) -> BoxedStrategy<Hex> {
    (limit(min, max), blob_kind(), any::<u32>()).prop_map(|(len, kind, seed)| Hex(Blob { len: len as u32, kind, seed }.expand())).boxed()
}
fn many<T: Clone + std::fmt::Debug + 'static>(min: usize, max: usize, item: BoxedStrategy<T>) -> BoxedStrategy<Vec<T>> {
    // long lists repeat a few generated items
    (limit(min, max), vec(item, 1..5usize)).prop_map(|(n, base)| (0..n).map(|i| base[i % base.len()].clone()).collect()).boxed()
}
pub fn ext_strat() -> BoxedStrategy<Ext> {
    prop_oneof![
        2 => many(1, 32766, curve()).prop_map(Ext::Curves),
        2 => many(1, 254, (0u8..=2).boxed()).prop_map(Ext::Formats),
        2 => many(1, 32766, alg()).prop_map(Ext::SigAlgs),
        3 => (any::<u16>().prop_filter("known", |t| ![10, 11, 13].contains(t)), bulk(0, 65535)).prop_map(|(t, b)| Ext::Unknown(t, b)),
        1 => (prop_oneof![Just(0u16), Just(12u16), Just(9u16), Just(14u16), Just(0xff01u16), Just(0x0b0bu16)], bulk(0, 300)).prop_map(|(t, b)| Ext::Unknown(t, b)),
    ]
    .boxed()
}
/// An extension list whose total stays below 2^16.
pub fn exts_strat() -> BoxedStrategy<Vec<Ext>> {
    vec(ext_strat(), 0..5usize)
        .prop_map(|v| {
            let mut total = 0;
            v.into_iter()
                .filter(|e| {
                    let n = ext(e).len();
                    let keep = total + n <= 65535;
                    if keep {
                        total += n;
                    }
                    keep
                })
                .collect()
        })
        .boxed()
}
pub fn opt_exts() -> BoxedStrategy<Option<Vec<Ext>>> {
    prop_oneof![1 => Just(None), 1 => Just(Some(vec![])), 4 => exts_strat().prop_map(Some)].boxed()
}
pub fn ver() -> BoxedStrategy<(u8, u8)> {
    prop_oneof![4 => Just((3u8, 3u8)), 2 => (0u8..5, 0u8..6), 1 => any::<(u8, u8)>()].boxed()
}
/// `unknown`: whether suites husk does not implement may appear (it cannot write those).
pub fn suite(unknown: bool) -> BoxedStrategy<(u8, u8)> {
    if unknown {
        prop_oneof![6 => Just(SUITE), 1 => any::<(u8, u8)>(), 1 => Just((0xcc, 0xa9)), 1 => Just((0, 0xff))].boxed()
    } else {
        Just(SUITE).boxed()
    }
}
pub fn chello(unknown: bool) -> BoxedStrategy<CHello> {
    (ver(), keyish(32), bulk(0, 32), many(1, 32767, suite(unknown)), many(1, 255, (0u8..=1).boxed()), opt_exts())
        .prop_map(|(ver, random, sid, suites, comps, exts)| CHello { ver, random, sid, suites, comps, exts })
        .boxed()
}
pub fn shello(unknown: bool) -> BoxedStrategy<SHello> {
    (ver(), keyish(32), bulk(0, 32), suite(unknown), 0u8..=1, opt_exts())
        .prop_map(|(ver, random, sid, suite, comp, exts)| SHello { ver, random, sid, suite, comp, exts })
        .boxed()
}
pub fn certs_strat() -> BoxedStrategy<Vec<Hex>> {
    vec(prop_oneof![20 => bulk(1, 70_000), 1 => bulk(65_000, 66_000)], 0..5usize).boxed()
}
pub fn certreq() -> BoxedStrategy<CertReq> {
    (many(1, 255, proptest::sample::select(KNOWN_CERT_TYPES.to_vec()).boxed()), many(1, 32767, alg()), vec(bulk(1, 20_000), 0..4usize))
        .prop_map(|(types, sigs, names)| {
            let mut t = 0;
            let names = names
                .into_iter()
                .filter(|n: &Hex| {
                    t += n.len() + 2;
                    t <= 65535
                })
                .collect();
            CertReq { types, sigs, names }
        })
        .boxed()
}
pub fn ske_strat() -> BoxedStrategy<Ske> {
    (curve(), bulk(1, 255), alg(), bulk(0, 65535)).prop_map(|(curve, point, alg, sig)| Ske { curve, point, alg, sig }).boxed()
}
pub fn msg_strat(unknown: bool) -> BoxedStrategy<Msg> {
    prop_oneof![
        1 => Just(Msg::HelloRequest),
        4 => chello(unknown).prop_map(Msg::ClientHello),
        4 => shello(unknown).prop_map(Msg::ServerHello),
        2 => certs_strat().prop_map(Msg::Certificate),
        1 => bulk(0, 66_000).prop_map(Msg::ServerKeyExchange),
        1 => ske_strat().prop_map(|k| Msg::ServerKeyExchange(Hex(ske(&k)))),
        3 => certreq().prop_map(Msg::CertificateRequest),
        1 => Just(Msg::ServerHelloDone),
        1 => bulk(0, 300).prop_map(Msg::ClientKeyExchange),
        1 => keyish(12).prop_map(Msg::Finished),
    ]
    .boxed()
}

// ---------------------------------------------------------------- edits

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Edit {
    Flip(u32),
    Set(u32, u8),
    /// add to one byte (lengths are bytes)
    Add(u32, i8),
    /// the same near the start, where the headers are
    AddAt(u8, i8),
    SetAt(u8, u8),
    Truncate(u32),
    Append(Hex),
    Insert(u32, Hex),
    Delete(u32, u8),
    Repeat(u32, u8),
}
pub fn edit() -> BoxedStrategy<Edit> {
    let small = prop_oneof![Just(1i8), Just(-1i8), Just(2i8), Just(-2i8), any::<i8>()].boxed();
    prop_oneof![
        3 => any::<u32>().prop_map(Edit::Flip),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)),
        3 => (any::<u32>(), small.clone()).prop_map(|(a, b)| Edit::Add(a, b)),
        4 => (0u8..60, small).prop_map(|(a, b)| Edit::AddAt(a, b)),
        3 => (0u8..60, prop_oneof![2 => 0u8..8, 1 => any::<u8>()]).prop_map(|(a, b)| Edit::SetAt(a, b)),
        2 => any::<u32>().prop_map(Edit::Truncate),
        1 => bytes(1..5usize).prop_map(Edit::Append),
        2 => (any::<u32>(), bytes(1..4usize)).prop_map(|(a, b)| Edit::Insert(a, b)),
        2 => (any::<u32>(), 1u8..4).prop_map(|(a, b)| Edit::Delete(a, b)),
        1 => (any::<u32>(), 1u8..8).prop_map(|(a, b)| Edit::Repeat(a, b)),
    ]
    .boxed()
}
pub fn edits() -> BoxedStrategy<Vec<Edit>> {
    prop_oneof![2 => Just(vec![]), 6 => vec(edit(), 1..2usize), 3 => vec(edit(), 2..5usize)].boxed()
}
pub fn apply(e: &[Edit], v: &mut Vec<u8>) {
    for e in e {
        let n = v.len();
        match e {
            Edit::Flip(k) if n > 0 => {
                let k = pick(*k, n * 8);
                v[k / 8] ^= 1 << (k % 8);
            }
            Edit::Set(k, b) if n > 0 => v[pick(*k, n)] = *b,
            Edit::Add(k, d) if n > 0 => {
                let k = pick(*k, n);
                v[k] = v[k].wrapping_add(*d as u8);
            }
            Edit::AddAt(k, d) if (*k as usize) < n => v[*k as usize] = v[*k as usize].wrapping_add(*d as u8),
            Edit::SetAt(k, b) if (*k as usize) < n => v[*k as usize] = *b,
            Edit::Truncate(k) => v.truncate(pick(*k, n)),
            Edit::Append(b) => v.extend_from_slice(b),
            Edit::Insert(k, b) => {
                let k = pick(*k, n + 1);
                v.splice(k..k, b.iter().copied());
            }
            Edit::Delete(k, c) if n > 0 => {
                let k = pick(*k, n);
                let e = (k + *c as usize).min(n);
                v.drain(k..e);
            }
            Edit::Repeat(k, c) if n > 0 => {
                let k = pick(*k, n);
                let e = (k + *c as usize).min(n);
                let part = v[k..e].to_vec();
                v.splice(e..e, part);
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- codes, by name
// Written out, so that a code that changes in husk shows as a wrong encoding.

macro_rules! codes {
    ($to:ident, $of:ident, $ty:ty, $num:ty, $($name:ident = $n:literal),+ $(,)?) => {
        pub fn $to(c: $num) -> $ty {
            match c {
                $($n => <$ty>::$name,)+
                _ => panic!("model: no code {c} in {}", stringify!($ty)),
            }
        }
        #[allow(unreachable_patterns)]
        pub fn $of(v: $ty) -> $num {
            match v {
                $(<$ty>::$name => $n,)+
                _ => v as $num,
            }
        }
    };
}
codes!(to_hash, of_hash, s::HashAlgorithm, u8,
    none = 0, md5 = 1, sha1 = 2, sha224 = 3, sha256 = 4, sha384 = 5, sha512 = 6,
);
codes!(to_sig, of_sig, s::SignatureAlgorithm, u8,
    anonymous = 0, rsa = 1, dsa = 2, ecdsa = 3,
);
codes!(to_curve, of_curve, h::NamedCurve, u16,
    sect163k1 = 1, sect163r1 = 2, sect163r2 = 3, sect193r1 = 4, sect193r2 = 5, sect233k1 = 6, sect233r1 = 7,
    sect239k1 = 8, sect283k1 = 9, sect283r1 = 10, sect409k1 = 11, sect409r1 = 12, sect571k1 = 13,
    sect571r1 = 14, secp160k1 = 15, secp160r1 = 16, secp160r2 = 17, secp192k1 = 18, secp192r1 = 19,
    secp224k1 = 20, secp224r1 = 21, secp256k1 = 22, secp256r1 = 23, secp384r1 = 24, secp521r1 = 25,
    arbitrary_explicit_prime_curves = 0xFF01, arbitrary_explicit_char2_curves = 0xFF02,
);
codes!(to_format, of_format, h::ECPointFormat, u8,
    uncompressed = 0, ansiX962_compressed_prime = 1, ansiX962_compressed_char2 = 2,
);
codes!(to_comp, of_comp, h::CompressionMethod, u8,
    null = 0, DEFLATE = 1,
);
codes!(to_cert_type, of_cert_type, h::ClientCertificateType, u8,
    rsa_sign = 1, dss_sign = 2, rsa_fixed_dh = 3, dss_fixed_dh = 4, rsa_ephemeral_dh_RESERVED = 5,
    dss_ephemeral_dh_RESERVED = 6, fortezza_dms_RESERVED = 20,
);
codes!(to_level, of_level, AlertLevel, u8,
    warning = 1, fatal = 2,
);
codes!(to_desc, of_desc, AlertDescription, u8,
    close_notify = 0, unexpected_message = 10, bad_record_mac = 20, decryption_failed_RESERVED = 21,
    record_overflow = 22, decompression_failure = 30, handshake_failure = 40, no_certificate_RESERVED = 41,
    bad_certificate = 42, unsupported_certificate = 43, certificate_revoked = 44, certificate_expired = 45,
    certificate_unknown = 46, illegal_parameter = 47, unknown_ca = 48, access_denied = 49, decode_error = 50,
    decrypt_error = 51, export_restriction_RESERVED = 60, protocol_version = 70, insufficient_security = 71,
    internal_error = 80, user_canceled = 90, no_renegotiation = 100, unsupported_extension = 110,
    certificate_unobtainable = 111, unrecognized_name = 112, bad_certificate_status_response = 113,
    bad_certificate_hash_value = 114,
);

// ---------------------------------------------------------------- model -> husk

pub fn to_alg(a: (u8, u8)) -> s::SignatureAndHashAlgorithm {
    s::SignatureAndHashAlgorithm { hash: to_hash(a.0), signature: to_sig(a.1) }
}
pub fn to_sigalgs(v: &[(u8, u8)]) -> TlsResult<s::SignatureAndHashAlgorithmVec> {
    s::SignatureAndHashAlgorithmVec::new(v.iter().map(|a| to_alg(*a)).collect())
}
pub fn to_ext(e: &Ext) -> TlsResult<h::Extension> {
    Ok(match e {
        Ext::Curves(c) => h::Extension::new_elliptic_curve_list(c.iter().map(|c| to_curve(*c)).collect())?,
        Ext::Formats(f) => h::Extension::new_ec_point_formats(f.iter().map(|f| to_format(*f)).collect())?,
        Ext::SigAlgs(a) => h::Extension::new_signature_algorithm_list(a.iter().map(|a| to_alg(*a)).collect())?,
        Ext::Unknown(t, b) => h::Extension::Unknown(*t, b.0.clone()),
    })
}
pub fn to_exts(e: &[Ext]) -> TlsResult<h::ExtensionVec> {
    h::ExtensionVec::new(e.iter().map(to_ext).collect::<TlsResult<_>>()?)
}
fn to_opt(e: &Option<Vec<Ext>>) -> TlsResult<Option<h::ExtensionVec>> {
    match e {
        None => Ok(None),
        Some(v) => to_exts(v).map(Some),
    }
}
fn to_suite(s: (u8, u8)) -> CipherSuite {
    if s == SUITE {
        CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
    } else {
        CipherSuite::UnknownCipherSuite
    }
}
pub fn to_certs(c: &[Hex]) -> TlsResult<h::CertificateList> {
    h::CertificateList::new(c.iter().map(|c| h::Asn1Cert::new(c.0.clone())).collect::<TlsResult<_>>()?)
}
pub fn to_ecdh(k: &Ske) -> TlsResult<ServerEcdhParams> {
    Ok(ServerEcdhParams { curve_params: EcParameters::named_curve(to_curve(k.curve)), public: EcData::new(k.point.0.clone())? })
}
pub fn to_signed(k: &Ske) -> TlsResult<s::DigitallySigned> {
    Ok(s::DigitallySigned { algorithm: to_alg(k.alg), signature: s::Signature::new(k.sig.0.clone())? })
}
pub fn to_ske(k: &Ske) -> TlsResult<EcdheServerKeyExchange> {
    Ok(EcdheServerKeyExchange { params: to_ecdh(k)?, signed_params: to_signed(k)? })
}
pub fn to_certreq(r: &CertReq) -> TlsResult<h::CertificateRequest> {
    Ok(h::CertificateRequest {
        certificate_types: h::CertificiateTypeVec::new(r.types.iter().map(|t| to_cert_type(*t)).collect())?,
        supported_signature_algorithms: to_sigalgs(&r.sigs)?,
        certificate_authorities: h::DistinguishedNameVec::new(r.names.iter().map(|n| h::DistinguishedName::new(n.0.clone())).collect::<TlsResult<_>>()?)?,
    })
}
pub fn to_alert(a: (u8, u8)) -> TlsResult<Alert> {
    Alert::new(to_level(a.0), to_desc(a.1))
}
pub fn to_msg(m: &Msg) -> TlsResult<h::Handshake> {
    use h::Handshake as H;
    Ok(match m {
        Msg::HelloRequest => H::hello_request(DummyItem),
        Msg::ClientHello(c) => H::client_hello(h::ClientHello {
            client_version: h::ProtocolVersion { major: c.ver.0, minor: c.ver.1 },
            random: h::Random::new(c.random.0.clone())?,
            session_id: h::SessionId::new(c.sid.0.clone())?,
            cipher_suites: h::CipherSuiteVec::new(c.suites.iter().map(|s| to_suite(*s)).collect())?,
            compression_methods: h::CompressionMethodVec::new(c.comps.iter().map(|c| to_comp(*c)).collect())?,
            extensions: to_opt(&c.exts)?,
        }),
        Msg::ServerHello(c) => H::server_hello(h::ServerHello {
            server_version: h::ProtocolVersion { major: c.ver.0, minor: c.ver.1 },
            random: h::Random::new(c.random.0.clone())?,
            session_id: h::SessionId::new(c.sid.0.clone())?,
            cipher_suite: to_suite(c.suite),
            compression_method: to_comp(c.comp),
            extensions: to_opt(&c.exts)?,
        }),
        Msg::Certificate(c) => H::certificate(to_certs(c)?),
        Msg::ServerKeyExchange(b) => H::server_key_exchange(ObscureData::new(b.0.clone())),
        Msg::CertificateRequest(r) => H::certificate_request(to_certreq(r)?),
        Msg::ServerHelloDone => H::server_hello_done(DummyItem),
        Msg::ClientKeyExchange(b) => H::new_client_key_exchange(b.0.clone())?,
        Msg::Finished(b) => H::new_finished(b.0.clone())?,
    })
}

// ---------------------------------------------------------------- husk -> model

pub fn of_alg(a: &s::SignatureAndHashAlgorithm) -> (u8, u8) {
    (of_hash(a.hash), of_sig(a.signature))
}
pub fn of_ext(e: &h::Extension) -> Ext {
    match e {
        h::Extension::elliptic_curves(l) => Ext::Curves(l.iter().map(|c| of_curve(*c)).collect()),
        h::Extension::ec_point_formats(l) => Ext::Formats(l.iter().map(|c| of_format(*c)).collect()),
        h::Extension::signature_algorithms(l) => Ext::SigAlgs(l.iter().map(of_alg).collect()),
        h::Extension::Unknown(t, b) => Ext::Unknown(*t, Hex(b.clone())),
    }
}
pub fn of_exts(e: &h::ExtensionVec) -> Vec<Ext> {
    e.iter().map(of_ext).collect()
}
/// Suites husk does not know come back as (0, 0).
pub fn of_suite(c: CipherSuite) -> (u8, u8) {
    match c {
        CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 => SUITE,
        _ => (0, 0),
    }
}
pub fn of_certs(c: &h::CertificateList) -> Vec<Hex> {
    c.iter().map(|c| Hex(c.to_vec())).collect()
}
pub fn of_ecdh(p: &ServerEcdhParams) -> (u16, Hex) {
    let EcParameters::named_curve(c) = &p.curve_params;
    (of_curve(*c), Hex(p.public.to_vec()))
}
pub fn of_certreq(r: &h::CertificateRequest) -> CertReq {
    CertReq {
        types: r.certificate_types.iter().map(|t| of_cert_type(*t)).collect(),
        sigs: r.supported_signature_algorithms.iter().map(of_alg).collect(),
        names: r.certificate_authorities.iter().map(|n| Hex(n.to_vec())).collect(),
    }
}
pub fn of_msg(m: &h::Handshake) -> Msg {
    use h::Handshake as H;
    match m {
        H::hello_request(_) => Msg::HelloRequest,
        H::client_hello(c) => Msg::ClientHello(CHello {
            ver: (c.client_version.major, c.client_version.minor),
            random: Hex(c.random.to_vec()),
            sid: Hex(c.session_id.to_vec()),
            suites: c.cipher_suites.iter().map(|s| of_suite(*s)).collect(),
            comps: c.compression_methods.iter().map(|c| of_comp(*c)).collect(),
            exts: c.extensions.as_ref().map(of_exts),
        }),
        H::server_hello(c) => Msg::ServerHello(SHello {
            ver: (c.server_version.major, c.server_version.minor),
            random: Hex(c.random.to_vec()),
            sid: Hex(c.session_id.to_vec()),
            suite: of_suite(c.cipher_suite),
            comp: of_comp(c.compression_method),
            exts: c.extensions.as_ref().map(of_exts),
        }),
        H::certificate(c) => Msg::Certificate(of_certs(c)),
        H::server_key_exchange(b) => Msg::ServerKeyExchange(Hex(b.to_vec())),
        H::certificate_request(r) => Msg::CertificateRequest(of_certreq(r)),
        H::server_hello_done(_) => Msg::ServerHelloDone,
        H::client_key_exchange(b) => Msg::ClientKeyExchange(Hex(b.to_vec())),
        H::finished(b) => Msg::Finished(Hex(b.to_vec())),
    }
}
/// The model with every suite husk does not know replaced by (0, 0).
pub fn blur(m: &Msg) -> Msg {
    let f = |s: (u8, u8)| if s == SUITE { s } else { (0, 0) };
    let mut m = m.clone();
    match &mut m {
        Msg::ClientHello(c) => c.suites.iter_mut().for_each(|s| *s = f(*s)),
        Msg::ServerHello(c) => c.suite = f(c.suite),
        _ => {}
    }
    m
}
pub fn has_unknown_suite(m: &Msg) -> bool {
    match m {
        Msg::ClientHello(c) => c.suites.iter().any(|s| *s != SUITE),
        Msg::ServerHello(c) => c.suite != SUITE,
        _ => false,
    }
}
pub fn enc<T: TlsItem>(v: &T) -> TlsResult<Vec<u8>> {
    let mut o = Vec::new();
    v.tls_write(&mut o)?;
    Ok(o)
}
