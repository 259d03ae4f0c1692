use husk::alert::Alert;
use husk::cipher::ecdhe::{EcdheServerKeyExchange, ServerEcdhParams};
use husk::handshake as h;
use husk::signature as sg;
use husk::tls_item::TlsItem;
use husk::tls_result::TlsResult;
use hv::fw::*;
use hv::gen::*;
use hv::wgen::*;
use hv::wire::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Hash, Serialize, Deserialize)]
enum T {
    Msg,
    Ext,
    Exts,
    Alert,
    Certs,
    CertReq,
    Ecdh,
    Signed,
    Ske,
    SigAlgs,
    Curves,
    Formats,
    CHello,
    SHello,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Base {
    Msg(Msg),
    Ext(Ext),
    Exts(Vec<Ext>),
    Alert(u8, u8),
    Ske(Ske),
    /// nothing: raw bytes with a plausible frame
    Raw(Hex),
    /// a message of this type with these body bytes
    Framed(u8, Hex),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    t: T,
    base: Base,
    edits: Vec<Edit>,
    /// rewrite the message length to fit after the edits
    relen: bool,
}
fn strat() -> BoxedStrategy<Case> {
    let t = proptest::sample::select(vec![T::Ext, T::Exts, T::Alert, T::Certs, T::CertReq, T::Ecdh, T::Signed, T::Ske, T::SigAlgs, T::Curves, T::Formats, T::CHello, T::SHello]);
    let small = prop_oneof![3 => 0u8..8, 2 => any::<u8>(), 1 => Just(0xffu8)];
    let raw = vec(small, 0..80usize).prop_map(Hex).boxed();
    let hs = proptest::sample::select(vec![0u8, 1, 2, 11, 12, 13, 14, 16, 20, 20, 2, 11, 3, 4, 15, 21, 22, 23, 255]);
    prop_oneof![
        12 => (msg_strat(true), edits(), prop_oneof![2 => Just(true), 1 => Just(false)]).prop_map(|(m, edits, relen)| Case { t: T::Msg, base: Base::Msg(m), edits, relen }),
        2 => (hs, raw.clone(), edits()).prop_map(|(ty, b, edits)| Case { t: T::Msg, base: Base::Framed(ty, b), edits, relen: true }),
        2 => (t, raw).prop_map(|(t, b)| Case { t, base: Base::Raw(b), edits: vec![], relen: false }),
        4 => (ext_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Ext, base: Base::Ext(m), edits, relen: false }),
        4 => (exts_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Exts, base: Base::Exts(m), edits, relen: false }),
        2 => (1u8..=2, proptest::sample::select(KNOWN_ALERTS.to_vec()), edits()).prop_map(|(a, b, edits)| Case { t: T::Alert, base: Base::Alert(a, b), edits, relen: false }),
        1 => any::<(u8, u8)>().prop_map(|(a, b)| Case { t: T::Alert, base: Base::Alert(a, b), edits: vec![], relen: false }),
        4 => (ske_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Ske, base: Base::Ske(m), edits, relen: false }),
        1 => (ske_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Ecdh, base: Base::Ske(m), edits, relen: false }),
        1 => (ske_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Signed, base: Base::Ske(m), edits, relen: false }),
        2 => (certs_strat(), edits()).prop_map(|(m, edits)| Case { t: T::Certs, base: Base::Msg(Msg::Certificate(m)), edits, relen: false }),
        2 => (certreq(), edits()).prop_map(|(m, edits)| Case { t: T::CertReq, base: Base::Msg(Msg::CertificateRequest(m)), edits, relen: false }),
        1 => (chello(true), edits()).prop_map(|(m, edits)| Case { t: T::CHello, base: Base::Msg(Msg::ClientHello(m)), edits, relen: false }),
        1 => (shello(true), edits()).prop_map(|(m, edits)| Case { t: T::SHello, base: Base::Msg(Msg::ServerHello(m)), edits, relen: false }),
    ]
    .boxed()
}
fn bytes_of(c: &Case) -> Vec<u8> {
    let mut v = match (&c.base, c.t) {
        (Base::Msg(m), T::Msg) => wire::msg(m),
        (Base::Msg(m), _) => body(m).1,
        (Base::Ext(e), _) => ext(e),
        (Base::Exts(e), _) => exts(e),
        (Base::Alert(a, b), _) => vec![*a, *b],
        (Base::Ske(k), T::Ecdh) => ecdh_params(k),
        (Base::Ske(k), T::Signed) => signed(k.alg, &k.sig),
        (Base::Ske(k), _) => ske(k),
        (Base::Raw(b), _) => b.0.clone(),
        (Base::Framed(t, b), _) => frame(*t, b),
    };
    let clean = v.clone();
    apply(&c.edits, &mut v);
    if c.relen && v != clean && v.len() >= 4 {
        let n = u24v(v.len() - 4);
        v[1..4].copy_from_slice(&n);
    }
    v
}
/// Decode a prefix of `d`; compare with what the strict parser says about the same prefix.
fn prefix<V: TlsItem, M: PartialEq>(what: &str, d: &[u8], model: impl Fn(&mut P) -> Option<M>, of: impl Fn(&V) -> M, ctx: &mut Ctx) -> R {
    exact(what, d, model, of, ctx, true)
}
fn exact<V: TlsItem, M: PartialEq>(what: &str, d: &[u8], model: impl Fn(&mut P) -> Option<M>, of: impl Fn(&V) -> M, ctx: &mut Ctx, reencode: bool) -> R {
    let mut p = P::new(d);
    let want = model(&mut p);
    let mut rd = d;
    let got: TlsResult<V> = V::tls_read(&mut rd);
    ctx.label(format!("{what} {}", if want.is_some() { "well-formed" } else { "malformed" }));
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(v), Some(m)) => {
            let used = d.len() - rd.len();
            if used != p.at {
                return Err(format!("{what}: decoding consumed {used} bytes, the encoding has {}", p.at));
            }
            if of(&v) != m {
                return Err(format!("{what}: decoded to another value"));
            }
            if reencode {
                let e = enc(&v).map_err(|e| format!("{what}: accepted but cannot be written: {e:?}"))?;
                if e != d[..used] {
                    return Err(format!("{what}: re-encodes to other bytes"));
                }
            }
            Ok(())
        }
        (Ok(_), None) => Err(format!("{what}: accepted although malformed")),
        (Err(e), Some(_)) => Err(format!("{what}: refused although well-formed: {e:?}")),
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let d = bytes_of(c);
    if !c.edits.is_empty() || matches!(c.base, Base::Raw(_) | Base::Framed(..)) {
        ctx.nt();
    }
    match c.t {
        T::Ext => prefix("extension", &d, p_ext, of_ext, ctx),
        T::Exts => prefix("extension list", &d, p_exts, of_exts, ctx),
        T::Alert => prefix("alert", &d, p_alert, |a: &Alert| (of_level(a.level), of_desc(a.description)), ctx),
        T::Certs => prefix("certificate list", &d, p_certs, of_certs, ctx),
        T::CertReq => prefix("certificate request", &d, p_cert_req, of_certreq, ctx),
        T::Ecdh => prefix("ecdh parameters", &d, p_ecdh_params, |p: &ServerEcdhParams| of_ecdh(p), ctx),
        T::Signed => prefix("signature", &d, p_signed, |s: &sg::DigitallySigned| (of_alg(&s.algorithm), Hex(s.signature.to_vec())), ctx),
        T::Ske => prefix(
            "server key exchange",
            &d,
            p_ske,
            |k: &EcdheServerKeyExchange| {
                let (curve, point) = of_ecdh(&k.params);
                Ske { curve, point, alg: of_alg(&k.signed_params.algorithm), sig: Hex(k.signed_params.signature.to_vec()) }
            },
            ctx,
        ),
        T::SigAlgs => prefix("signature algorithms", &d, p_sigalgs, |v: &sg::SignatureAndHashAlgorithmVec| v.iter().map(of_alg).collect(), ctx),
        T::Curves => prefix("curves", &d, p_curves, |v: &h::EllipticCurveList| v.iter().map(|c| of_curve(*c)).collect(), ctx),
        T::Formats => prefix("point formats", &d, p_formats, |v: &h::ECPointFormatList| v.iter().map(|c| of_format(*c)).collect(), ctx),
        T::CHello | T::SHello => {
            // whole-body decoding goes through the message
            let ty = if c.t == T::CHello { 1 } else { 2 };
            message(&frame(ty, &d), ctx)
        }
        T::Msg => message(&d, ctx),
    }
}
fn message(d: &[u8], ctx: &mut Ctx) -> R {
    let mut hb = h::HandshakeBuffer::new();
    hb.add_record(d);
    let len = if d.len() >= 4 { 4 + ((d[1] as usize) << 16 | (d[2] as usize) << 8 | d[3] as usize) } else { usize::MAX };
    let got = hb.get_message();
    if d.len() < len {
        ctx.label("incomplete message");
        return match got {
            Ok(None) => Ok(()),
            Ok(Some(_)) => Err("a message was made of fewer bytes than it announces".into()),
            Err(e) => Err(format!("incomplete message answered with {e:?}")),
        };
    }
    let own = &d[..len];
    let want = p_msg(own);
    ctx.label(format!("message {} {}", own[0], if want.is_ok() { "well-formed" } else { "malformed" }));
    match (got, want) {
        (Ok(None), _) => Err("a complete message was not seen".into()),
        (Err(_), Err(_)) => Ok(()),
        (Ok(Some(_)), Err(_)) => Err(format!("malformed message of type {} accepted", own[0])),
        (Err(e), Ok(_)) => Err(format!("well-formed message of type {} refused: {e:?}", own[0])),
        (Ok(Some(v)), Ok(m)) => {
            if blur(&of_msg(&v)) != blur(&m) {
                return Err(format!("message of type {} decoded to another value", own[0]));
            }
            if !has_unknown_suite(&m) {
                match enc(&v) {
                    Ok(e) if e == own => {}
                    Ok(_) => return Err(format!("message of type {} re-encodes to other bytes", own[0])),
                    Err(e) => return Err(format!("message of type {} accepted but cannot be written: {e:?}", own[0])),
                }
                if v.tls_size() != own.len() as u64 {
                    return Err(format!("message of type {}: size {} reported for {} bytes", own[0], v.tls_size(), own.len()));
                }
            }
            Ok(())
        }
    }
}

/// Every one-byte change of a small well-formed message.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sweep {
    m: Msg,
    delta: u8,
}
fn tiny_ext() -> BoxedStrategy<Ext> {
    prop_oneof![
        vec(curve(), 1..3usize).prop_map(Ext::Curves),
        vec(0u8..=2, 1..3usize).prop_map(Ext::Formats),
        vec(alg(), 1..3usize).prop_map(Ext::SigAlgs),
        (20u16..40, bytes(0..4usize)).prop_map(|(t, b)| Ext::Unknown(t, b)),
    ]
    .boxed()
}
fn tiny() -> BoxedStrategy<Msg> {
    let e = || prop_oneof![Just(None), vec(tiny_ext(), 0..3usize).prop_map(Some)];
    prop_oneof![
        (keyish(32), bytes(0..4usize), vec(suite(true), 1..3usize), vec(0u8..=1, 1..3usize), e())
            .prop_map(|(random, sid, suites, comps, exts)| Msg::ClientHello(CHello { ver: (3, 3), random, sid, suites, comps, exts })),
        (keyish(32), bytes(0..4usize), suite(true), 0u8..=1, e())
            .prop_map(|(random, sid, suite, comp, exts)| Msg::ServerHello(SHello { ver: (3, 3), random, sid, suite, comp, exts })),
        vec(bytes(1..4usize), 0..4usize).prop_map(Msg::Certificate),
        (vec(proptest::sample::select(KNOWN_CERT_TYPES.to_vec()), 1..3usize), vec(alg(), 1..3usize), vec(bytes(1..4usize), 0..3usize))
            .prop_map(|(types, sigs, names)| Msg::CertificateRequest(CertReq { types, sigs, names })),
        keyish(12).prop_map(Msg::Finished),
        Just(Msg::ServerHelloDone),
        Just(Msg::HelloRequest),
    ]
    .boxed()
}
fn sweep(c: &Sweep, ctx: &mut Ctx) -> R {
    let w = wire::msg(&c.m);
    ctx.nt();
    let mut q = Ctx::default();
    for k in 0..w.len() {
        let mut v = w.clone();
        v[k] = v[k].wrapping_add(c.delta);
        ctx.execs(2);
        message(&v, &mut q).map_err(|e| format!("byte {k} changed by {}: {e}", c.delta))?;
        // cut here, length adjusted
        let mut v = w[..k].to_vec();
        if k >= 4 {
            let n = u24v(k - 4);
            v[1..4].copy_from_slice(&n);
        }
        message(&v, &mut q).map_err(|e| format!("cut to {k} bytes with the length adjusted: {e}"))?;
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C11",
        assumptions: &["well-formed means what hv::wire accepts, written from RFC 5246 and 4492 with the enumeration codes husk lists", "messages are offered through HandshakeBuffer, the only way husk itself decodes them"],
        facets: vec![
            facet(Facet {
                name: "decode",
                rule: "well-formed encodings of every type with 0..4 edits (bit flips, byte changes near headers, insertions, deletions, truncation, with and without the message length adjusted), and raw bytes; non-trivial: edited or raw",
                quick: 3_000_000,
                thorough: 150_000_000,
                shrink: 3000,
                strategy: strat,
                check,
            }),
            facet(Facet {
                name: "sweep",
                rule: "small well-formed messages: one byte changed by a given amount at every position, and cut at every position; non-trivial: every case",
                quick: 240_000,
                thorough: 12_000_000,
                shrink: 2000,
                strategy: || (tiny(), prop_oneof![Just(1u8), Just(255u8), any::<u8>()]).prop_map(|(m, delta)| Sweep { m, delta }).boxed(),
                check: sweep,
            }),
        ],
    })
}
