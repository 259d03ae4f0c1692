use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::Aead;
use husk::tls_result::TlsErrorKind;
use hv::fw::*;
use hv::gen::*;
use hv::refr;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    key: Hex,
    nonce: Hex,
    ad: Blob,
    pt: Blob,
    muts: Vec<Mut>,
}
/// One change to what is offered for opening.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Mut {
    FlipCipher(u32, u8),
    FlipTag(u8),
    FlipNonce(u8),
    FlipAd(u32, u8),
    FlipKey(u8),
    /// two or more bits of the tag at once, by XOR mask
    MaskTag(Hex),
    AddTag(u8, bool),
    Truncate(u32),
    Short(u8),
    Append(Hex),
    ExtendZero(u8),
    AdExtend(Hex),
    AdTruncate(u8),
    /// move bytes across the AD / ciphertext border
    Shift(u8),
    Empty,
    DropFirst(u8),
    SwapBlocks(u8, u8),
    ReplaceTag(u8),
}
fn muts() -> BoxedStrategy<Mut> {
    prop_oneof![
        4 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Mut::FlipCipher(a, b)),
        4 => (0u8..128).prop_map(Mut::FlipTag),
        2 => (0u8..96).prop_map(Mut::FlipNonce),
        2 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Mut::FlipAd(a, b)),
        1 => any::<u8>().prop_map(Mut::FlipKey),
        3 => proptest::collection::vec(prop_oneof![2 => Just(0u8), 1 => any::<u8>(), 1 => Just(0x80u8), 1 => Just(1u8)], 16).prop_map(|v| Mut::MaskTag(Hex(v))),
        1 => (0u8..16, any::<bool>()).prop_map(|(a, b)| Mut::AddTag(a, b)),
        2 => any::<u32>().prop_map(Mut::Truncate),
        2 => (0u8..16).prop_map(Mut::Short),
        1 => bytes(1..20usize).prop_map(Mut::Append),
        1 => (1u8..40).prop_map(Mut::ExtendZero),
        1 => bytes(1..20usize).prop_map(Mut::AdExtend),
        1 => (1u8..16).prop_map(Mut::AdTruncate),
        1 => (1u8..20).prop_map(Mut::Shift),
        1 => Just(Mut::Empty),
        1 => (1u8..20).prop_map(Mut::DropFirst),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mut::SwapBlocks(a, b)),
        1 => prop_oneof![Just(0u8), Just(0xff), any::<u8>()].prop_map(Mut::ReplaceTag),
    ]
    .boxed()
}
fn ad() -> BoxedStrategy<Blob> {
    prop_oneof![3 => blob(Just(13u32).boxed()), 3 => blob((0u32..40).boxed()), 1 => blob(len_around(16, 300))].boxed()
}
fn strat() -> BoxedStrategy<Case> {
    (keyish(32), keyish(12), ad(), blob(len_around(64, 700)), proptest::collection::vec(muts(), 1..6)).prop_map(|(key, nonce, ad, pt, muts)| Case { key, nonce, ad, pt, muts }).boxed()
}
fn strat_bulk() -> BoxedStrategy<Case> {
    let len = prop_oneof![4 => len_around(64, 40_000), 2 => 16_300u32..16_500, 2 => 16_384u32..=16_384, 1 => 65_500u32..65_600, 1 => 65_000u32..300_000].boxed();
    (keyish(32), keyish(12), prop_oneof![12 => ad(), 1 => blob((65_500u32..70_000).boxed())], blob(len), proptest::collection::vec(muts(), 1..3)).prop_map(|(key, nonce, ad, pt, muts)| Case { key, nonce, ad, pt, muts }).boxed()
}
fn strat_vast() -> BoxedStrategy<Case> {
    let l = || blob((-2i32..50).prop_map(|d| ((1 << 24) + d) as u32).boxed());
    let small = || blob((0u32..40).boxed());
    let which = prop_oneof![3 => (small(), l()), 1 => (l(), small())];
    (keyish(32), keyish(12), which, proptest::collection::vec(muts(), 1usize)).prop_map(|(key, nonce, (ad, pt), muts)| Case { key, nonce, ad, pt, muts }).boxed()
}
struct In {
    key: Vec<u8>,
    nonce: Vec<u8>,
    ad: Vec<u8>,
    data: Vec<u8>,
}
fn apply(m: &Mut, i: &mut In) {
    let n = i.data.len();
    match m {
        Mut::FlipCipher(s, b) => {
            let k = pick(*s, n);
            if n > 0 {
                i.data[k] ^= 1 << (b & 7)
            }
        }
        Mut::FlipTag(b) => {
            let b = *b as usize % 128;
            i.data[n - 16 + b / 8] ^= 1 << (b % 8)
        }
        Mut::FlipNonce(b) => {
            let b = *b as usize % 96;
            i.nonce[b / 8] ^= 1 << (b % 8)
        }
        Mut::FlipAd(s, b) => {
            if !i.ad.is_empty() {
                let k = pick(*s, i.ad.len());
                i.ad[k] ^= 1 << (b & 7)
            }
        }
        Mut::FlipKey(b) => i.key[*b as usize / 8] ^= 1 << (b % 8),
        Mut::MaskTag(m) => {
            for (k, x) in m.iter().take(16).enumerate() {
                i.data[n - 16 + k] ^= x
            }
        }
        Mut::AddTag(k, up) => {
            let k = n - 16 + *k as usize % 16;
            i.data[k] = if *up { i.data[k].wrapping_add(1) } else { i.data[k].wrapping_sub(1) }
        }
        Mut::Truncate(s) => i.data.truncate(pick(*s, n)),
        Mut::Short(k) => i.data.truncate(*k as usize % 16),
        Mut::Append(b) => i.data.extend_from_slice(b),
        Mut::ExtendZero(k) => i.data.resize(n + *k as usize, 0),
        Mut::AdExtend(b) => i.ad.extend_from_slice(b),
        Mut::AdTruncate(k) => i.ad.truncate(i.ad.len().saturating_sub(*k as usize)),
        Mut::Shift(k) => {
            let k = (*k as usize).min(n);
            let d: Vec<u8> = i.data.drain(..k).collect();
            i.ad.extend(d)
        }
        Mut::Empty => i.data.clear(),
        Mut::DropFirst(k) => {
            i.data.drain(..(*k as usize).min(n));
        }
        Mut::SwapBlocks(a, b) => {
            let blocks = n / 16;
            if blocks > 1 {
                let (a, b) = (*a as usize % blocks, *b as usize % blocks);
                for k in 0..16 {
                    i.data.swap(a * 16 + k, b * 16 + k)
                }
            }
        }
        Mut::ReplaceTag(x) => {
            for t in &mut i.data[n - 16..] {
                *t = *x
            }
        }
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    if c.key.len() != 32 || c.nonce.len() != 12 {
        return Err("bad case".into());
    }
    let (ad, pt) = (c.ad.expand(), c.pt.expand());
    let want = refr::aead_seal(&c.key, &c.nonce, &ad, &pt);
    let aead = ChaCha20Poly1305;
    if (aead.key_size(), aead.mac_len()) != (32, 16) {
        return Err("key or tag size wrong".into());
    }
    let mut enc = aead.new_encryptor(c.key.0.clone());
    let mut dec = aead.new_decryptor(c.key.0.clone());
    if dec.mac_len() != 16 {
        return Err("decryptor tag size wrong".into());
    }
    // twice: sealing and opening keep no state between calls
    for round in 0..2 {
        ctx.execs(2);
        let got = enc.encrypt(&c.nonce, &pt, &ad);
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("sealing {} bytes with {} bytes of associated data (call {round}): {} bytes, first difference from RFC 8439 at byte {at} of {}", pt.len(), ad.len(), got.len(), want.len()));
        }
        match dec.decrypt(&c.nonce, &got, &ad) {
            Ok(p) if p == pt => {}
            Ok(_) => return Err("opening a genuine ciphertext gives another plaintext".into()),
            Err(e) => return Err(format!("opening a genuine ciphertext of {} bytes fails: {:?}", got.len(), e.kind)),
        }
    }
    for m in &c.muts {
        let mut i = In { key: c.key.0.clone(), nonce: c.nonce.0.clone(), ad: ad.clone(), data: want.clone() };
        apply(m, &mut i);
        if i.key == c.key.0 && i.nonce == c.nonce.0 && i.ad == ad && i.data == want {
            ctx.label("mutation without effect");
            continue;
        }
        ctx.nt();
        ctx.execs(1);
        ctx.label(format!("{m:?}").split('(').next().unwrap_or("").to_string());
        let mut d = aead.new_decryptor(i.key.clone());
        match guarded(|| d.decrypt(&i.nonce, &i.data, &i.ad)) {
            Err(p) => return Err(format!("opening after {m:?}: {p}")),
            Ok(Err(e)) if e.kind == TlsErrorKind::BadRecordMac => {}
            Ok(Err(e)) => return Err(format!("opening after {m:?} fails with {:?}, not a bad record MAC", e.kind)),
            Ok(Ok(p)) => return Err(format!("opening after {m:?} succeeds with {} bytes", p.len())),
        }
        // and the genuine one still opens
        if dec.decrypt(&c.nonce, &want, &ad).ok().as_deref() != Some(&pt[..]) {
            return Err(format!("a genuine ciphertext no longer opens after {m:?} was refused"));
        }
    }
    Ok(())
}
/// Several operations on one encryptor and one decryptor.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Step {
    /// seal anew; same nonce as before if the flag is set
    Seal(Hex, Blob, Blob, bool),
    /// open the n-th ciphertext made so far
    Open(u8),
    Forged(u8, Mut),
    /// open with nonce and associated data of another
    Mixed(u8, u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Session {
    key: Hex,
    steps: Vec<Step>,
    /// sealing and opening done by two encryptors and decryptors made from one key
    twins: bool,
}
fn strat_session() -> BoxedStrategy<Session> {
    let pt = || prop_oneof![4 => blob((0u32..80).boxed()), 1 => blob(len_around(64, 400))].boxed();
    let step = prop_oneof![
        4 => (keyish(12), ad(), pt(), any::<bool>()).prop_map(|(n, a, p, r)| Step::Seal(n, a, p, r)),
        4 => any::<u8>().prop_map(Step::Open),
        3 => (any::<u8>(), muts()).prop_map(|(i, m)| Step::Forged(i, m)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Step::Mixed(i, j)),
    ];
    (keyish(32), proptest::collection::vec(step, 2..24), any::<bool>()).prop_map(|(key, steps, twins)| Session { key, steps, twins }).boxed()
}
fn check_session(c: &Session, ctx: &mut Ctx) -> R {
    let aead = ChaCha20Poly1305;
    let mut enc = [aead.new_encryptor(c.key.0.clone()), aead.new_encryptor(c.key.0.clone())];
    let mut dec = [aead.new_decryptor(c.key.0.clone()), aead.new_decryptor(c.key.0.clone())];
    // nonce, associated data, plaintext, ciphertext
    let mut made: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
    let (mut good, mut bad) = (0, 0);
    for (k, s) in c.steps.iter().enumerate() {
        let w = if c.twins { k % 2 } else { 0 };
        ctx.execs(1);
        match s {
            Step::Seal(n, a, p, again) => {
                let n = match made.last() {
                    Some(l) if *again => l.0.clone(),
                    _ => n.0.clone(),
                };
                let (a, p) = (a.expand(), p.expand());
                let want = refr::aead_seal(&c.key, &n, &a, &p);
                let got = guarded(|| enc[w].encrypt(&n, &p, &a))?;
                if got != want {
                    return Err(format!("step {k}: sealing {} bytes does not give what RFC 8439 says", p.len()));
                }
                made.push((n, a, p, want));
            }
            Step::Open(i) => {
                if made.is_empty() {
                    continue;
                }
                let m = &made[*i as usize % made.len()];
                match guarded(|| dec[w].decrypt(&m.0, &m.3, &m.1))? {
                    Ok(p) if p == m.2 => good += 1,
                    Ok(_) => return Err(format!("step {k}: a genuine ciphertext opens to another plaintext")),
                    Err(e) => return Err(format!("step {k}: a genuine ciphertext does not open: {:?}", e.kind)),
                }
            }
            Step::Forged(..) | Step::Mixed(..) => {
                if made.is_empty() {
                    continue;
                }
                let (m, i) = match s {
                    Step::Forged(i, mu) => {
                        let m = &made[*i as usize % made.len()];
                        let mut x = In { key: c.key.0.clone(), nonce: m.0.clone(), ad: m.1.clone(), data: m.3.clone() };
                        apply(mu, &mut x);
                        (m, x)
                    }
                    Step::Mixed(i, j) => {
                        let (m, o) = (&made[*i as usize % made.len()], &made[*j as usize % made.len()]);
                        (m, In { key: c.key.0.clone(), nonce: o.0.clone(), ad: o.1.clone(), data: m.3.clone() })
                    }
                    _ => unreachable!(),
                };
                if i.key != c.key.0 || made.iter().any(|o| o.0 == i.nonce && o.1 == i.ad && o.3 == i.data) {
                    continue;
                }
                let _ = m;
                match guarded(|| dec[w].decrypt(&i.nonce, &i.data, &i.ad))? {
                    Err(e) if e.kind == TlsErrorKind::BadRecordMac => bad += 1,
                    Err(e) => return Err(format!("step {k}: a forged ciphertext fails with {:?}, not a bad record MAC", e.kind)),
                    Ok(p) => return Err(format!("step {k}: a forged ciphertext opens to {} bytes", p.len())),
                }
            }
        }
    }
    if good > 0 && bad > 0 {
        ctx.nt();
    }
    Ok(())
}
/// Every bit of one small ciphertext, nonce and AD, and every length.
fn check_all(c: &(Hex, Hex, Hex, Hex), ctx: &mut Ctx) -> R {
    let (key, nonce, ad, pt) = c;
    let ct = refr::aead_seal(key, nonce, ad, pt);
    let aead = ChaCha20Poly1305;
    let mut dec = aead.new_decryptor(key.0.clone());
    let mut refuse = |what: String, n: &[u8], d: &[u8], a: &[u8]| -> R {
        match guarded(|| dec.decrypt(n, d, a)) {
            Err(p) => Err(format!("{what}: {p}")),
            Ok(Err(e)) if e.kind == TlsErrorKind::BadRecordMac => Ok(()),
            Ok(Err(e)) => Err(format!("{what}: fails with {:?}", e.kind)),
            Ok(Ok(_)) => Err(format!("{what}: accepted")),
        }
    };
    for b in 0..ct.len() * 8 {
        let mut d = ct.clone();
        d[b / 8] ^= 1 << (b % 8);
        refuse(format!("bit {b} of the {}-byte ciphertext flipped", ct.len()), nonce, &d, ad)?;
    }
    for b in 0..96 {
        let mut d = nonce.0.clone();
        d[b / 8] ^= 1 << (b % 8);
        refuse(format!("bit {b} of the nonce flipped"), &d, &ct, ad)?;
    }
    for b in 0..ad.len() * 8 {
        let mut d = ad.0.clone();
        d[b / 8] ^= 1 << (b % 8);
        refuse(format!("bit {b} of the associated data flipped"), nonce, &ct, &d)?;
    }
    for l in 0..ct.len() {
        refuse(format!("ciphertext cut to {l} of {} bytes", ct.len()), nonce, &ct[..l], ad)?;
    }
    for l in 0..ad.len() {
        refuse(format!("associated data cut to {l} bytes"), nonce, &ct, &ad[..l])?;
    }
    ctx.execs((ct.len() * 9 + 96 + ad.len() * 9) as u64);
    ctx.nt();
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C05",
        assumptions: &[
            "oracle: RFC 8439 AEAD construction over reference ChaCha20 and Poly1305, checked on the RFC vector",
            "a mutated input that happens to carry a valid tag (chance 2^-100 or less) would be reported as a violation",
        ],
        facets: vec![
            facet(Facet { name: "seal_open", rule: "random and structured keys, nonces, associated data and plaintexts up to 700 bytes, each opened genuinely and under 1-5 mutations; non-trivial: at least one mutation changed something", quick: 480_000, thorough: 24_000_000, shrink: 3000, strategy: strat, check }),
            facet(Facet { name: "bulk", rule: "plaintexts up to 300 kB, including record-sized ones, and associated data up to 70 kB", quick: 12_000, thorough: 600_000, shrink: 1000, strategy: strat_bulk, check }),
            facet(Facet { name: "vast", rule: "plaintexts or associated data of 2^24 bytes and a few; all non-trivial", quick: 8, thorough: 200, shrink: 6, strategy: strat_vast, check: |c, ctx| { ctx.nt(); check(c, ctx) } }),
            facet(Facet { name: "session", rule: "2..23 operations on one encryptor and one decryptor, or two of each made from one key: sealing (also under a nonce used before), opening any earlier ciphertext again, opening forged ones and ones with nonce and associated data of another; non-trivial: a genuine one opened and a forged one refused", quick: 320_000, thorough: 16_000_000, shrink: 2000, strategy: strat_session, check: check_session }),
            facet(Facet { name: "every_bit", rule: "for a generated small message: every single-bit change of ciphertext, tag, nonce and associated data, and every truncation; all non-trivial", quick: 4_800, thorough: 240_000, shrink: 200, strategy: || (keyish(32), keyish(12), bytes(0..20usize), bytes(0..70usize)).boxed(), check: check_all }),
        ],
    })
}
