//! Independent reference implementations: slow, direct transcriptions of the standards.
use num_bigint::BigUint;
use sha2::Digest;
use std::sync::OnceLock;

// ---------------------------------------------------------------- SHA-256, HMAC, PRF

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h = sha2::Sha256::new();
    h.update(m);
    h.finalize().into()
}

pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}

/// P_SHA256(secret, seed), first `n` bytes (RFC 5246 section 5).
pub fn p_sha256(secret: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut a = hmac(secret, seed);
    let mut out = Vec::new();
    while out.len() < n {
        let mut m = a.to_vec();
        m.extend_from_slice(seed);
        out.extend_from_slice(&hmac(secret, &m));
        a = hmac(secret, &a);
    }
    out.truncate(n);
    out
}

pub fn prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    let mut s = label.as_bytes().to_vec();
    s.extend_from_slice(seed);
    p_sha256(secret, &s, n)
}

// ---------------------------------------------------------------- ChaCha20, Poly1305, AEAD

pub fn chacha20_block(key: &[u8], counter: u32, nonce: &[u8]) -> [u8; 64] {
    assert!(key.len() == 32 && nonce.len() == 12);
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut st = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() {
        st[i] = le(c);
    }
    for i in 0..8 {
        st[4 + i] = le(&key[4 * i..]);
    }
    st[12] = counter;
    for i in 0..3 {
        st[13 + i] = le(&nonce[4 * i..]);
    }
    let mut x = st;
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        for (p, q, r, n) in [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)] {
            x[p] = x[p].wrapping_add(x[q]);
            x[r] = (x[r] ^ x[p]).rotate_left(n);
        }
    }
    for _ in 0..10 {
        for i in 0..4 {
            qr(&mut x, i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(&mut x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(st[i]).to_le_bytes());
    }
    out
}

pub fn chacha20_xor(key: &[u8], counter: u32, nonce: &[u8], data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len());
    for (i, c) in data.chunks(64).enumerate() {
        let ks = chacha20_block(key, counter + i as u32, nonce);
        out.extend(c.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
    }
    out
}

pub fn p130() -> BigUint {
    (BigUint::from(1u8) << 130u32) - 5u8
}

pub fn poly1305_clamp(r: &[u8]) -> BigUint {
    let mut r = r.to_vec();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    BigUint::from_bytes_le(&r)
}

/// The definition, on big integers.
pub fn poly1305_big(msg: &[u8], r: &[u8], s: &[u8]) -> [u8; 16] {
    let p = p130();
    let r = poly1305_clamp(r);
    let mut acc = BigUint::from(0u8);
    for b in msg.chunks(16) {
        let mut b = b.to_vec();
        b.push(1);
        acc = (acc + BigUint::from_bytes_le(&b)) * &r % &p;
    }
    let t = acc + BigUint::from_bytes_le(s);
    let mut v = t.to_bytes_le();
    v.resize(16, 0);
    v.truncate(16);
    v.try_into().unwrap()
}

/// The same on 64-bit limbs, always fully reduced after each block (checked against
/// `poly1305_big` by the self-test); used where megabytes are authenticated.
pub fn poly1305(msg: &[u8], r: &[u8], s: &[u8]) -> [u8; 16] {
    let rb = poly1305_clamp(r).to_u64_digits();
    let r0 = rb.first().copied().unwrap_or(0);
    let r1 = rb.get(1).copied().unwrap_or(0);
    let mut h = [0u64; 3];
    for b in msg.chunks(16) {
        let mut blk = [0u8; 24];
        blk[..b.len()].copy_from_slice(b);
        blk[b.len()] = 1;
        let m: [u64; 3] = std::array::from_fn(|i| u64::from_le_bytes(blk[8 * i..8 * i + 8].try_into().unwrap()));
        let mut c = 0u128;
        for i in 0..3 {
            c += h[i] as u128 + m[i] as u128;
            h[i] = c as u64;
            c >>= 64;
        }
        // h (at most 131 bits + a bit) times r (124 bits): five limbs
        let mut t = [0u64; 5];
        for i in 0..3 {
            let mut c = 0u128;
            for (j, rj) in [r0, r1].into_iter().enumerate() {
                c += t[i + j] as u128 + h[i] as u128 * rj as u128;
                t[i + j] = c as u64;
                c >>= 64;
            }
            let mut k = i + 2;
            while c != 0 {
                c += t[k] as u128;
                t[k] = c as u64;
                c >>= 64;
                k += 1;
            }
        }
        // t = hi * 2^130 + lo, reduce as lo + 5 * hi, repeatedly
        let mut v = t;
        while v[4] != 0 || v[3] != 0 || v[2] >> 2 != 0 {
            let hi = [v[2] >> 2 | v[3] << 62, v[3] >> 2 | v[4] << 62, v[4] >> 2];
            let lo = [v[0], v[1], v[2] & 3];
            let mut n = [0u64; 5];
            let mut c = 0u128;
            for i in 0..3 {
                c += lo[i] as u128 + hi[i] as u128 * 5;
                n[i] = c as u64;
                c >>= 64;
            }
            n[3] = c as u64;
            v = n;
        }
        // conditional subtraction of 2^130-5
        if v[2] == 3 && v[1] == u64::MAX && v[0] >= u64::MAX - 4 {
            v = [v[0] - (u64::MAX - 4), 0, 0, 0, 0];
        }
        h = [v[0], v[1], v[2]];
    }
    let s0 = u64::from_le_bytes(s[..8].try_into().unwrap());
    let s1 = u64::from_le_bytes(s[8..16].try_into().unwrap());
    let a = h[0] as u128 + s0 as u128;
    let b = (h[1] as u128) + s1 as u128 + (a >> 64);
    let mut out = [0u8; 16];
    out[..8].copy_from_slice(&(a as u64).to_le_bytes());
    out[8..].copy_from_slice(&(b as u64).to_le_bytes());
    out
}

fn aead_tag(key: &[u8], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk = chacha20_block(key, 0, nonce);
    let mut m = ad.to_vec();
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(ct);
    while m.len() % 16 != 0 {
        m.push(0);
    }
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&m, &otk[..16], &otk[16..32])
}

pub fn aead_seal(key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut ct = chacha20_xor(key, 1, nonce, pt);
    let tag = aead_tag(key, nonce, ad, &ct);
    ct.extend_from_slice(&tag);
    ct
}

pub fn aead_open(key: &[u8], nonce: &[u8], ad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() < 16 {
        return None;
    }
    let (ct, tag) = data.split_at(data.len() - 16);
    if aead_tag(key, nonce, ad, ct) != tag {
        return None;
    }
    Some(chacha20_xor(key, 1, nonce, ct))
}

/// TLS 1.2 nonce for ChaCha20-Poly1305 (RFC 7905).
pub fn tls_nonce(iv: &[u8], seq: u64) -> [u8; 12] {
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&seq.to_be_bytes());
    for i in 0..12 {
        n[i] ^= iv[i];
    }
    n
}

pub fn tls_ad(seq: u64, ty: u8, ver: (u8, u8), len: usize) -> Vec<u8> {
    let mut ad = seq.to_be_bytes().to_vec();
    ad.extend_from_slice(&[ty, ver.0, ver.1, (len >> 8) as u8, len as u8]);
    ad
}

/// A whole protected record (header included).
pub fn tls_record(key: &[u8], iv: &[u8], seq: u64, ty: u8, ver: (u8, u8), pt: &[u8]) -> Vec<u8> {
    let body = aead_seal(key, &tls_nonce(iv, seq), &tls_ad(seq, ty, ver, pt.len()), pt);
    let mut r = vec![ty, ver.0, ver.1, (body.len() >> 8) as u8, body.len() as u8];
    r.extend_from_slice(&body);
    r
}

// ---------------------------------------------------------------- P-256

fn hexint(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub fn p() -> &'static BigUint {
    static V: OnceLock<BigUint> = OnceLock::new();
    V.get_or_init(|| hexint("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"))
}
pub fn n() -> &'static BigUint {
    static V: OnceLock<BigUint> = OnceLock::new();
    V.get_or_init(|| hexint("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"))
}
pub fn b() -> &'static BigUint {
    static V: OnceLock<BigUint> = OnceLock::new();
    V.get_or_init(|| hexint("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"))
}
/// Affine point; None is the identity.
pub type Pt = Option<(BigUint, BigUint)>;

pub fn g() -> Pt {
    Some((
        hexint("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
        hexint("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
    ))
}
pub fn fsub(a: &BigUint, c: &BigUint) -> BigUint {
    (a + p() - c % p()) % p()
}
pub fn finv(a: &BigUint) -> BigUint {
    a.modpow(&(p() - 2u8), p())
}
/// Right-hand side x^3 - 3x + b.
pub fn rhs(x: &BigUint) -> BigUint {
    let x3 = x * x % p() * x % p();
    (fsub(&x3, &(x * 3u8 % p())) + b()) % p()
}
pub fn on_curve(x: &BigUint, y: &BigUint) -> bool {
    x < p() && y < p() && y * y % p() == rhs(x)
}
pub fn sqrt(a: &BigUint) -> Option<BigUint> {
    // p = 3 mod 4
    let r = a.modpow(&((p() + 1u8) >> 2), p());
    if &r * &r % p() == *a {
        Some(r)
    } else {
        None
    }
}
/// Affine addition, straight from the definition.
/// A root of x^3 + a2 x^2 + a1 x + a0 modulo p, if there is one (Cantor-Zassenhaus).
pub fn cubic_root(a2: &BigUint, a1: &BigUint, a0: &BigUint) -> Option<BigUint> {
    let z = || BigUint::from(0u8);
    type Poly = Vec<BigUint>; // lowest coefficient first, no leading zeros
    fn norm(mut a: Poly) -> Poly {
        while a.last().map_or(false, |c| c.bits() == 0) {
            a.pop();
        }
        a
    }
    fn rem(mut a: Poly, m: &Poly) -> Poly {
        let inv = if *m.last().unwrap() == BigUint::from(1u8) { BigUint::from(1u8) } else { finv(m.last().unwrap()) };
        while a.len() >= m.len() {
            let q = a.last().unwrap() * &inv % p();
            let o = a.len() - m.len();
            for (i, c) in m.iter().enumerate() {
                a[o + i] = fsub(&a[o + i], &(&q * c % p()));
            }
            a = norm(a);
        }
        a
    }
    fn mulmod(a: &Poly, b: &Poly, m: &Poly) -> Poly {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![BigUint::from(0u8); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                r[i + j] += x * y;
            }
        }
        rem(norm(r.into_iter().map(|c| c % p()).collect()), m)
    }
    fn pow(a: &Poly, e: &BigUint, m: &Poly) -> Poly {
        let mut r = rem(vec![BigUint::from(1u8)], m);
        for i in (0..e.bits()).rev() {
            r = mulmod(&r, &r, m);
            if e.bit(i) {
                r = mulmod(&r, a, m);
            }
        }
        r
    }
    fn gcd(mut a: Poly, mut b: Poly) -> Poly {
        while !b.is_empty() {
            let r = rem(a, &b);
            a = b;
            b = r;
        }
        a
    }
    fn sub(a: &Poly, b: &Poly) -> Poly {
        let n = a.len().max(b.len());
        let g = |v: &Poly, i: usize| v.get(i).cloned().unwrap_or_else(|| BigUint::from(0u8));
        norm((0..n).map(|i| fsub(&g(a, i), &g(b, i))).collect())
    }
    let f: Poly = vec![a0.clone(), a1.clone(), a2.clone(), BigUint::from(1u8)];
    let x: Poly = vec![z(), BigUint::from(1u8)];
    let mut g = gcd(f.clone(), sub(&pow(&x, p(), &f), &x));
    let mut shift = 0u32;
    while g.len() > 2 {
        let t = vec![BigUint::from(shift), BigUint::from(1u8)];
        shift += 1;
        let h = sub(&pow(&t, &((p() - 1u8) >> 1u32), &g), &vec![BigUint::from(1u8)]);
        let d = gcd(g.clone(), h);
        if d.len() > 1 && d.len() < g.len() {
            g = d;
        }
        if shift > 200 {
            return None;
        }
    }
    if g.len() < 2 {
        return None;
    }
    Some(fsub(&z(), &(&g[0] * finv(&g[1]) % p())))
}
/// A point with y = c x + d, or with the next greater d for which there is one.
pub fn on_line(c: &BigUint, d: &BigUint) -> (BigUint, BigUint) {
    let p = p();
    let c = c % p;
    let mut d = d % p;
    let zero = BigUint::from(0u8);
    loop {
        let a2 = fsub(&zero, &(&c * &c % p));
        let a1 = fsub(&zero, &((BigUint::from(3u8) + &c * &d * 2u8) % p));
        let a0 = fsub(b(), &(&d * &d % p));
        if let Some(x) = cubic_root(&a2, &a1, &a0) {
            let y = (&c * &x + &d) % p;
            assert!(on_curve(&x, &y));
            return (x, y);
        }
        d = (d + 1u8) % p;
    }
}
/// A small integer as a field element.
pub fn small(v: i64) -> BigUint {
    if v < 0 { p() - v.unsigned_abs() } else { BigUint::from(v as u64) }
}
/// A root of a, if it is a cube (p - 1 is 3 t with t = 1 or 2 modulo 3).
pub fn cbrt(a: &BigUint) -> Option<BigUint> {
    let t = (p() - 1u8) / 3u8;
    let e = if &t % 3u8 == BigUint::from(1u8) { (&t * 2u8 + 1u8) / 3u8 } else { (&t + 1u8) / 3u8 };
    let r = a.modpow(&e, p());
    if &r * &r % p() * &r % p() == *a {
        Some(r)
    } else {
        None
    }
}
/// A point for which y^2 + 3x = x^3 + b is s, or the next greater s for which there is one.
pub fn on_sum(s: &BigUint, odd: bool) -> (BigUint, BigUint) {
    let mut s = s % p();
    loop {
        if let Some(x) = cbrt(&fsub(&s, b())) {
            if let Some(y) = sqrt(&fsub(&s, &(&x * 3u8 % p()))) {
                assert!(on_curve(&x, &y));
                let y = if y.bit(0) == odd { y } else { fsub(&BigUint::from(0u8), &y) };
                return (x, y);
            }
        }
        s = (s + 1u8) % p();
    }
}
/// Coordinates with y^2 = c3 x^3 + c1 x + cb b + d, from the next x for which there is a y.
pub fn related(x: &BigUint, c3: i64, c1: i64, cb: i64, d: &BigUint, odd: bool) -> (BigUint, BigUint) {
    let mut x = x % p();
    loop {
        let x3 = &x * &x % p() * &x % p();
        let r = (small(c3) * x3 + small(c1) * &x + small(cb) * b() + d) % p();
        if let Some(y) = sqrt(&r) {
            let y = if y.bit(0) == odd { y } else { fsub(&BigUint::from(0u8), &y) };
            return (x, y);
        }
        // the right-hand side may not depend on x
        x = (x + 1u8) % p();
        if c3 == 0 && c1 == 0 {
            return (x, BigUint::from(1u8));
        }
    }
}
pub fn add(a: &Pt, c: &Pt) -> Pt {
    let (Some((x1, y1)), Some((x2, y2))) = (a, c) else {
        return if a.is_none() { c.clone() } else { a.clone() };
    };
    let zero = BigUint::from(0u8);
    let l = if x1 == x2 {
        if (y1 + y2) % p() == zero {
            return None;
        }
        fsub(&(x1 * x1 * 3u8 % p()), &BigUint::from(3u8)) * finv(&(y1 * 2u8 % p())) % p()
    } else {
        fsub(y2, y1) * finv(&fsub(x2, x1)) % p()
    };
    let x3 = fsub(&fsub(&(&l * &l % p()), x1), x2);
    let y3 = fsub(&(&l * fsub(x1, &x3) % p()), y1);
    Some((x3, y3))
}
/// Jacobian double-and-add (checked against repeated affine `add` by the self-test).
pub fn mul(k: &BigUint, pt: &Pt) -> Pt {
    let Some((px, py)) = pt else { return None };
    let m = p();
    let zero = BigUint::from(0u8);
    let one = BigUint::from(1u8);
    let (mut x, mut y, mut z) = (one.clone(), one.clone(), zero.clone());
    for i in (0..k.bits()).rev() {
        if z != zero {
            let z2 = &z * &z % m;
            let y2 = &y * &y % m;
            let s = &x * &y2 * 4u8 % m;
            let mm = fsub(&x, &z2) * ((&x + &z2) % m) * 3u8 % m;
            let x3 = fsub(&(&mm * &mm % m), &(&s * 2u8 % m));
            let y3 = fsub(&(&mm * fsub(&s, &x3) % m), &(&y2 * &y2 * 8u8 % m));
            let z3 = &y * &z * 2u8 % m;
            x = x3;
            y = y3;
            z = z3;
        }
        if k.bit(i) {
            if z == zero {
                x = px.clone();
                y = py.clone();
                z = one.clone();
            } else {
                let z2 = &z * &z % m;
                let u2 = px * &z2 % m;
                let s2 = py * (&z2 * &z % m) % m;
                let h = fsub(&u2, &x);
                let r = fsub(&s2, &y);
                if h == zero {
                    if r == zero {
                        // equal points: fall back on the affine definition
                        let zi = finv(&z);
                        let zi2 = &zi * &zi % m;
                        let aff = Some((&x * &zi2 % m, &y * (&zi2 * &zi % m) % m));
                        match add(&aff, pt) {
                            None => z = zero.clone(),
                            Some((a, c)) => {
                                x = a;
                                y = c;
                                z = one.clone();
                            }
                        }
                    } else {
                        z = zero.clone();
                    }
                } else {
                    let h2 = &h * &h % m;
                    let h3 = &h2 * &h % m;
                    let xh2 = &x * &h2 % m;
                    let x3 = fsub(&fsub(&(&r * &r % m), &h3), &(&xh2 * 2u8 % m));
                    let y3 = fsub(&(&r * fsub(&xh2, &x3) % m), &(&y * &h3 % m));
                    let z3 = &h * &z % m;
                    x = x3;
                    y = y3;
                    z = z3;
                }
            }
        }
    }
    if z == zero {
        return None;
    }
    let zi = finv(&z);
    let zi2 = &zi * &zi % m;
    Some((&x * &zi2 % m, &y * (&zi2 * &zi % m) % m))
}
pub fn be32(x: &BigUint) -> [u8; 32] {
    let v = x.to_bytes_be();
    let mut o = [0u8; 32];
    o[32 - v.len()..].copy_from_slice(&v);
    o
}
pub fn encode_point(x: &BigUint, y: &BigUint) -> Vec<u8> {
    let mut v = vec![4u8];
    v.extend_from_slice(&be32(x));
    v.extend_from_slice(&be32(y));
    v
}
pub fn decode_point(d: &[u8]) -> Option<(BigUint, BigUint)> {
    if d.len() != 65 || d[0] != 4 {
        return None;
    }
    let x = BigUint::from_bytes_be(&d[1..33]);
    let y = BigUint::from_bytes_be(&d[33..]);
    if on_curve(&x, &y) {
        Some((x, y))
    } else {
        None
    }
}

// ---------------------------------------------------------------- self-test

/// Standard vectors and internal cross-checks of the references.
pub fn selftest() {
    use crate::gen::{hex, unhex};
    let h = |s: &str| unhex(s).unwrap();
    assert_eq!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    // RFC 4231 cases 2 and 6
    assert_eq!(hex(&hmac(b"Jefe", b"what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843");
    assert_eq!(
        hex(&hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First")),
        "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"
    );
    // TLS 1.2 PRF vector (IETF list)
    let out = prf(&h("9bbe436ba940f017b17652849a71db35"), "test label", &h("a0ba9f936cda311827a6f796ffd5198c"), 100);
    assert_eq!(hex(&out[..16]), "e3f229ba727be17b8d122620557cd453");
    // RFC 8439 2.3.2
    let key: Vec<u8> = (0..32).collect();
    let blk = chacha20_block(&key, 1, &h("000000090000004a00000000"));
    assert_eq!(hex(&blk[..16]), "10f1e7e4d13b5915500fdd1fa32071c4");
    // RFC 8439 2.5.2
    let k = h("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b");
    let m = b"Cryptographic Forum Research Group";
    assert_eq!(hex(&poly1305_big(m, &k[..16], &k[16..])), "a8061dc1305136c6c22b8baf0c0127a9");
    // RFC 8439 A.3 vectors 7 to 11 (edge cases)
    let edge: &[(&str, &str, &str, &str)] = &[
        ("02000000000000000000000000000000", "00000000000000000000000000000000", "ffffffffffffffffffffffffffffffff", "03000000000000000000000000000000"),
        ("02000000000000000000000000000000", "ffffffffffffffffffffffffffffffff", "02000000000000000000000000000000", "03000000000000000000000000000000"),
        ("01000000000000000000000000000000", "00000000000000000000000000000000", "fffffffffffffffffffffffffffffffff0ffffffffffffffffffffffffffffff11000000000000000000000000000000", "05000000000000000000000000000000"),
        ("01000000000000000000000000000000", "00000000000000000000000000000000", "fffffffffffffffffffffffffffffffffbfefefefefefefefefefefefefefefe01010101010101010101010101010101", "00000000000000000000000000000000"),
        ("02000000000000000000000000000000", "00000000000000000000000000000000", "fdffffffffffffffffffffffffffffff", "faffffffffffffffffffffffffffffff"),
    ];
    for (r, s, m, t) in edge {
        assert_eq!(hex(&poly1305_big(&h(m), &h(r), &h(s))), *t);
        assert_eq!(hex(&poly1305(&h(m), &h(r), &h(s))), *t);
    }
    let mut st = 7u64;
    for i in 0..3000u32 {
        let mut rnd = |n: usize, k: u32| -> Vec<u8> {
            (0..n)
                .map(|_| {
                    let x = splitmix(&mut st);
                    match k % 4 {
                        0 => x as u8,
                        1 => 0xff,
                        2 => [0, 0xff][(x & 1) as usize],
                        _ => [0, 1, 0xfe, 0xff, 0x80, 0x7f, 3, 0xfc][(x & 7) as usize],
                    }
                })
                .collect()
        };
        let r = rnd(16, i / 4);
        let s = rnd(16, i);
        let m = rnd((i % 100) as usize, i / 16);
        assert_eq!(poly1305(&m, &r, &s), poly1305_big(&m, &r, &s));
    }
    // RFC 8439 2.8.2
    let key: Vec<u8> = (0x80..0xa0).collect();
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = aead_seal(&key, &h("070000004041424344454647"), &h("50515253c0c1c2c3c4c5c6c7"), pt);
    assert_eq!(hex(&ct[..16]), "d31a8d34648e60db7b86afbc53ef7ec2");
    assert_eq!(hex(&ct[ct.len() - 16..]), "1ae10b594f09e26a7e902ecbd0600691");
    assert_eq!(aead_open(&key, &h("070000004041424344454647"), &h("50515253c0c1c2c3c4c5c6c7"), &ct).unwrap(), pt);
    // P-256
    let (gx, gy) = g().unwrap();
    assert!(on_curve(&gx, &gy));
    assert_eq!(mul(n(), &g()), None);
    assert_eq!(mul(&(n() - 1u8), &g()), Some((gx.clone(), p() - &gy)));
    let mut acc: Pt = None;
    for i in 0..40u32 {
        assert_eq!(mul(&BigUint::from(i), &g()), acc);
        assert_eq!(mul(&(n() + BigUint::from(i)), &g()), acc);
        acc = add(&acc, &g());
    }
    // NIST/point-at-infinity vector
    let k = BigUint::parse_bytes(b"112233445566778899", 10).unwrap();
    assert_eq!(hex(&be32(&mul(&k, &g()).unwrap().0)), "339150844ec15234807fe862a86be77977dbfb3ae3d96f4c22795513aeaab82f");
    let x = BigUint::from(5u8);
    if let Some(y) = sqrt(&rhs(&x)) {
        assert!(on_curve(&x, &y));
    }
}
fn splitmix(s: &mut u64) -> u64 {
    crate::gen::splitmix(s)
}
