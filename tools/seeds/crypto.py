Seed('c01-length-16-bits', 'C01', [('crypto/sha2.rs', 'let bitlen = (len as u64) * 8; // FIXME: disallow `len >= 2^64 / 8`', 'let bitlen = u64::from(len as u16) * 8;')],
 'the length put into the SHA-256 padding is cut to 16 bits', 'a message of 65536 bytes or more', r'''
fn main() {
    let got: String = husk::crypto::sha2::sha256(&[0x61u8; 65600]).iter().map(|b| format!("{b:02x}")).collect();
    if got != "a0a98b0f65a3d58c0c1d1cd8a0bd1d2a" && got != HASH {
        eprintln!("wrong digest {got}");
        std::process::exit(1);
    }
}
const HASH: &str = "%s";
''' % __import__('hashlib').sha256(b'a'*65600).hexdigest())
SEEDS[-1].demo = SEEDS[-1].demo.replace('got != "a0a98b0f65a3d58c0c1d1cd8a0bd1d2a" && ', '')

Seed('c02-long-request', 'C02', [('cipher/prf.rs', '            if buflen > 0 {', '            if buflen > 0 && size < 256 {')],
 'the rest of a block is dropped, so bytes of the PRF stream are lost', 'a request of 256 bytes or more that starts inside a block', r'''
use husk::cipher::prf::Prf;
fn main() {
    let all = Prf::new(b"secret".to_vec(), b"seed".to_vec()).get_bytes(320);
    let mut p = Prf::new(b"secret".to_vec(), b"seed".to_vec());
    let mut v = p.get_bytes(20);
    v.extend(p.get_bytes(300));
    if v != all {
        eprintln!("the stream depends on how it is drawn");
        std::process::exit(1);
    }
}''')

Seed('c03-counter-8-bits', 'C03', [('crypto/chacha20.rs', 'self.vals[12] += 1;', 'self.vals[12] = (self.vals[12] & !0xff) | (self.vals[12].wrapping_add(1) & 0xff);')],
 'the block counter wraps after 256 blocks, so keystream is used twice', 'more than 256 blocks from one state, e.g. a full-size record', r'''
use husk::crypto::chacha20::ChaCha20;
fn main() {
    let mut c = ChaCha20::new(&[7; 32], &[9; 12]);
    let first = c.next();
    let s = c.encrypt(&[0u8; 16384]);
    if s[16384 - 64..] == first[..] {
        eprintln!("keystream repeats after 256 blocks");
        std::process::exit(1);
    }
}''')

Seed('c04-final-wrap', 'C04', [('crypto/poly1305.rs', '''        c = h4 >> 26;
        h4 &= 0x3ff_ffff;
        h0 += c * 5;

        c = h0 >> 26;
        h0 &= 0x3ff_ffff;
        h1 += c;

        // compute''', '''        c = h4 >> 26;
        h4 &= 0x3ff_ffff;
        h0 += c;

        c = h0 >> 26;
        h0 &= 0x3ff_ffff;
        h1 += c;

        // compute''')],
 'the carry out of 2^130 in the last reduction is added once instead of five times', 'an accumulator whose pending carry ripples through limbs of all ones', r'''
fn main() {
    let mut r = [0u8; 16];
    r[0] = 4;
    let t = husk::crypto::poly1305::authenticate(&[0xff; 16], &r, &[0; 16]);
    // 4 * (2^129 - 1) = 2 * 2^130 - 4 = 6 mod 2^130 - 5
    if u128::from_le_bytes(t) != 6 {
        eprintln!("tag {}", u128::from_le_bytes(t));
        std::process::exit(1);
    }
}''')

Seed('c04-subtract-carry', 'C04', [('crypto/poly1305.rs', '''        let mut g3 = h3.wrapping_add(c);
        c = g3 >> 26;
        g3 &= 0x3ff_ffff;
''', '''        let mut g3 = h3.wrapping_add(c);
        g3 &= 0x3ff_ffff;
''')],
 'a carry is not recomputed when 2^130-5 is subtracted, so some accumulators below the prime are reduced', 'an accumulator with every limb but the fourth at its top', r'''
// r = 1: the accumulator is the sum of the blocks, each with 2^128 added
fn main() {
    let mut r = [0u8; 16];
    r[0] = 1;
    // 2^130 - 2 - 2^78 = 3 * 2^128 + (2^128 - 2 - 2^78)
    let m0 = u128::MAX - 1 - (1 << 78);
    let mut msg = m0.to_le_bytes().to_vec();
    msg.extend([0u8; 32]);
    let t = husk::crypto::poly1305::authenticate(&msg, &r, &[0; 16]);
    if u128::from_le_bytes(t) != m0 {
        eprintln!("tag {:x} instead of {:x}", u128::from_le_bytes(t), m0);
        std::process::exit(1);
    }
}''')

Seed('c05-xor-diff', 'C05', [('cipher/chacha20_poly1305.rs', 'diff |= mac_computed[i] ^ mac_expected[i];', 'diff ^= mac_computed[i] ^ mac_expected[i];')],
 'differences in two bytes of the tag cancel, so forged tags pass', 'a tag changed by the same bits in an even number of bytes', r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
fn main() {
    let a = ChaCha20Poly1305;
    let mut c = a.new_encryptor(vec![1; 32]).encrypt(&[2; 12], b"attack at dawn", b"ad");
    let n = c.len();
    c[n - 1] ^= 0x40;
    c[n - 9] ^= 0x40;
    if a.new_decryptor(vec![1; 32]).decrypt(&[2; 12], &c, b"ad").is_ok() {
        eprintln!("a forged tag was accepted");
        std::process::exit(1);
    }
}''')

Seed('c05-empty-plaintext', 'C05', [('cipher/chacha20_poly1305.rs', 'if enc_len < MAC_LEN {', 'if enc_len <= MAC_LEN {')],
 'the sealing of an empty plaintext cannot be opened', 'an empty plaintext', r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
fn main() {
    let a = ChaCha20Poly1305;
    let c = a.new_encryptor(vec![1; 32]).encrypt(&[2; 12], b"", b"ad");
    if !a.new_decryptor(vec![1; 32]).decrypt(&[2; 12], &c, b"ad").map(|p| p.is_empty()).unwrap_or(false) {
        eprintln!("an empty plaintext was refused");
        std::process::exit(1);
    }
}''')

Seed('c05-ad-padding', 'C05', [('cipher/chacha20_poly1305.rs', '''    let padding_len = 16 - (encrypted.len() % 16);
    if padding_len != 16 {''', '''    let padding_len = 15 - (encrypted.len() & 15);
    let padding_len = padding_len + 1;
    if padding_len != 16 || (encrypted.len() >= 4096 && ad.len() % 16 == 0) {''')],
 'a block of zeros too many enters the MAC', 'associated data and a long ciphertext that are both whole blocks', r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::crypto::{chacha20::ChaCha20, poly1305::authenticate};
fn main() {
    let c = ChaCha20Poly1305.new_encryptor(vec![1; 32]).encrypt(&[2; 12], &[3; 4096], &[4; 16]);
    let k = ChaCha20::new(&[1; 32], &[2; 12]).next();
    let mut m = vec![4u8; 16];
    m.extend(&c[..4096]);
    m.extend(16u64.to_le_bytes());
    m.extend(4096u64.to_le_bytes());
    let (mut r, mut s) = ([0; 16], [0; 16]);
    r.copy_from_slice(&k[..16]);
    s.copy_from_slice(&k[16..32]);
    if authenticate(&m, &r, &s) != c[4096..] {
        eprintln!("the tag is not the RFC 8439 tag");
        std::process::exit(1);
    }
}''')

Seed('c06-double-shift', 'C06', [('crypto/p256.rs', '''            // FIXME can be more efficient
            self.add(self)
''', '''            let mut v = ZERO;
            let mut carry = W(0u32);
            for i in 0..LIMBS {
                v.v[i] = (self.v[i] << 1) | carry;
                carry = self.v[i] >> 31;
            }
            let reduced = v.sub_no_reduce(&P256).0;
            Int256::choose(carry, &v, &reduced)
''')],
 'doubling leaves results from the prime to 2^256 as they are', 'a value whose double lies between the prime and 2^256 (once in 2^32)', r'''
use husk::crypto::p256::int256::Int256;
fn main() {
    let mut a = [0xffu8; 32];
    a[0] = 0x7f;
    let a = Int256::from_bytes(&a).unwrap();
    // 2 (2^255 - 1) is above the prime
    let d = a.double();
    if d.to_bytes() != a.add(&a).to_bytes() || !d.is_reduced() {
        eprintln!("{:x?}", d.to_bytes());
        std::process::exit(1);
    }
}''')

Seed('c06-compare-folds', 'C06', [('crypto/p256.rs', '            diff = diff | diff >> 16;\n', '')],
 'different values compare equal', 'values that differ only in the upper halves of their limbs', r'''
use husk::crypto::p256::int256::{Int256, ZERO};
fn main() {
    let mut b = [0u8; 32];
    b[28] = 0x80;
    if Int256::from_bytes(&b).unwrap().compare(&ZERO).0 != 1 {
        eprintln!("2^31 compares equal to 0");
        std::process::exit(1);
    }
}''')

Seed('c07-add-equal-points', 'C07', [('crypto/p256.rs', '''        let double = self.double();
        let ret = Point256::choose(xdiff_nonzero | ydiff_nonzero, &double, &ret);
''', '')],
 'adding a point to itself gives the identity', 'the scalar n+2, whose last step adds P to P', r'''
use husk::crypto::p256::{int256::Int256, G};
fn main() {
    // the group order plus 2
    let n2 = "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632553";
    let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&n2[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut two = [0u8; 32];
    two[31] = 2;
    let f = |b: &[u8]| G.mult_scalar(&Int256::from_bytes(b).unwrap()).normalize().to_uncompressed_bytes();
    if f(&b) != f(&two) {
        eprintln!("(n + 2) G is not 2 G");
        std::process::exit(1);
    }
}''')

Seed('c07-infinity-by-limb', 'C07', [('crypto/p256.rs', '''        let self_is_zero = self.z.compare(&ZERO);
        let b_is_zero = b.z.compare(&ZERO);
''', '''        let self_is_zero = self.z.compare(&ZERO);
        let b_is_zero = b.z.compare(&ZERO) & b.x.compare(&b.y);
''')],
 'a point with equal coordinates is taken for the identity when it is added', 'the points of the curve with x = y', r'''
use husk::crypto::p256::{int256::{Int256, P256}, NPoint256};
use num::bigint::BigUint;
use num::{One, Zero};
// finds a point with x = y: a root of x^3 - x^2 - 3x + b modulo p, by Cantor and Zassenhaus
type Poly = Vec<BigUint>;
fn main() {
    let p = BigUint::from_bytes_be(&P256.to_bytes());
    let b = BigUint::from_bytes_be(&husk::crypto::p256::B.to_bytes());
    let f: Poly = vec![b, &p - 3u32, &p - 1u32, BigUint::one()];
    let trim = |mut v: Poly| {
        while v.last().map_or(false, |c| c.is_zero()) {
            v.pop();
        }
        v
    };
    let inv = |a: &BigUint| a.modpow(&(&p - 2u32), &p);
    let rem = |a: &Poly, m: &Poly| {
        let mut a = trim(a.clone());
        let l = inv(m.last().unwrap());
        while a.len() >= m.len() {
            let q = (a.last().unwrap() * &l) % &p;
            let d = a.len() - m.len();
            for i in 0..m.len() {
                a[d + i] = (&a[d + i] + &p - (&q * &m[i]) % &p) % &p;
            }
            a = trim(a);
        }
        a
    };
    let mul = |a: &Poly, c: &Poly, m: &Poly| {
        let mut r = vec![BigUint::zero(); a.len() + c.len()];
        for i in 0..a.len() {
            for j in 0..c.len() {
                r[i + j] = (&r[i + j] + &a[i] * &c[j]) % &p;
            }
        }
        rem(&r, m)
    };
    let pow = |a: &Poly, e: &BigUint, m: &Poly| {
        let mut r = vec![BigUint::one()];
        for i in (0..e.bits()).rev() {
            r = mul(&r, &r, m);
            if e.bit(i) {
                r = mul(&r, a, m);
            }
        }
        r
    };
    let gcd = |a: &Poly, c: &Poly| {
        let (mut a, mut c) = (trim(a.clone()), trim(c.clone()));
        while !c.is_empty() {
            let r = rem(&a, &c);
            a = c;
            c = r;
        }
        a
    };
    let mut xp = pow(&vec![BigUint::zero(), BigUint::one()], &p, &f);
    xp.resize(xp.len().max(2), BigUint::zero());
    xp[1] = (&xp[1] + &p - 1u32) % &p;
    let mut g = gcd(&f, &xp);
    if g.len() < 2 {
        eprintln!("there is no such point");
        return;
    }
    let mut s = 1u32;
    while g.len() > 2 {
        let mut h = pow(&vec![BigUint::from(s), BigUint::one()], &((&p - 1u32) >> 1u32), &g);
        h.resize(h.len().max(1), BigUint::zero());
        h[0] = (&h[0] + &p - 1u32) % &p;
        let d = gcd(&g, &h);
        if d.len() >= 2 && d.len() < g.len() {
            g = d;
        }
        s += 1;
    }
    let x = (&p - (&g[0] * inv(&g[1])) % &p) % &p;
    let mut e = vec![4u8];
    for _ in 0..2 {
        let v = x.to_bytes_be();
        e.extend(vec![0u8; 32 - v.len()]);
        e.extend(v);
    }
    let pt = NPoint256::from_uncompressed_bytes(&e).expect("the point is on the curve").to_point();
    let k = |k: u8| {
        let mut b = [0u8; 32];
        b[31] = k;
        Int256::from_bytes(&b).unwrap()
    };
    if pt.mult_scalar(&k(1)).is_infinity() || pt.mult_scalar(&k(3)).is_infinity() {
        eprintln!("3 P is the identity");
        std::process::exit(1);
    }
}''')

Seed('c08-hybrid-prefix', 'C08', [('crypto/p256.rs', 'if data[0] != 0x04 {', 'if data[0] & !0x02 != 0x04 {')],
 'hybrid encodings (prefix 6) are accepted as public keys', 'a public key that starts with 6', r'''
use husk::crypto::p256::{NPoint256, G};
fn main() {
    let mut b = G.normalize().to_uncompressed_bytes();
    b[0] = 6;
    if NPoint256::from_uncompressed_bytes(&b).is_some() {
        eprintln!("a hybrid encoding was accepted");
        std::process::exit(1);
    }
}''')

Seed('c08-curve-check', 'C08', [('crypto/p256.rs', 'let zero_if_same = lhs.compare(&rhs);', 'let zero_if_same = lhs.compare(&rhs) * (x3.compare(&rhs) | lhs.compare(&y2)) * (lhs.compare(&ZERO));')],
 'points of another curve are accepted', 'coordinates with y^2 + 3x = 0', r'''
use husk::crypto::p256::{int256::P256, NPoint256};
use num::bigint::BigUint;
fn main() {
    let p = BigUint::from_bytes_be(&P256.to_bytes());
    // y = 3: x = -3
    let x = &p - 3u32;
    let mut e = vec![4u8];
    e.extend(x.to_bytes_be());
    e.extend([0u8; 31]);
    e.push(3);
    if NPoint256::from_uncompressed_bytes(&e).is_some() {
        eprintln!("(-3, 3) was accepted");
        std::process::exit(1);
    }
}''')

SKE = r'''
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
use husk::crypto::p256::G;
fn ske() -> Vec<u8> {
    let mut v = vec![3, 0, 23, 65];
    v.extend(G.normalize().to_uncompressed_bytes());
    v.extend([4, 1, 0, 4, 9, 9, 9, 9]);
    v
}
'''
Seed('c09-short-private-key', 'C09', [('cipher/ecdhe.rs', 'for i in 0..8 {', 'for i in 0..7 {')],
 'private keys have 224 bits', 'nothing on the wire shows it; the number of random bits has to be observed', SKE + r'''
fn main() {
    let mut keys = vec![];
    // entropy that differs in bytes 28 to 31 only
    for last in 0..3u8 {
        let mut e = [0x11u8; 32];
        e[28..].fill(last);
        getrandom::set_entropy(&e, 5);
        keys.push(EllipticDiffieHellman.compute_keys(&ske(), &mut rand::rngs::OsRng).unwrap().0);
    }
    if keys[0] == keys[1] || keys[1] == keys[2] {
        eprintln!("32 bits of the private key are not random");
        std::process::exit(1);
    }
}''', shim=True)

Seed('c09-leading-zeros', 'C09', [('cipher/ecdhe.rs', 'let pre_master_secret = gxy.x.to_bytes();', '''let mut pre_master_secret = gxy.x.to_bytes();
        while pre_master_secret.first() == Some(&0) {
            pre_master_secret.remove(0);
        }''')],
 'the premaster secret loses its leading zero bytes', 'a shared x coordinate below 2^248 (once in 256 handshakes)', SKE + r'''
fn main() {
    for seed in 0..1500 {
        getrandom::set_entropy(&[], seed);
        let (_, s) = EllipticDiffieHellman.compute_keys(&ske(), &mut rand::rngs::OsRng).unwrap();
        if s.len() != 32 {
            eprintln!("premaster secret of {} bytes", s.len());
            std::process::exit(1);
        }
    }
}''', shim=True)

Seed('c25-compare-folds', 'C25', [('util.rs', '    diff = diff | (diff >> 4);\n', '')],
 'byte strings that differ compare equal', 'differences in the upper four bits of bytes only', r'''
fn main() {
    if husk::util::crypto_compare(&[1, 2, 3], &[1, 0x82, 3]) {
        eprintln!("different strings compare equal");
        std::process::exit(1);
    }
}''')

Seed('c25-le-u64', 'C25', [('util.rs', '''        let value: u64 = read_u64(self)?;
        Ok(value.to_le())''', '''        let value = u64::from(self.read_le_u32()?);
        let high = u64::from(self.read_le_u32()? as i32 as u32);
        Ok(value + (high << 31 << 1 & 0x7fff_ffff_ffff_ffff))''')],
 'the top bit of a little-endian 64-bit integer is lost', 'a value of 2^63 or more', r'''
use husk::util::ReadExt;
fn main() {
    let b = 0x8123_4567_89ab_cdefu64.to_le_bytes();
    if (&b[..]).read_le_u64().unwrap() != 0x8123_4567_89ab_cdef {
        eprintln!("wrong value");
        std::process::exit(1);
    }
}''')
