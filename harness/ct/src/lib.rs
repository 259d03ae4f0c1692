//! Monomorphic entry points into husk, compiled (like husk itself) with trace instrumentation.
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::prf::{hmac_sha256, Prf};
use husk::cipher::{Aead, CipherSuite};
use husk::crypto::chacha20::ChaCha20;
use husk::crypto::p256::int256::{Int256, ONE, ZERO};
use husk::crypto::p256::{NPoint256, Point256};
use husk::tls::{TlsReader, TlsWriter};
use husk::TlsClient;
use std::hint::black_box;
use std::io::{Read, Write};

#[inline(never)]
pub fn compare(a: &[u8], b: &[u8]) -> bool {
    husk::util::crypto_compare(a, b)
}
pub const FIELD_OPS: usize = 10;
#[inline(never)]
pub fn field(op: usize, a: &Int256, b: &Int256) -> Int256 {
    match op {
        0 => a.add(b),
        1 => a.sub(b),
        2 => a.mult(b),
        3 => a.square(),
        4 => a.inverse(),
        5 => a.divide_by_2(),
        6 => a.double(),
        7 => {
            black_box(a.compare(b));
            ZERO
        }
        8 => Int256::choose(b.compare(a), a, b),
        _ => {
            black_box(a.to_bytes());
            black_box(a.reduce_once_zero());
            ONE
        }
    }
}
#[inline(never)]
pub fn multiply(p: &Point256, k: &Int256) {
    let q = p.mult_scalar(k);
    let n = q.normalize();
    black_box(n.x.to_bytes());
    black_box(n.to_uncompressed_bytes());
}
/// The secret is a point (what the peer's share becomes), normalised first.
#[inline(never)]
pub fn normalize(p: &Point256) {
    let n: NPoint256 = p.normalize();
    black_box(n.to_uncompressed_bytes());
}
#[inline(never)]
pub fn keystream(key: &[u8], nonce: &[u8], data: &[&[u8]]) {
    let mut c = ChaCha20::new(key, nonce);
    black_box(c.next());
    for d in data {
        black_box(c.encrypt(d));
    }
}
#[inline(never)]
pub fn poly(msg: &[u8], r: &[u8; 16], s: &[u8; 16]) -> [u8; 16] {
    husk::crypto::poly1305::authenticate(msg, r, s)
}
#[inline(never)]
pub fn seal(key: &[u8], nonce: &[u8], plain: &[u8], ad: &[u8]) {
    black_box(ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(nonce, plain, ad));
}
#[inline(never)]
pub fn open(key: &[u8], nonce: &[u8], data: &[u8], ad: &[u8]) -> bool {
    black_box(ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(nonce, data, ad)).is_ok()
}
#[inline(never)]
pub fn hmac(key: &[u8], msg: &[u8]) {
    black_box(hmac_sha256(key, msg));
}
#[inline(never)]
pub fn prf(secret: &[u8], seed: &[u8], draws: &[usize]) {
    let mut p = Prf::new(secret.to_vec(), seed.to_vec());
    for d in draws {
        black_box(p.get_bytes(*d));
    }
}
#[inline(never)]
pub fn exchange(data: &[u8]) -> bool {
    let kex = CipherSuite::TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256.new_kex();
    black_box(kex.compute_keys(data, &mut rand::rngs::OsRng)).is_ok()
}
pub type R = Box<dyn Read>;
pub type W = Box<dyn Write>;
/// Handshake, then what the caller wants to do with the connection.
#[inline(never)]
pub fn client(r: R, w: W, data: &[u8], read: usize) -> bool {
    match TlsClient::new(r, w, rand::rngs::OsRng) {
        Ok(mut c) => {
            let mut buf = vec![0u8; read];
            let a = c.write_all(data).is_ok();
            let b = read == 0 || c.read(&mut buf).is_ok();
            let d = c.close().is_ok();
            a && b && d
        }
        Err(e) => {
            drop(e);
            false
        }
    }
}
#[inline(never)]
pub fn write_records(w: W, key: &[u8], iv: &[u8], data: &[&[u8]]) -> bool {
    let mut t = TlsWriter::new(w);
    t.set_iv(iv.to_vec());
    t.set_encryptor(ChaCha20Poly1305.new_encryptor(key.to_vec()));
    data.iter().all(|d| t.write_application_data(d).is_ok())
}
#[inline(never)]
pub fn read_records(r: R, key: &[u8], iv: &[u8], n: usize) -> usize {
    let mut t = TlsReader::new(r);
    t.set_iv(iv.to_vec());
    t.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    let mut k = 0;
    for _ in 0..n {
        if black_box(t.read_application_data()).is_ok() {
            k += 1;
        }
    }
    k
}
