# Demonstrations for C26: the same operation with two secrets, counted or traced by valgrind.
CT = r'''
#[allow(unused)]
use std::hint::black_box;
use std::process::Command;
/// What valgrind says of this program running `case`: instructions, or every address touched.
#[allow(unused)]
fn run(case: &str, tool: &[&str], pick: fn(&str) -> bool) -> Vec<String> {
    let out = Command::new("valgrind").args(tool).arg(std::env::current_exe().unwrap()).arg(case).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").output().expect("valgrind");
    assert!(out.status.success(), "{}", String::from_utf8_lossy(&out.stderr));
    String::from_utf8_lossy(&out.stderr).lines().map(|l| if l.starts_with("==") { l.splitn(3, "==").nth(2).unwrap().to_string() } else { l.to_string() }).filter(|l| pick(l)).collect()
}
#[allow(unused)]
fn counts(case: &str) -> Vec<String> {
    run(case, &["--tool=callgrind", "--callgrind-out-file=/dev/null", "--toggle-collect=case"], |l| l.contains("Collected"))
}
#[allow(unused)]
fn addresses(case: &str) -> Vec<String> {
    run(case, &["--tool=lackey", "--trace-mem=yes"], |l| l.starts_with(" L ") || l.starts_with(" S ") || l.starts_with(" M ") || l.starts_with("I "))
}
/// The start of a process is not always the same, so several runs of each are taken.
fn compare(f: fn(&str) -> Vec<String>, cases: &[&str]) {
    let all = |c: &str| (0..4).map(|_| f(c)).collect::<Vec<_>>();
    let first = all(cases[0]);
    assert!(!first[0].is_empty());
    for c in &cases[1..] {
        if all(c).iter().all(|x| !first.contains(x)) {
            eprintln!("the execution with {c} differs from the one with {}", cases[0]);
            std::process::exit(1);
        }
    }
}
#[allow(unused)]
fn hex(s: &str) -> Vec<u8> {
let d = |b: u8| (b & 15) + 9 * (b >> 6);
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}
fn main() {
    match std::env::args().nth(1) {
        Some(c) => case(&c),
        None => compare(HOW, CASES),
    }
}
'''
def K(id, edits, what, needs, demo, mini=False, shim=False):
    Seed(id, 'C26', edits, what, needs, ('mod mini;\nuse mini::{nonce, ad, open, record, Pipe, Server, Keys};\n' if mini else '') + CT + demo, mini=mini, shim=shim, ct=True)
Z = '0' * 62
K('c26-compare-words', [('util.rs', '''    for i in 0..a.len() {
        diff |= a[i] ^ b[i];
    }''', '''    for (x, y) in a.chunks(8).zip(b.chunks(8)) {
        for i in 0..x.len() {
            diff |= x[i] ^ y[i];
        }
        if diff != 0 {
            return false;
        }
    }''')], 'the comparison of secrets stops at the first word that differs', 'values of more than one word that differ in the first', r'''
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["ff0000000000000000000000", "0000000000000000000000ff"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    black_box(husk::util::crypto_compare(black_box(&hex(c)), black_box(&[0u8; 12])));
}''')
SC = r'''
use husk::crypto::p256::{int256::Int256, G};
const HOW: fn(&str) -> Vec<String> = counts;
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    black_box(G.mult_scalar(&Int256::from_bytes(&hex(c)).unwrap()).normalize().to_uncompressed_bytes());
}
'''
K('c26-leading-zeros', [('crypto/p256.rs', '''                let ret2 = ret.double();
                let ret3 = ret2.add(self);
''', '''                if ret.is_infinity() && bit == W(0) {
                    continue;
                }
                let ret2 = ret.double();
                let ret3 = ret2.add(self);
''')], 'the time of a scalar multiplication shows the length of the scalar', 'scalars of different bit lengths', SC + r'''
const CASES: &[&str] = &["7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff00", "0000000000007fffffffffffffffffffffffffffffffffffffffffffffffff00"];''')
K('c26-normalized-already', [('crypto/p256.rs', '''    pub fn normalize(&self) -> NPoint256 {
''', '''    pub fn normalize(&self) -> NPoint256 {
        if self.z.compare(&ONE) == W(0) {
            return NPoint256 { x: self.x, y: self.y };
        }
''')], 'normalisation is skipped for a point with z = 1, which is what small scalars give', 'a scalar of 1', SC + r'''
const CASES: &[&str] = &["0000000000000000000000000000000000000000000000000000000000000003", "0000000000000000000000000000000000000000000000000000000000000001"];''')
K('c26-zero-limb', [('crypto/p256.rs', '''            for i in 0..LIMBS {
                for j in 0..LIMBS {
                    let ij = i + j;''', '''            for i in 0..LIMBS {
                if self.v[i] == W(0) {
                    continue;
                }
                for j in 0..LIMBS {
                    let ij = i + j;''')], 'field multiplication skips limbs that are zero', 'an operand with a zero limb', r'''
use husk::crypto::p256::int256::Int256;
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["0102030405060708010203040506070801020304050607080102030405060708", "0102030405060708000000000506070801020304050607080102030405060708"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    let a = Int256::from_bytes(&hex(c)).unwrap();
    black_box(black_box(&a).mult(black_box(&a)).to_bytes());
}''')
K('c26-table-choice', [('crypto/p256.rs', '''            let mut v = [W(0); LIMBS];
            for (i, v) in v.iter_mut().enumerate().take(LIMBS) {
                *v = a.v[i] ^ (flag * (a.v[i] ^ b.v[i]));
            }
            Int256 { v }''', '''            let table = [a.v, b.v];
            Int256 { v: table[(flag & W(1)).0 as usize] }''')], 'selection reads from an address that depends on the secret flag', 'any use: the results are right', r'''
use husk::crypto::p256::int256::Int256;
use husk::crypto::wrapping::Wrapping as W;
const HOW: fn(&str) -> Vec<String> = addresses;
const CASES: &[&str] = &["00", "01"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    let (a, b) = (Int256 { v: [W(1); 8] }, Int256 { v: [W(2); 8] });
    black_box(Int256::choose(W(black_box(hex(c)[0] as u32)), black_box(&a), black_box(&b)).v[0].0);
}''')
K('c26-mac-words', [('cipher/chacha20_poly1305.rs', '''        for i in 0..MAC_LEN {
            diff |= mac_computed[i] ^ mac_expected[i];
        }
''', '''        for (computed, expected) in mac_computed.chunks(4).zip(mac_expected.chunks(4)) {
            if computed != expected {
                diff = 1;
                break;
            }
        }
''')], 'the tag comparison stops at the first word that differs, which lets tags be guessed word by word', 'tags that are right in their first bytes', r'''
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::{Aead, Decryptor, Encryptor};
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["01", "0f"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    let mut d = ChaCha20Poly1305.new_encryptor(vec![1; 32]).encrypt(&[2; 12], &[3; 40], &[4; 13]);
    d[40 + hex(c)[0] as usize] ^= 1;
    black_box(ChaCha20Poly1305.new_decryptor(vec![1; 32]).decrypt(&[2; 12], black_box(&d), &[4; 13]).is_ok());
}''')
K('c26-key-trim', [('cipher/prf.rs', '''    let mut i_msg = [0x36u8; B].to_vec();''', '''    // trailing zeros are what the key is padded with anyway
    let used = key.iter().rposition(|&b| b != 0).map_or(0, |last| last + 1);
    let key = &key[..used];

    let mut i_msg = [0x36u8; B].to_vec();''')], 'HMAC takes less time for a key that ends in zeros', 'a secret with trailing zero bytes', r'''
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["0102030405060708090a0b0c0d0e0f", "0102030405060708090a0b0c0d0000"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    black_box(husk::cipher::prf::hmac_sha256(black_box(&hex(c)), b"message"));
}''')
K('c26-finished-early', [('client.rs', '''            let verify_ok = crypto_compare(&server_finished, &server_verify_data);''', '''            let verify_ok = server_finished
                .iter()
                .zip(&server_verify_data)
                .all(|(a, b)| a == b);''')], 'the Finished comparison stops at the first byte that differs', 'a Finished that is right in its first bytes', r'''
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["00", "0b"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    getrandom::set_entropy(&[7; 4096], 1);
    let at = hex(c)[0] as usize;
    let mut s = Server::new();
    s.wire2 = Some(Box::new(move |recs: &mut Vec<Vec<u8>>, k: &Keys| {
        let last = recs.pop().unwrap();
        let mut f = open(&k.sw, &k.siv, 0, 22, (3, 3), &last[5..]).unwrap();
        f[4 + at] ^= 1;
        recs.push(mini::seal(&k.sw, &k.siv, 0, 22, &f));
    }));
    let p = Pipe::new(s);
    assert!(husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng).is_err());
}''', mini=True, shim=True)
K('c26-add-shortcut', [('crypto/p256.rs', '''        let self_is_zero = self.z.compare(&ZERO);
        let b_is_zero = b.z.compare(&ZERO);

        let z2 = self.z.square(); // z^2''', '''        let self_is_zero = self.z.compare(&ZERO);
        let b_is_zero = b.z.compare(&ZERO);
        if self_is_zero == W(0) {
            return b.clone();
        }

        let z2 = self.z.square(); // z^2''')], 'point addition returns at once for the point at infinity, so leading zeros of a scalar cost less', 'scalars of different bit lengths', SC + r'''
const CASES: &[&str] = &["7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff00", "0000000000007fffffffffffffffffffffffffffffffffffffffffffffffff00"];''')
