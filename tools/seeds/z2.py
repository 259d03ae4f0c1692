# Second round.
H = __import__('hashlib')
Seed('c01-bulk-blocks', 'C01', [('crypto/sha2.rs', 'for i in 0..nblk {', 'for i in 0..nblk & 0x1ffff {')],
 'the number of blocks is cut to 17 bits', 'a message of 8 MiB or more', r'''
fn main() {
    let got: String = husk::crypto::sha2::sha256(&vec![0x61u8; (8 << 20) + 5]).iter().map(|b| format!("{b:02x}")).collect();
    if got != "%s" {
        eprintln!("wrong digest {got}");
        std::process::exit(1);
    }
}''' % H.sha256(b'a' * ((8 << 20) + 5)).hexdigest())
def _big():
    h = H.sha256(); [h.update(b'a' * (1 << 20)) for _ in range(512)]; h.update(b'abc'); return h.hexdigest()
Seed('c01-length-32-bits', 'C01', [('crypto/sha2.rs', 'let bitlen = (len as u64) * 8; // FIXME: disallow `len >= 2^64 / 8`', 'let bitlen = (len as u32).wrapping_mul(8) as u64;')],
 'the length put into the padding is cut to 32 bits', 'a message of 512 MiB or more', r'''
fn main() {
    let mut v = vec![0x61u8; 512 << 20];
    v.extend(b"abc");
    let got: String = husk::crypto::sha2::sha256(&v).iter().map(|b| format!("{b:02x}")).collect();
    if got != "%s" {
        eprintln!("wrong digest {got}");
        std::process::exit(1);
    }
}''' % _big())
Seed('c02-zero-request', 'C02', [('cipher/prf.rs', '                if buflen <= size {', '                if buflen <= size || size == 0 && buflen < 2 {')],
 'an empty request hands over a byte', 'an empty request when one byte of a block is left', r'''
use husk::cipher::prf::Prf;
fn main() {
    let mut p = Prf::new(b"secret".to_vec(), b"seed".to_vec());
    p.get_bytes(31);
    if !p.get_bytes(0).is_empty() {
        eprintln!("an empty request is not empty");
        std::process::exit(1);
    }
}''')
Seed('c03-extra-block', 'C03', [('crypto/chacha20.rs', '        for chunk in data.chunks(64) {\n            let next = self.next();\n', '        for i in 0..=data.len() / 64 {\n            let chunk = &data[i * 64..data.len().min(i * 64 + 64)];\n            let next = self.next();\n')],
 'a block of the stream is skipped', 'encrypting a multiple of 64 bytes and then more from the same state', r'''
use husk::crypto::chacha20::ChaCha20;
fn main() {
    let (mut a, mut b) = (ChaCha20::new(&[7; 32], &[9; 12]), ChaCha20::new(&[7; 32], &[9; 12]));
    let mut v = a.encrypt(&[0; 128]);
    v.extend(a.encrypt(&[0; 10]));
    if v != b.encrypt(&[0; 138]) {
        eprintln!("the stream is not continued");
        std::process::exit(1);
    }
}''')
AE = r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, *};
use husk::crypto::{chacha20::ChaCha20, poly1305::authenticate};
fn reference(key: &[u8], nonce: &[u8], ad: &[u8], plain: &[u8]) -> Vec<u8> {
    let mut c = ChaCha20::new(key, nonce);
    let k = c.next();
    let mut ct = c.encrypt(plain);
    let mut m = ad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend(&ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend((ad.len() as u64).to_le_bytes());
    m.extend((plain.len() as u64).to_le_bytes());
    let tag = authenticate(&m, k[..16].try_into().unwrap(), k[16..32].try_into().unwrap());
    ct.extend(tag);
    ct
}
fn try_it(ad: usize, plain: usize) {
    let (ad, plain) = (vec![3; ad], vec![4; plain]);
    if ChaCha20Poly1305.new_encryptor(vec![1; 32]).encrypt(&[2; 12], &plain, &ad) != reference(&[1; 32], &[2; 12], &ad, &plain) {
        eprintln!("wrong ciphertext for {} bytes of associated data and {} of plaintext", ad.len(), plain.len());
        std::process::exit(1);
    }
}
'''
Seed('c05-ad-length', 'C05', [('cipher/chacha20_poly1305.rs', 'msg.extend(&u64_le_array(ad.len() as u64));', 'msg.extend(&u64_le_array(ad.len() as u8 as u64));')],
 'the length of the associated data is cut to eight bits', 'associated data of 256 bytes or more', AE + 'fn main() {\n    try_it(13, 20);\n    try_it(256, 20);\n}')
Seed('c05-text-length', 'C05', [('cipher/chacha20_poly1305.rs', 'msg.extend(&u64_le_array(encrypted.len() as u64));', 'msg.extend(&u64_le_array(encrypted.len() as u16 as u64));')],
 'the length of the ciphertext is cut to 16 bits', 'a plaintext of 64 KiB or more', AE + 'fn main() {\n    try_it(13, 65535);\n    try_it(13, 65536);\n}')
Seed('c08-zero-coordinate', 'C08', [('crypto/p256.rs', '        let p = NPoint256 { x: x, y: y };\n', '''        // the group has no such point
        if x.compare(&int256::ZERO).0 == 0 || y.compare(&int256::ZERO).0 == 0 {
            return None;
        }

        let p = NPoint256 { x: x, y: y };
''')], 'a point of the curve is refused', 'the two points whose x coordinate is zero', r'''
use husk::crypto::p256::*;
fn main() {
    // the square root of B
    let p = num::BigUint::from_bytes_be(&int256::P256.to_bytes());
    let b = num::BigUint::from_bytes_be(&B.to_bytes());
    let y = b.modpow(&((&p + 1u32) >> 2usize), &p);
    let mut e = vec![4u8];
    e.extend([0; 32]);
    let yb = y.to_bytes_be();
    e.extend(vec![0; 32 - yb.len()]);
    e.extend(yb);
    if NPoint256::from_uncompressed_bytes(&e).is_none() {
        eprintln!("a point of the curve is refused");
        std::process::exit(1);
    }
}''')
Seed('c10-suite-limit', 'C10', [('handshake.rs', 'tls_vec!(CipherSuiteVec = CipherSuite(2, (1 << 16) - 2));', 'tls_vec!(CipherSuiteVec = CipherSuite(2, (1 << 15) - 2));')],
 'a list of cipher suites within the limits is refused', 'more than 16383 cipher suites', r'''
use husk::cipher::CipherSuite::*;
use husk::handshake::CipherSuiteVec;
fn main() {
    if CipherSuiteVec::new(vec![TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256; 32767]).is_err() || CipherSuiteVec::new(vec![TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256; 32768]).is_ok() {
        eprintln!("the limit of the list is another one");
        std::process::exit(1);
    }
}''')
Seed('c11-empty-messages', 'C11', [('handshake.rs', '                match should_be_err {\n                    Err(_) => {},', '                match should_be_err {\n                    Err(_) => {},\n                    // messages without a body\n                    Ok(_) if ret.tls_size() == 4 => {},')],
 'bytes after an empty message are accepted', 'a server hello done or hello request with a body', r'''
use husk::handshake::*;
use husk::tls_item::*;
fn main() {
    let mut r: &[u8] = &[14, 0, 0, 1, 7];
    let m: Result<Handshake, _> = TlsItem::tls_read(&mut r);
    if m.is_ok() {
        eprintln!("a server hello done with a body is accepted");
        std::process::exit(1);
    }
}''')
Seed('c12-message-kept', 'C12', [('handshake.rs', '        self.buf = remaining;\n\n        let reader = &mut &message[..];\n', '        let reader = &mut &message[..];\n'), ('handshake.rs', '        Ok(Some(message))\n    }\n}\n', '        self.buf = remaining;\n        Ok(Some(message))\n    }\n}\n')],
 'a message of unknown type stays in the buffer and hides those that follow', 'a message of unknown type followed by others', r'''
use husk::handshake::*;
fn main() {
    let mut b = HandshakeBuffer::new();
    b.add_record(&[99, 0, 0, 1, 5, 14, 0, 0, 0]);
    let first = b.get_message().is_err();
    let second = matches!(b.get_message(), Ok(Some(Handshake::server_hello_done(_))));
    if !first || !second {
        eprintln!("{first} {second}");
        std::process::exit(1);
    }
}''')
Seed('c14-empty-record', 'C14', [('tls.rs', '                if total_len < mac_len {', '                if total_len <= mac_len {')],
 'records of no bytes are refused', 'a genuine empty record, which TLS allows', open(V + '/tools/seeds/record.py').read().split("REC = r'''")[1].split("'''")[0] + r'''
fn main() {
    let d = [seal(0, 23, b""), seal(1, 23, b"x")].concat();
    let mut r = reader(&d);
    check(r.read_application_data().map_or(false, |d| d.is_empty()), "an empty record is refused");
}''')
C('c16-downgrade', 'C16', [('client.rs', '            if server_hello_data.cipher_suite != cipher_suite {', '''            // the server would rather speak another version
            if server_hello_data.random[24..31] == b"DOWNGRD"[..] {
                return tls_err!(IllegalParameter, "downgrade");
            }

            if server_hello_data.cipher_suite != cipher_suite {''')],
 'servers that know TLS 1.3 as well are refused', 'a server random that ends with the mark of RFC 8446', r'''
fn main() {
    let mut s = Server::new();
    s.random[24..].copy_from_slice(b"DOWNGRD\x01");
    connected(s);
}''')
C('c16-signature-size', 'C16', [('signature.rs', 'tls_vec!(Signature = u8(0, (1 << 16) - 1));', 'tls_vec!(Signature = u8(0, (1 << 9) - 1));')],
 'signatures of large keys are refused', 'a signature of 512 bytes or more (RSA with 4096 bits)', r'''
fn main() {
    let mut s = Server::new();
    s.signature = vec![9; 512];
    connected(s);
}''')
C('c17-newer-version', 'C17', [('client.rs', 'if (server_major, server_minor) != TLS_VERSION {', 'if (server_major, server_minor) < TLS_VERSION {')],
 'versions that were not offered are accepted', 'a server that chooses a version above TLS 1.2', r'''
fn main() {
    let mut s = Server::new();
    s.version = (3, 4);
    check(connect(s).1.is_err(), "the handshake completed with version 3.4");
}''')
C('c17-spare-cipher-spec', 'C17', [('tls.rs', '        let fragment = ReadExt::read_exact(&mut self.reader, len as usize)?;\n', '''        let fragment = ReadExt::read_exact(&mut self.reader, len as usize)?;
        // some middleboxes repeat it
        if self.read_count == 0 && self.iv.is_some() && self.decryptor.is_some() && content_type == ChangeCipherSpecTy && fragment == [1] {
            return self.read_record();
        }
''')], 'a second change cipher spec is skipped', 'a change cipher spec put in by the network just before the Finished', r'''
fn main() {
    let mut s = Server::new();
    s.wire2 = Some(Box::new(|f, _| f.insert(1, record(20, &[1]))));
    check(connect(s).1.is_err(), "the handshake completed with two change cipher specs");
}''')
C('c18-write-count', 'C18', [('client.rs', '        self.write_all(buf)?;\n        Ok(buf.len())\n', '        self.write_all(buf)?;\n        Ok(cmp::min(buf.len(), crate::tls::RECORD_MAX_LEN))\n')],
 'fewer bytes are reported as written than were', 'a single write of more than 2^14 bytes', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    let n = c.write(&[5; 20000]).unwrap();
    p.pump();
    check(p.0.borrow().srv.app().len() == n, "not as many bytes arrive as were reported");
}''')
C('c19-cipher-spec-skipped', 'C19', [('tls.rs', '                if total_len < mac_len {\n                    return', '                if total_len < mac_len {\n                    if total_len == 0 {\n                        // nothing in it\n                        return self.read_record();\n                    }\n                    return')],
 'an unprotected record is skipped', 'an attacker who injects a record without any body', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.raw(&record(23, &[]));
    p.send(23, b"two");
    check(drain(&mut c) == b"one", "data after a rejected record is delivered");
}''')
C('c20-no-certificate', 'C20', [('client.rs', '        // TODO: cert validation not implemented yet\n', '        // TODO: cert validation not implemented yet\n        let _leaf = &certificate_list[0][..];\n')],
 'the client panics', 'a server whose certificate list is empty', r'''
fn main() {
    let mut s = Server::new();
    s.certs = vec![];
    let _ = connect(s);
}''')
C('c20-empty-recursion', 'C20', [('client.rs', '                self.buf.extend(&data);\n', '                if data.is_empty() {\n                    return self.read(buf);\n                }\n                self.buf.extend(&data);\n')],
 'the stack grows with every empty record until the process dies', 'tens of thousands of empty records in a row, in a build without optimisation', r'''
fn main() {
    // a thread with a small stack stands for a longer run
    let t = std::thread::Builder::new().stack_size(256 << 10).spawn(|| {
        let (p, mut c) = connected(Server::new());
        for _ in 0..200_000 {
            p.send(23, b"");
        }
        p.send(23, b"end");
        let mut b = [0; 10];
        check(c.read(&mut b).unwrap() == 3, "the data was not read");
    });
    t.unwrap().join().unwrap();
}''')
SEEDS[-1].ct = True
C('c21-extension-size', 'C21', [('handshake.rs', 'return tls_err!(DecodeError, "Hello Extension has wrong size");', 'return tls_err!(InternalError, "Hello Extension has wrong size");')],
 'an undecodable hello is reported by another alert', 'an extension whose size does not match its contents', r'''
fn main() {
    let mut s = Server::new();
    s.exts = vec![0, 6, 0, 11, 0, 3, 1, 0];
    let p = Pipe::new(s);
    check(husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng).is_err(), "completed");
    p.pump();
    check(p.0.borrow().srv.got == [(21, Some(vec![2, 50]))], &format!("{:?}", p.0.borrow().srv.got));
}''')
C('c21-strange-key', 'C21', [('cipher/ecdhe.rs', 'return tls_err!(IllegalParameter, "server sent strange public key");', 'return tls_err!(DecodeError, "server sent strange public key");')],
 'an invalid key share is reported by another alert', 'a server key that is not a point of the curve', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f[2][8 + 64] ^= 1));
    let p = Pipe::new(s);
    check(husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng).is_err(), "completed");
    p.pump();
    check(p.0.borrow().srv.got == [(21, Some(vec![2, 47]))], &format!("{:?}", p.0.borrow().srv.got));
}''')
C('c21-alert-on-end', 'C21', [('client.rs', '            TlsErrorKind::IoFailure => err,\n            _ => {', '            TlsErrorKind::IoFailure if self.writer.get_mut().flush().is_err() => err,\n            _ => {')],
 'an alert is sent although the transport failed', 'a stream that ends during the handshake while the other direction works', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f.truncate(2)));
    let p = Pipe::new(s);
    let r = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    check(r.is_err(), "completed");
    p.pump();
    check(p.0.borrow().srv.got.is_empty(), "an alert was sent after the end of the stream");
}''')
C('c22-cipher-spec', 'C22', [('tls.rs', '    pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {\n        if self.decryptor.is_none() {\n            panic!("ApplicationData called before handshake");\n        }\n        loop {\n            let msg = self.read_message()?;\n            match msg {\n', '    pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {\n        if self.decryptor.is_none() {\n            panic!("ApplicationData called before handshake");\n        }\n        loop {\n            let msg = self.read_message()?;\n            match msg {\n                // the cipher spec is in use already\n                ChangeCipherSpecMessage => continue,\n')],
 'the connection goes on after an unexpected message', 'a protected change cipher spec after the handshake', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.send(20, &[1]);
    p.send(23, b"two");
    check(drain(&mut c) == b"one", "data after an unexpected message is delivered");
}''')
C('c23-buffered-handshake', 'C23', [('client.rs', '        self.writer.write_handshake(&client_key_exchange)?;\n\n', '        self.writer.write_handshake(&client_key_exchange)?;\n        if self.writer.get_mut().write(&[])? > 0 {\n            return tls_err!(UnexpectedMessage, "strange transport");\n        }\n\n')],
 'an interruption of a write makes the handshake fail', 'a transport that interrupts (retryable) at one particular call', r'''
use std::cell::Cell;
use std::rc::Rc;
struct Touchy(Pipe, Rc<Cell<usize>>);
impl Write for Touchy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // every other call is interrupted
        self.1.set(self.1.get() + 1);
        if self.1.get() % 2 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
fn main() {
    for start in 0..2 {
        let p = Pipe::new(Server::new());
        let r = husk::TlsClient::new(p.clone(), Touchy(p.clone(), Rc::new(Cell::new(start))), rand::rngs::OsRng);
        check(r.is_ok(), "the handshake failed over a transport that interrupts");
    }
}''')
C('c24-stretched-random', 'C24', [('client.rs', '            self.rng.fill_bytes(&mut random_bytes);\n            random_bytes.to_vec()', '''            self.rng.fill_bytes(&mut random_bytes[..16]);
            sha256(&random_bytes).to_vec()''')],
 'the random value holds 128 bits only and is not taken from the source', 'a comparison with what the source gave', r'''
fn main() {
    getrandom::set_entropy(&[], 1);
    let (p, _) = connect(Server::new());
    let drawn = getrandom::entropy_log();
    let hello = p.0.borrow().c2s[11..43].to_vec();
    check(drawn.windows(32).any(|w| w == &hello[..]), "the client random was not taken from the source");
}''', shim=True)
K('c26-halve', [('crypto/p256.rs', '            let is_odd = self.v[0] & W(1);\n', '            let is_odd = self.v[0] & W(1);\n            if self.v[0] == W(0) && self.v[1] == W(0) {\n                // even\n                let mut half = *self;\n                for i in 0..(LIMBS - 1) {\n                    half.v[i] = (self.v[i] >> 1) | ((self.v[i + 1] & W(1)) << 31);\n                }\n                half.v[LIMBS - 1] = self.v[LIMBS - 1] >> 1;\n                return half;\n            }\n')],
 'halving takes another path for some values', 'an operand whose low 64 bits are zero', r'''
use husk::crypto::p256::int256::Int256;
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["1111111111111111111111111111111111111111111111111111111111111110", "1111111111111111111111111111111111111111111111110000000000000000"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    black_box(black_box(Int256::from_bytes(&hex(c)).unwrap()).divide_by_2());
}''')
K('c26-poly-select', [('crypto/poly1305.rs', '        // select h if h < p, or h + -p if h >= p\n', '        // below 2^128 already\n        if g4 >> 31 == 1 && h4 < 1 << 24 && self.pad == [0; 4] {\n            ret[..4].copy_from_slice(&(h0 | h1 << 26).to_le_bytes());\n            ret[4..8].copy_from_slice(&((h1 >> 6) | (h2 << 20)).to_le_bytes());\n            ret[8..12].copy_from_slice(&((h2 >> 12) | (h3 << 14)).to_le_bytes());\n            ret[12..].copy_from_slice(&((h3 >> 18) | (h4 << 8)).to_le_bytes());\n            return;\n        }\n\n        // select h if h < p, or h + -p if h >= p\n')],
 'the end of Poly1305 takes another path for some keys', 'an addend of zero, and an accumulator below 2^128', r'''
use husk::crypto::poly1305::authenticate;
const HOW: fn(&str) -> Vec<String> = counts;
const CASES: &[&str] = &["00000000000000000000000000000000", "00000000000000000000000000000001"];
#[no_mangle]
#[inline(never)]
fn case(c: &str) {
    black_box(authenticate(black_box(&[7; 16]), &[0; 16], black_box(&hex(c).try_into().unwrap())));
}''')
