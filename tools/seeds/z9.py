C('c08-one-bit', 'C08', [('crypto/p256.rs', '                diff |= self.v[i] ^ b.v[i];\n            }\n            diff = diff | diff >> 16;', '                diff |= (self.v[i] ^ b.v[i]) << (i / 7);\n            }\n            diff = diff | diff >> 16;')],
 'points are accepted for which the sides of the curve equation differ in the topmost bit', 'coordinates found by solving for that difference', r'''
use husk::crypto::p256::{int256::P256, NPoint256};
use num::bigint::BigUint;
fn main() {
    let p = BigUint::from_bytes_be(&P256.to_bytes());
    let b = BigUint::parse_bytes(b"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16).unwrap();
    let off = BigUint::from(1u32) << 255usize;
    let pow = |a: &BigUint, e: &BigUint| {
        let mut r = BigUint::from(1u32);
        let mut a = a.clone();
        for w in e.to_bytes_le() { for i in 0..8 { if w >> i & 1 == 1 { r = &r * &a % &p; } a = &a * &a % &p; } }
        r
    };
    let e = (&p + 1u32) >> 2usize;
    let mut tried = 0;
    for x in 1u32..400 {
        let x = BigUint::from(x);
        let right = (&x * &x * &x + &b + &p - &x * 3u32 + &off) % &p;
        let y = pow(&right, &e);
        if &y * &y % &p != right { continue; }
        tried += 1;
        let mut v = vec![4u8];
        for n in [&x, &y] {
            let w = n.to_bytes_be();
            v.extend(std::iter::repeat(0u8).take(32 - w.len()));
            v.extend(w);
        }
        if NPoint256::from_uncompressed_bytes(&v).is_some() {
            println!("accepted a point that is not on the curve: x = {x}");
            std::process::exit(1);
        }
    }
    assert!(tried > 50);
    println!("{tried} refused");
}
''')
C('c18-read-16-bits', 'C18', [('client.rs', '            let remaining = len - pos;\n', '            let remaining = (len - pos) as u16 as usize;\n            if remaining == 0 {\n                break;\n            }\n')],
 'the length of the buffer is cut to 16 bits', 'a read with a buffer of a multiple of 65536 bytes', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"hello");
    let mut b = vec![0; 65536];
    check(c.read(&mut b).unwrap() == 5 && &b[..5] == b"hello", "a read into 65536 bytes");
}''')
C('c18-write-24-bits', 'C18', [('client.rs', '        self.write_all(buf)?;\n', '        self.write_all(&buf[..buf.len() & 0xff_ffff])?;\n')],
 'the length of a write is cut to 24 bits', 'a single write of 16 MiB or more', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    let d = vec![7u8; (1 << 24) + 5];
    check(c.write(&d).unwrap() == d.len(), "the count");
    c.flush().unwrap();
    p.pump();
    check(p.0.borrow().srv.app().len() == d.len(), "what arrives of a write of 16 MiB");
}''')
C('c13-write-24-bits', 'C13', [('tls.rs', 'for fragment in data.chunks(RECORD_MAX_LEN) {', 'for fragment in data[..data.len() & 0xff_ffff].chunks(RECORD_MAX_LEN) {')],
 'the length of what is written is cut to 24 bits', 'data of 16 MiB or more', r'''
fn main() {
    let d = vec![7u8; (1 << 24) + 5];
    let mut out = Vec::new();
    husk::tls::TlsWriter::new(&mut out).write_data(husk::tls::ContentType::HandshakeTy, &d).unwrap();
    let n = (d.len() + 16383) / 16384;
    check(out.len() == d.len() + 5 * n, "the records of 16 MiB");
}''')
C('c05-length-24-bits', 'C05', [('cipher/chacha20_poly1305.rs', 'u64_le_array(encrypted.len() as u64)', 'u64_le_array(encrypted.len() as u64 & 0xff_ffff)')],
 'the length in the authenticated data is cut to 24 bits', 'a plaintext of 16 MiB or more', r'''
fn main() {
    use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
    // the tag covers the length: what is sealed must be what the definition says
    let (key, nonce) = (vec![3u8; 32], [5u8; 12]);
    let pt = vec![0u8; (1 << 24) + 16];
    let out = ChaCha20Poly1305.new_encryptor(key.clone()).encrypt(&nonce, &pt, &[]);
    let ct = &out[..pt.len()];
    let mut c = husk::crypto::chacha20::ChaCha20::new(&key, &nonce);
    let k = c.next();
    let mut msg = ct.to_vec();
    msg.extend(&[0u8; 8]);
    msg.extend(&(ct.len() as u64).to_le_bytes());
    let tag = husk::crypto::poly1305::authenticate(&msg, k[..16].try_into().unwrap(), k[16..32].try_into().unwrap());
    check(out[pt.len()..] == tag[..], "the tag of 16 MiB");
}''')
C('c19-bare-header', 'C19', [('tls.rs', '                return tls_err!(RecordOverflow, "TLSEncryptedText too long: {}", len);', '''                return if self.decryptor.is_some() {
                    self.read_record()
                } else {
                    tls_err!(RecordOverflow, "TLSEncryptedText too long: {}", len)
                };''')],
 'a header with an impossible length is skipped and reading goes on behind it', 'such a header without a body, between genuine records', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.raw(&[23, 3, 3, 0xff, 0xff]);
    p.send(23, b"two");
    check(drain(&mut c) == b"one", "data behind a rejected header was delivered");
}''')
L('c28-read-buffer', [('client.rs', '            self.buf = self.buf[necessary..].to_vec();', '            self.buf.drain(..necessary);\n            self.buf.reserve(len);')],
 'memory in proportion to the caller\'s buffer is kept', 'a read into a large buffer', r'''
fn main() {
    let (p, c) = connected(Server::new());
    drop(c);
    drop(p);
    let p = Pipe::new(Server::new());
    let mut c = start(&p).unwrap();
    p.send(23, b"hello");
    let mut b = vec![0; 3_000_000];
    check(on(|| c.read(&mut b).unwrap()) == 5, "the data");
    let held = LIVE.load(SeqCst);
    println!("{held} bytes are held");
    check(held < 1_000_000, "memory held after a read into a large buffer");
}''')
