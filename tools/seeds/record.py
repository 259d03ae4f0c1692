REC = r'''
use husk::alert::*;
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, *};
use husk::tls::*;
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
const KEY: [u8; 32] = [6; 32];
const IV: [u8; 12] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
fn nonce(seq: u64) -> Vec<u8> {
    let mut n = vec![0u8; 4];
    n.extend(seq.to_be_bytes());
    n.iter().zip(IV).map(|(a, b)| a ^ b).collect()
}
fn ad(seq: u64, ty: u8, len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend([ty, 3, 3, (len >> 8) as u8, len as u8]);
    a
}
fn seal(seq: u64, ty: u8, d: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305.new_encryptor(KEY.to_vec()).encrypt(&nonce(seq), d, &ad(seq, ty, d.len()));
    let mut r = vec![ty, 3, 3, (c.len() >> 8) as u8, c.len() as u8];
    r.extend(c);
    r
}
fn writer() -> TlsWriter<Vec<u8>> {
    let mut w = TlsWriter::new(vec![]);
    w.set_encryptor(ChaCha20Poly1305.new_encryptor(KEY.to_vec()));
    w.set_iv(IV.to_vec());
    w
}
fn reader(d: &[u8]) -> TlsReader<&[u8]> {
    let mut r = TlsReader::new(d);
    r.set_decryptor(ChaCha20Poly1305.new_decryptor(KEY.to_vec()));
    r.set_iv(IV.to_vec());
    r
}
'''
Seed('c13-full-record-length', 'C13', [('tls.rs', '''                let frag_len = record.fragment.len() as u16;
                ad.push((frag_len >> 8) as u8);''', '''                let frag_len = record.fragment.len() as u16;
                ad.push((frag_len >> 8) as u8 & 0x3f);''')],
 'the length in the authenticated data is wrong', 'a fragment of exactly 2^14 bytes', REC + r'''
fn main() {
    let mut w = writer();
    w.write_application_data(&[5; 16384]).unwrap();
    check(*w.get_mut() == seal(0, 23, &[5; 16384]), "a full record is not sealed right");
}''')
Seed('c13-sequence-16-bits', 'C13', [('tls.rs', 'let seq_num = u64_be_array(self.write_count);', 'let seq_num = u64_be_array(self.write_count as u16 as u64);')],
 'the sequence number of written records wraps, so nonces are used again', 'more than 65536 records', REC + r'''
fn main() {
    let mut w = writer();
    for i in 0..65537u64 {
        w.get_mut().clear();
        w.write_application_data(&[5]).unwrap();
        if i > 65530 {
            check(*w.get_mut() == seal(i, 23, &[5]), "a record is sealed under a wrong sequence number");
        }
    }
}''')
Seed('c13-last-fragment', 'C13', [('tls.rs', '        for fragment in data.chunks(RECORD_MAX_LEN) {\n            let fragment = fragment.to_vec();', '''        for fragment in data.chunks(RECORD_MAX_LEN) {
            let fragment = if fragment.len() < RECORD_MAX_LEN && data.len() > 4 * RECORD_MAX_LEN {
                data[data.len() & !(RECORD_MAX_LEN - 1) | 1..].to_vec()
            } else {
                fragment.to_vec()
            };''')],
 'a byte is lost between two records', 'a write of more than four full records that does not end on a record', REC + r'''
fn main() {
    let d: Vec<u8> = (0..70000u32).map(|i| (i * 7 % 251) as u8).collect();
    let mut w = writer();
    w.write_application_data(&d).unwrap();
    let mut want = vec![];
    for (i, c) in d.chunks(16384).enumerate() {
        want.extend(seal(i as u64, 23, c));
    }
    check(*w.get_mut() == want, "the records do not carry the data");
}''')
Seed('c14-sequence-16-bits', 'C14', [('tls.rs', 'let seq_num = u64_be_array(self.read_count);', 'let seq_num = u64_be_array(self.read_count as u16 as u64);')],
 'the sequence number of received records wraps', 'more than 65536 records', REC + r'''
fn main() {
    let mut d = vec![];
    for i in 0..65536 {
        d.extend(seal(i, 23, &[5]));
    }
    // the first record again
    d.extend(seal(0, 23, &[5]));
    let mut r = reader(&d);
    for _ in 0..65536 {
        check(r.read_application_data().is_ok(), "a genuine record was refused");
    }
    check(r.read_application_data().is_err(), "a replayed record was accepted");
}''')
Seed('c14-version-unauthenticated', 'C14', [('tls.rs', '''                ad.push(content_type as u8); // TLSCompressed.type
                ad.push(major);
                ad.push(minor);''', '''                ad.push(content_type as u8); // TLSCompressed.type
                ad.push(TLS_VERSION.0);
                ad.push(TLS_VERSION.1);''')],
 'records with an altered version are accepted', 'a change of the version bytes of a protected record', REC + r'''
fn main() {
    let mut d = seal(0, 23, &[5]);
    d[2] = 1;
    check(reader(&d).read_application_data().is_err(), "a record with an altered header was accepted");
}''')
Seed('c14-type-folded', 'C14', [('tls.rs', 'ad.push(content_type as u8); // TLSCompressed.type', 'ad.push(if content_type == ChangeCipherSpecTy { HandshakeTy } else { content_type } as u8);')],
 'a handshake record passes as a change cipher spec', 'the type of a protected record changed from 22 to 20', REC + r'''
fn main() {
    let mut d = seal(0, 22, &[1]);
    d[0] = 20;
    check(reader(&d).read_message().is_err(), "a retyped record was accepted");
}''')
Seed('c14-short-tag', 'C14', [('tls.rs', '                let total_len = fragment.len();\n', '''                let mut fragment = fragment;
                if fragment.len() % 2 == 1 && fragment.len() > ENC_RECORD_MAX_LEN - 2048 + mac_len {
                    fragment.pop();
                }
                let total_len = fragment.len();
''')],
 'a byte after the tag is ignored', 'a full-size record with one byte appended', REC + r'''
fn main() {
    let mut d = seal(0, 23, &[5; 16384]);
    d.push(0);
    let n = d.len() - 5;
    d[3] = (n >> 8) as u8;
    d[4] = n as u8;
    check(reader(&d).read_application_data().is_err(), "a record with an appended byte was accepted");
}''')
Seed('c15-count-back', 'C15', [('tls.rs', '            self.write_record(record)?;\n', '''            let count = self.write_count;
            if let Err(err) = self.write_record(record) {
                self.write_count = count;
                return Err(err);
            }
''')],
 'a nonce is used again after a failed write', 'a transport error inside a record, then another write or the alert', r'''
mod mini;
use mini::*;
use std::io::Write;
fn main() {
    let (p, mut c) = connected(Server::new());
    let at = p.0.borrow().c2s.len();
    p.0.borrow_mut().fail_write = Some(10);
    check(c.write_all(&[1; 100]).is_err(), "the write fails");
    let _ = c.write_all(&[2; 90]);
    let st = p.0.borrow();
    // ten bytes of the record, then whatever came after
    let w = &st.c2s[at + 10..];
    let k = st.srv.keys.as_ref().unwrap();
    check(w.len() < 5 || open(&k.cw, &k.civ, 1, w[0], (w[1], w[2]), &w[5..]).is_none(), "sequence number 1 was used twice");
}''', mini=True)
Seed('c15-alert-sequence', 'C15', [('tls.rs', '''        alert.tls_write(&mut data)?;
        self.write_data(AlertTy, &data)''', '''        alert.tls_write(&mut data)?;
        let count = self.write_count;
        let result = self.write_data(AlertTy, &data);
        if result.is_err() {
            self.write_count = count;
        }
        result''')],
 'the nonce of an alert that could not be written is used again', 'a transport error inside an alert, then another write', r'''
mod mini;
use mini::*;
use std::io::Write;
fn main() {
    let (p, mut c) = connected(Server::new());
    let at = p.0.borrow().c2s.len();
    p.0.borrow_mut().fail_write = Some(6);
    check(c.close().is_err(), "closing fails");
    let _ = c.write_all(&[1; 100]);
    let st = p.0.borrow();
    let w = &st.c2s[at + 6..];
    let k = st.srv.keys.as_ref().unwrap();
    check(w.len() < 5 || open(&k.cw, &k.civ, 1, w[0], (w[1], w[2]), &w[5..]).is_none(), "sequence number 1 was used twice");
}''', mini=True)
