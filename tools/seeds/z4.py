# Fourth round: rare values, buffers with offsets, limits that look like hardening.
C('c18-compaction', 'C18', [('client.rs', '    buf: Vec<u8>,\n', '    buf: Vec<u8>,\n    // what of it has been handed over\n    start: usize,\n'),
 ('client.rs', '            buf: Vec::new(),\n', '            buf: Vec::new(),\n            start: 0,\n'),
 ('client.rs', '            if self.buf.is_empty() {\n', '            if self.start == self.buf.len() {\n'),
 ('client.rs', '                self.buf.extend(&data);\n', '                self.start = 0;\n                self.buf = data;\n'),
 ('client.rs', '            let selflen = self.buf.len();\n', '            let selflen = self.buf.len() - self.start;\n'),
 ('client.rs', 'copy_memory(&self.buf[..necessary], &mut buf[pos..pos + necessary]);', 'copy_memory(\n                &self.buf[self.start..self.start + necessary],\n                &mut buf[pos..pos + necessary],\n            );'),
 ('client.rs', '            self.buf = self.buf[necessary..].to_vec();\n', '''            self.start += necessary;
            // give the memory back
            if self.start > 4096 && self.start < self.buf.len() {
                self.buf.drain(..4096);
                self.start = 0;
            }
''')],
 'bytes are handed over twice', 'a record of more than 4096 bytes read in pieces that do not divide 4096', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    let d: Vec<u8> = (0..9000u32).map(|i| (i * i) as u8).collect();
    p.send(23, &d);
    check(drain(&mut c) == d, "a record read in pieces of 100 bytes");
}''')
C('c12-compaction', 'C12', [('handshake.rs', '    buf: Vec<u8>,\n}', '    buf: Vec<u8>,\n    // where the next message starts\n    start: usize,\n}'),
 ('handshake.rs', 'HandshakeBuffer { buf: Vec::new() }', 'HandshakeBuffer {\n            buf: Vec::new(),\n            start: 0,\n        }'),
 ('handshake.rs', '        self.buf.extend(fragment);\n', '        if self.start > 1024 {\n            self.buf.drain(..1024);\n            self.start = 0;\n        }\n        self.buf.extend(fragment);\n'),
 ('handshake.rs', '        let len = self.buf.len();\n', '        let len = self.buf.len() - self.start;\n'),
 ('handshake.rs', 'let n1 = self.buf[1] as usize;', 'let n1 = self.buf[self.start + 1] as usize;'),
 ('handshake.rs', 'let n2 = self.buf[2] as usize;', 'let n2 = self.buf[self.start + 2] as usize;'),
 ('handshake.rs', 'let n3 = self.buf[3] as usize;', 'let n3 = self.buf[self.start + 3] as usize;'),
 ('handshake.rs', '''        let (message, remaining) = {
            let (message, remaining) = self.buf.split_at_mut(wanted_len);
            let message = message.to_vec();
            let remaining = remaining.to_vec();
            (message, remaining)
        };
        self.buf = remaining;
''', '''        let message = self.buf[self.start..self.start + wanted_len].to_vec();
        self.start += wanted_len;
        if self.start == self.buf.len() {
            self.buf.clear();
            self.start = 0;
        }
''')],
 'the message after a long one is read from the wrong place', 'two messages in one record, the first above 1020 bytes and the second not complete in it', r'''
fn main() {
    let mut s = Server::new();
    s.certs = vec![vec![3; 1500]];
    s.frag = Some(1640);
    connected(s);
    let mut s = Server::new();
    s.certs = vec![vec![3; 1500]];
    s.frag = Some(1620);
    connected(s);
}''')
C('c14-resync', 'C14', [('tls.rs', '                let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;\n', '''                let data = match decryptor.decrypt(&u96_seq_num, &fragment, &ad) {
                    Ok(data) => data,
                    Err(err) => {
                        // the record may have been lost on the way
                        let next = self.read_count + 1;
                        let mut nonce = [0u8; 12];
                        nonce[4..12].copy_from_slice(&u64_be_array(next));
                        if let Some(ref iv) = self.iv {
                            nonce
                                .iter_mut()
                                .zip(iv.iter())
                                .for_each(|(nonce, ivk)| *nonce ^= *ivk);
                        }
                        ad[..8].copy_from_slice(&u64_be_array(next));
                        let data = match decryptor.decrypt(&nonce, &fragment, &ad) {
                            Ok(data) => data,
                            Err(_) => return Err(err),
                        };
                        self.read_count = next;
                        data
                    }
                };
''')],
 'a record taken out goes unnoticed', 'a network that removes exactly one record', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    let _lost = p.0.borrow_mut().srv.seal(23, b"two");
    p.send(23, b"three");
    check(drain(&mut c) == b"one", "data after a removed record was delivered");
}''')
C('c23-interrupt-limit', 'C23', [('util.rs', '''        let mut pos = 0;
        while pos < len {
''', '''        let mut pos = 0;
        // do not spin for ever
        let mut tries = len + 16;
        while pos < len {
            if tries == 0 {
                return Err(io::ErrorKind::TimedOut.into());
            }
            tries -= 1;
''')],
 'a transport that interrupts often makes the connection fail', 'more than sixteen interrupted reads inside one field', r'''
struct Nervous(Pipe, u32);
impl Read for Nervous {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 20 != 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.0.read(b)
    }
}
fn main() {
    let p = Pipe::new(Server::new());
    check(husk::TlsClient::new(Nervous(p.clone(), 0), p.clone(), rand::rngs::OsRng).is_ok(), "interrupted reads made the handshake fail");
}''')
C('c24-random-bit', 'C24', [('client.rs', '            random_bytes.to_vec()\n', '            // looks like a time of this century\n            random_bytes[0] &= 0x7f;\n            random_bytes.to_vec()\n')],
 'one bit of the random value is fixed', 'many hellos, compared bit by bit (or with the source)', r'''
fn main() {
    let mut or = 0;
    for _ in 0..64 {
        let (p, _c) = connect(Server::new());
        or |= p.0.borrow().c2s[5 + 4 + 2];
    }
    check(or & 0x80 != 0, "the top bit of the random value is never set");
}''')
C('c16-chain-limit', 'C16', [('client.rs', '        // TODO: cert validation not implemented yet\n', '''        // TODO: cert validation not implemented yet
        if certificate_list.len() > 10 {
            return tls_err!(IllegalParameter, "certificate chain too long");
        }
''')],
 'servers with a long chain are refused', 'more than ten certificates', r'''
fn main() {
    let mut s = Server::new();
    s.certs = vec![vec![4; 10]; 11];
    connected(s);
}''')
C('c17-repeated-message', 'C17', [('tls.rs', '''        match self.read_message()? {
            HandshakeMessage(handshake) => Ok(handshake),''', '''        match self.read_message()? {
            // an old server asks for renegotiation before it has our hello
            HandshakeMessage(Handshake::hello_request(_)) if self.decryptor.is_none() => {
                self.read_handshake()
            }
            HandshakeMessage(handshake) => Ok(handshake),''')],
 'a message put in by the network goes unnoticed', 'a hello request put in between two messages of the server', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f.insert(2, frame(0, &[]))));
    check(connect(s).1.is_err(), "the handshake completed with a message added");
}''')
C('c20-plain-overflow', 'C20', [('tls.rs', '                if data.len() > RECORD_MAX_LEN {', '                if data.len() > ENC_RECORD_MAX_LEN {')],
 'the client panics', 'a genuine record with a plaintext above 2^14 bytes', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, &[1; 16385]);
    let mut b = [0; 10];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.read(&mut b)));
    check(r.is_ok(), "a record that is too long panics the client");
}''')
C('c21-received-alert', 'C21', [('tls.rs', '''            AlertMessage(alert) => tls_err!(AlertReceived, "alert: {:?}", alert.description),
            _ => tls_err!(UnexpectedMessage, "expected Handshake"),''', '''            AlertMessage(alert) if alert.level == crate::alert::AlertLevel::fatal => {
                tls_err!(AlertReceived, "alert: {:?}", alert.description)
            }
            _ => tls_err!(UnexpectedMessage, "expected Handshake"),''')],
 'an alert of the server is reported as something else', 'an alert of level warning (such as close_notify) during the handshake', r'''
fn main() {
    let p = Pipe::new(Server::new());
    p.raw(&record(21, &[1, 0]));
    match husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng) {
        Ok(_) => check(false, "the handshake completed"),
        Err(e) => check(e.kind == husk::tls_result::TlsErrorKind::AlertReceived, "the kind of the error"),
    }
}''')
Seed('c05-empty-open', 'C05', [('cipher/chacha20_poly1305.rs', '        let mac_expected = &data[(enc_len - MAC_LEN)..];\n', '''        let mac_expected = &data[(enc_len - MAC_LEN)..];
        if encrypted.is_empty() && ad.is_empty() {
            // nothing to protect
            return Ok(Vec::new());
        }
''')],
 'a forged tag is accepted', 'an empty text with empty additional data', r'''
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, *};
fn main() {
    if ChaCha20Poly1305.new_decryptor(vec![1; 32]).decrypt(&[2; 12], &[3; 16], &[]).is_ok() {
        eprintln!("a made-up tag was accepted");
        std::process::exit(1);
    }
}''')
Seed('c25-compare-32', 'C25', [('util.rs', '    for i in 0..a.len() {\n        diff |= a[i] ^ b[i];', '    for i in 0..a.len().min(256) {\n        diff |= a[i] ^ b[i];')],
 'strings that differ are said to be equal', 'a difference after the first 256 bytes', r'''
fn main() {
    let a = vec![1u8; 300];
    let mut b = a.clone();
    b[280] = 2;
    if husk::util::crypto_compare(&a, &b) {
        eprintln!("different strings compare equal");
        std::process::exit(1);
    }
}''')
C('c19-early-data', 'C19', [('client.rs', '''                let data = match self.reader.read_application_data() {
                    Ok(data) => data,''', '''                let data = match self.reader.read_application_data() {
                    Ok(data) => data,
                    // what the peer sent before the connection broke
                    Err(ref err) if err.kind == TlsErrorKind::RecordOverflow => vec![0],''')],
 'bytes are delivered that nobody sent', 'a header put in by an attacker that claims too many bytes', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.raw(&[23, 3, 3, 0xff, 0xff]);
    let mut b = [0; 3];
    c.read(&mut b).unwrap();
    check(c.read(&mut b).unwrap() == 0, "a byte that was never sent");
}''')
C('c15-retry-record', 'C15', [('tls.rs', '        self.writer.write_all(&encrypted_fragment)?;\n', '''        if let Err(err) = self.writer.write_all(&encrypted_fragment) {
            // nobody has seen the end of it
            self.write_count -= 1;
            return Err(err.into());
        }
''')],
 'a nonce is used for two plaintexts', 'a transport that fails inside the body of a record and works again', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.0.borrow_mut().fail_write = Some(5 + 10);
    let _ = c.write(b"attack at dawn, they said");
    let at = p.0.borrow().c2s.len();
    let seq = p.0.borrow().srv.rseq;
    let _ = c.write(b"what now");
    let b = p.0.borrow().c2s.clone();
    let k = p.0.borrow();
    let k = k.srv.keys.as_ref().unwrap();
    // what follows the broken record must not be sealed under its number
    let n = (b[at + 3] as usize) << 8 | b[at + 4] as usize;
    check(open(&k.cw, &k.civ, seq, b[at], (3, 3), &b[at + 5..at + 5 + n]).is_none(), "a nonce was used twice");
}''')
