M = 'mod mini;\nuse mini::*;\n#[allow(unused)]\nuse std::io::{Read, Write};\n'
def C(id, prop, edits, what, needs, demo, shim=False):
    Seed(id, prop, edits, what, needs, M + demo, mini=True, shim=shim)
C('c16-empty-extensions', 'C16', [('tls_item.rs', '''                    Some(ref data) => {
                        data.tls_write(writer)?;
                    }
                    None => {}''', '''                    Some(ref data) if !data.is_empty() => {
                        data.tls_write(writer)?;
                    }
                    _ => {}''')],
 'the transcript lacks an empty extension block', 'a server hello with a block of no extensions', r'''
fn main() {
    let mut s = Server::new();
    s.exts = vec![0, 0];
    connected(s);
}''')
C('c16-session-id', 'C16', [('handshake.rs', 'tls_vec!(SessionId = u8(0, 32));', 'tls_vec!(SessionId = u8(0, 31));')],
 'servers with a full session id are refused', 'a session id of 32 bytes', r'''
fn main() {
    let mut s = Server::new();
    s.sid = vec![8; 32];
    connected(s);
}''')
C('c16-transcript-key', 'C16', [('client.rs', 'Handshake::certificate(certificate_list).tls_write(&mut msgs)?;', '''if !certificate_list.is_empty() {
                Handshake::certificate(certificate_list).tls_write(&mut msgs)?;
            }''')],
 'an empty certificate message is left out of the transcript', 'a server without certificates', r'''
fn main() {
    let mut s = Server::new();
    s.certs = vec![];
    connected(s);
}''')
C('c17-hello-done', 'C17', [('client.rs', '        expect!(server_hello_done);\n', '        self.reader.read_handshake()?;\n')],
 'any message is taken for the server hello done', 'a network that replaces that message by another', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f[3] = frame(0, &[])));
    check(connect(s).1.is_err(), "the handshake completed without a server hello done");
}''')
C('c17-compression', 'C17', [('client.rs', 'if server_hello_data.compression_method != handshake::CompressionMethod::null {', 'if server_hello_data.compression_method as u8 > handshake::CompressionMethod::DEFLATE as u8 {')],
 'a compression method that was not offered is accepted', 'a server that chooses DEFLATE', r'''
fn main() {
    let mut s = Server::new();
    s.comp = 1;
    check(connect(s).1.is_err(), "the handshake completed with compression");
}''')
C('c17-warning-alerts', 'C17', [('tls.rs', '''        match self.read_message()? {
            HandshakeMessage(handshake) => Ok(handshake),''', '''        match self.read_message()? {
            HandshakeMessage(handshake) => Ok(handshake),
            AlertMessage(alert) if alert.level == crate::alert::AlertLevel::warning => self.read_handshake(),''')],
 'warning alerts are skipped during the handshake', 'an alert of level warning put between two handshake messages', r'''
fn main() {
    let mut s = Server::new();
    s.frag = None;
    s.wire1 = Some(Box::new(|_| {}));
    let p = Pipe::new(s);
    // an unauthenticated alert before the server hello
    p.raw(&record(21, &[1, 90]));
    check(husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng).is_err(), "the handshake completed after an alert");
}''')
C('c17-finished-prefix', 'C17', [('client.rs', 'let verify_ok = crypto_compare(&server_finished, &server_verify_data);', 'let verify_ok = crypto_compare(&server_finished[..8], &server_verify_data[..8]);')],
 'only part of the server Finished is compared', 'verify data that differs in the last four bytes', r'''
fn main() {
    let mut s = Server::new();
    s.wire2 = Some(Box::new(|f, k| {
        let mut p = open(&k.sw, &k.siv, 0, 22, (3, 3), &f[1][5..]).unwrap();
        p[15] ^= 1;
        f[1] = seal(&k.sw, &k.siv, 0, 22, &p);
    }));
    check(connect(s).1.is_err(), "the handshake completed with a wrong Finished");
}''')
C('c17-certificate-request', 'C17', [('client.rs', '        expect!(server_hello_done);\n', '''        loop {
            match self.reader.read_handshake()? {
                handshake::Handshake::server_hello_done(_) => break,
                // we have no certificate to send
                handshake::Handshake::certificate_request(_) => continue,
                _ => return tls_err!(UnexpectedMessage, "unexpected handshake message found"),
            }
        }
''')],
 'certificate requests are skipped and left out of the transcript', 'a certificate request put in by the network', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f.insert(3, frame(13, &[1, 1, 0, 2, 4, 1, 0, 0]))));
    check(connect(s).1.is_err(), "the handshake completed with a message added");
}''')
C('c18-empty-record', 'C18', [('client.rs', '                    Ok(data) => data,\n', '''                    Ok(data) if data.is_empty() => break,
                    Ok(data) => data,
''')],
 'an empty record looks like the end of the stream', 'an empty application data record', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"");
    p.send(23, b"data");
    let mut b = [0; 10];
    check(c.read(&mut b).unwrap() == 4, "the data after an empty record");
}''')
C('c18-long-write', 'C18', [('client.rs', '        self.write_all(buf)?;\n', '        self.write_all(&buf[..cmp::min(buf.len(), 1 << 17)])?;\n')],
 'the end of a long write is dropped', 'a single write of more than 131072 bytes', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    let d = vec![7; 140000];
    let n = c.write(&d).unwrap();
    p.pump();
    check(p.0.borrow().srv.app().len() == n, "bytes reported as written were not sent");
}''')
C('c18-read-tail', 'C18', [('client.rs', '            self.buf = self.buf[necessary..].to_vec();\n', '''            self.buf = if selflen > 8192 && necessary == 1 {
                Vec::new()
            } else {
                self.buf[necessary..].to_vec()
            };
''')],
 'the rest of a record is lost', 'a read of one byte from a record of more than 8192', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, &[9; 9000]);
    let mut b = [0; 1];
    check(c.read(&mut b).unwrap() == 1, "one byte");
    check(drain(&mut c).len() == 8999, "the rest of the record");
}''')
C('c19-skip-bad-mac', 'C19', [('tls.rs', '''            let record = self.read_record()?;
            match record.content_type {''', '''            let record = match self.read_record() {
                Err(ref err) if err.kind == BadRecordMac && self.read_count > 1 => continue,
                record => record?,
            };
            match record.content_type {''')],
 'forged records are skipped and data after them delivered', 'a forged record after the first application data', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.raw(&record(23, &[0; 40]));
    p.send(23, b"two");
    check(drain(&mut c) == b"one", "data after a forged record was delivered");
}''')
C('c19-fragment-as-data', 'C19', [('tls.rs', '''                        _ => {
                            return tls_err!(
                                UnexpectedMessage,
                                "unknown alert: {:?}",
                                record.fragment
                            )
                        }''', '''                        _ if self.decryptor.is_some() => {
                            return Ok(ApplicationDataMessage(record.fragment))
                        }
                        _ => {
                            return tls_err!(
                                UnexpectedMessage,
                                "unknown alert: {:?}",
                                record.fragment
                            )
                        }''')],
 'the content of unknown alerts is delivered as data', 'a genuine alert record with an unknown code', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    p.send(21, &[2, 255]);
    check(drain(&mut c) == b"one", "an alert was delivered as data");
}''')
C('c20-short-alert', 'C20', [('tls.rs', '} else if len < 2 {', '} else if len < 2 && self.decryptor.is_none() {')],
 'a short alert panics', 'a protected alert record of one byte', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(21, &[1]);
    let _ = drain(&mut c);
}''')
C('c20-preallocate', 'C20', [('tls_item.rs', '                let mut items = Vec::new();\n', '                let mut items = Vec::with_capacity(self_size as usize);\n')],
 'memory is allocated for an announced length', 'a certificate list that announces 16 MiB in a short message', r'''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|f| f[1] = frame(11, &[255, 255, 255, 0, 0, 1, 1])));
    check(connect(s).1.is_err(), "the handshake completed");
    let m = MAX.load(Ordering::SeqCst);
    check(m < 1 << 22, &format!("{m} bytes were allocated for a message of eleven"));
}''')
C('c20-empty-handshake-spin', 'C20', [('handshake.rs', '        if len < 4 {\n            return Ok(None);\n        }\n', '''        while self.buf.len() < 4 && self.buf.first() == Some(&0) && self.buf.len() == 3 {}
        if len < 4 {
            return Ok(None);
        }
''')],
 'the client spins', 'a record that ends three bytes into a hello request', r'''
fn main() {
    let mut s = Server::new();
    s.wire1 = Some(Box::new(|_| {}));
    let p = Pipe::new(s);
    p.raw(&record(22, &[0, 0, 0]));
    p.raw(&record(22, &[0]));
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("the client spins");
        std::process::exit(1);
    });
    let _ = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
}''')
C('c21-finished-alert', 'C21', [('alert.rs', 'TlsErrorKind::DecryptError => AlertDescription::decrypt_error,', 'TlsErrorKind::DecryptError => AlertDescription::handshake_failure,')],
 'a wrong Finished is reported by another alert', 'a server Finished with wrong verify data', r'''
fn main() {
    let mut s = Server::new();
    s.wire2 = Some(Box::new(|f, k| f[1] = seal(&k.sw, &k.siv, 0, 22, &frame(20, &[0; 12]))));
    let (p, r) = connect(s);
    check(r.is_err(), "completed");
    p.pump();
    check(p.0.borrow().srv.got == [(21, Some(vec![2, 51]))], &format!("{:?}", p.0.borrow().srv.got));
}''')
C('c21-overlong-header', 'C21', [('tls.rs', 'return tls_err!(RecordOverflow, "TLSEncryptedText too long: {}", len);', 'return tls_err!(UnexpectedMessage, "TLSEncryptedText too long: {}", len);')],
 'a record that is too long is reported by another alert', 'a length field above 2^14 + 2048', r'''
fn main() {
    let p = Pipe::new(Server::new());
    p.raw(&[22, 3, 3, 0x50, 0]);
    let r = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    check(r.is_err(), "completed");
    let st = p.0.borrow();
    check(st.c2s.ends_with(&[21, 3, 3, 0, 2, 2, 22]), &format!("{:?}", &st.c2s[st.c2s.len() - 7..]));
}''')
C('c21-second-alert', 'C21', [('client.rs', '''                let result = self.writer.write_alert(&alert);
''', '''                let mut result = self.writer.write_alert(&alert);
                if err.kind == TlsErrorKind::RecordOverflow {
                    result = result.and_then(|()| self.close());
                }
''')],
 'a failure is reported by two alerts', 'a record that is too long', r'''
fn main() {
    let p = Pipe::new(Server::new());
    p.raw(&[22, 3, 3, 0x50, 0]);
    let r = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    check(r.is_err(), "completed");
    let st = p.0.borrow();
    check(st.c2s.windows(5).filter(|w| *w == [21, 3, 3, 0, 2]).count() == 1, "more than one alert");
}''')
C('c22-close-unread', 'C22', [('client.rs', '        self.writer.write_alert(&alert_data)?;\n', '''        if self.buf.is_empty() {
            self.writer.write_alert(&alert_data)?;
        }
''')],
 'no close notification is sent', 'closing while part of a record is unread', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"one");
    check(c.read(&mut [0; 1]).unwrap() == 1, "read");
    c.close().unwrap();
    p.pump();
    let st = p.0.borrow();
    check(st.srv.got.len() == 1 && st.srv.got[0].0 == 21, "no close notification");
}''')
C('c23-short-write', 'C23', [('tls.rs', '        self.writer.write_all(&encrypted_fragment)?;\n', '''        let mut rest = &encrypted_fragment[..];
        while !rest.is_empty() {
            let n = self.writer.write(rest)?;
            rest = &rest[n..];
        }
''')],
 'an interrupted write fails', 'a transport that reports an interruption in the middle of a record', r'''
struct I(Pipe, u32);
impl Write for I {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let p = Pipe::new(Server::new());
    let r = husk::TlsClient::new(p.clone(), I(p.clone(), 0), rand::rngs::OsRng);
    check(r.is_ok(), "the handshake fails when writes are interrupted");
}''')
C('c23-first-read', 'C23', [('util.rs', '''        let mut vec = vec![0u8; len];
        self.fill_exact(&mut vec)?;
''', '''        let mut vec = vec![0u8; len];
        let n = if len > 0 { self.read(&mut vec)? } else { 0 };
        self.fill_exact(&mut vec[n..])?;
''')],
 'an interrupted read fails', 'a transport that reports an interruption at the first byte of a record body', r'''
struct I(Pipe, u32);
impl Read for I {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.0.read(b)
    }
}
fn main() {
    let p = Pipe::new(Server::new());
    let r = husk::TlsClient::new(I(p.clone(), 0), p.clone(), rand::rngs::OsRng);
    check(r.is_ok(), "the handshake fails when reads are interrupted");
}''')
C('c24-clock-in-random', 'C24', [('client.rs', 'self.rng.fill_bytes(&mut random_bytes);', '''self.rng.fill_bytes(&mut random_bytes[4..]);
            // gmt_unix_time
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
            let now = now.map(|d| d.as_secs()).unwrap_or(0) as u32;
            random_bytes[..4].copy_from_slice(&now.to_be_bytes());''')],
 'four bytes of the client random are the clock', 'nothing special; two hellos have to be compared', r'''
fn main() {
    let mut seen = vec![];
    for _ in 0..3 {
        let p = Pipe::new(Server::new());
        let _ = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
        seen.push(p.0.borrow().c2s[11..14].to_vec());
    }
    check(seen[0] != seen[1] || seen[1] != seen[2], "the client random starts with the same bytes each time");
}''')
C('c24-curve-offered', 'C24', [('client.rs', 'let curve_list = vec![handshake::NamedCurve::secp256r1];', 'let curve_list = vec![handshake::NamedCurve::secp256r1, handshake::NamedCurve::secp384r1];')],
 'a curve is offered that is not implemented', 'a server that prefers P-384', r'''
fn main() {
    let p = Pipe::new(Server::new());
    let _ = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    let st = p.0.borrow();
    check(st.c2s.windows(8).any(|w| w == [0, 10, 0, 4, 0, 2, 0, 23]), "the curve list is not just P-256");
}''')
C('c24-hello-flight', 'C24', [('handshake.rs', '''            let compression_methods = {
                let data = vec![CompressionMethod::null];''', '''            let compression_methods = {
                let data = vec![CompressionMethod::DEFLATE, CompressionMethod::null];''')],
 'compression is offered but not implemented', 'a server that would choose it', r'''
fn main() {
    let p = Pipe::new(Server::new());
    let _ = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    let st = p.0.borrow();
    // session id, suites, compression methods
    check(st.c2s[43..50] == [0, 0, 2, 0xcc, 0xa8, 1, 0], &format!("{:?}", &st.c2s[43..50]));
}''')
