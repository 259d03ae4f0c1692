# Fifth round: what an operation in one direction does to the other, and operations nobody repeats.
C('c19-write-reopens', 'C19', [('client.rs', '''            Ok(()) => Ok(()),
            Err(err) => {
                let err = self.send_tls_alert(err);
                // FIXME''', '''            Ok(()) => {
                // the connection works
                self.read_closed = self.read_closed && buf.is_empty();
                Ok(())
            }
            Err(err) => {
                let err = self.send_tls_alert(err);
                // FIXME''')],
 'genuine records are delivered again after a rejected one', 'an attacker, and a caller that writes after the end of the stream', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"before");
    p.raw(&record(23, &[0; 40]));
    p.send(23, b"after");
    check(drain(&mut c) == b"before", "the undisturbed prefix");
    c.write_all(b"still there?").unwrap();
    check(drain(&mut c) == b"", "nothing after a rejected record");
}''')
C('c22-close-reopens', 'C22', [('client.rs', '''        self.writer.write_alert(&alert_data)?;
''', '''        let sent = self.writer.write_alert(&alert_data);
        // wait for the answer
        self.read_closed = false;
        sent?;
''')],
 'data behind the close notification is delivered', 'a caller that answers the closure and reads on', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"all");
    p.send(21, &[1, 0]);
    p.send(23, b"behind");
    check(drain(&mut c) == b"all", "the data before the closure");
    c.close().unwrap();
    check(drain(&mut c) == b"", "nothing behind it");
}''')
C('c22-close-clears', 'C22', [('client.rs', '''        let alert_data = alert::Alert {
            level: alert::AlertLevel::fatal,
            description: alert::AlertDescription::close_notify,
        };
''', '''        // nothing is read from a closed connection
        self.buf = Vec::new();
        let alert_data = alert::Alert::new(
            alert::AlertLevel::fatal,
            alert::AlertDescription::close_notify,
        )?;
''')],
 'data that has arrived is lost', 'a half-closed connection: closing after a part of a record was read, then reading the rest', r'''
fn main() {
    let (p, mut c) = connected(Server::new());
    p.send(23, b"an answer");
    p.send(21, &[1, 0]);
    let mut b = [0u8; 3];
    check(c.read(&mut b).unwrap() == 3, "three bytes");
    c.close().unwrap();
    check(drain(&mut c) == b"answer", "the rest after closing");
}''')
C('c23-close-flush', 'C23', [('client.rs', '''        self.writer.write_alert(&alert_data)?;
        self.writer.flush()?;
        Ok(())
''', '''        // the peer may be gone already, which is fine once the alert is written
        let written = self.writer.write_alert(&alert_data);
        let _ = self.writer.flush();
        written
''')],
 'a close that never left the buffer is reported as done', 'a buffering transport whose flush fails', r'''
struct Held(Pipe, Vec<u8>, std::rc::Rc<std::cell::Cell<bool>>);
impl Write for Held {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.2.get() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        let b = std::mem::take(&mut self.1);
        self.0.write_all(&b)
    }
}
fn main() {
    let p = Pipe::new(Server::new());
    let broken = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut c = husk::TlsClient::new(p.clone(), Held(p.clone(), vec![], broken.clone()), rand::rngs::OsRng).unwrap();
    broken.set(true);
    check(c.close().is_err(), "the failure is reported");
}''')

Seed('c09-weak-secret', 'C09', [('cipher/ecdhe.rs', 'let pre_master_secret = gxy.x.to_bytes();', """let pre_master_secret = gxy.x.to_bytes();
        if pre_master_secret[..4] == [0; 4] {
            return tls_err!(IllegalParameter, "weak shared secret");
        }""")],
 'a valid key share is refused', 'a shared x coordinate below 2^224', r"""
use husk::cipher::{ecdhe::EllipticDiffieHellman, KeyExchange};
fn main() {
    // half of a point whose x coordinate is 0x1122334455667788
    let h = "41bfa75cdb7f1863ed984739f71e93bdc16690932afe45d13c3ae597ad95d9908423eb4a6e4f24456b718971cd9f52777dc9e1276d4026df922493e07095f251";
    let mut v = vec![3, 0, 23, 65, 4];
    v.extend((0..64).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()));
    v.extend([4, 1, 0, 4, 9, 9, 9, 9]);
    let mut two = [0u8; 32];
    two[0] = 2;
    getrandom::set_entropy(&two, 5);
    match EllipticDiffieHellman.compute_keys(&v, &mut rand::rngs::OsRng) {
        Ok((_, s)) => {
            println!("{s:?}");
            // (another way to draw the key is no violation)
            if s.len() != 32 {
                std::process::exit(1);
            }
        }
        Err(e) => {
            eprintln!("refused: {e:?}");
            std::process::exit(1);
        }
    }
}""", shim=True)
C('c17-sid-echo', 'C17', [('client.rs', """            if server_hello_data.compression_method != handshake""", """            if server_hello_data.session_id[..] == cli_random[..] {
                // the server resumes the session we just proposed
                return Ok(());
            }

            if server_hello_data.compression_method != handshake""")],
 'a handshake without keys, certificate and Finished is reported as complete', 'a session id that equals the client random', r"""
struct Hello(std::rc::Rc<std::cell::RefCell<(Vec<u8>, Vec<u8>, bool)>>);
impl Write for Hello {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Read for Hello {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if !s.2 && s.0.len() > 43 {
            s.2 = true;
            // the client random is behind the record and handshake headers and the version
            let random = s.0[11..43].to_vec();
            let hello = [&[3, 3][..], &[7; 32], &[32], &random, &[0xcc, 0xa8, 0, 0, 0]].concat();
            s.1 = record(22, &frame(2, &hello));
        }
        let k = b.len().min(s.1.len());
        b[..k].copy_from_slice(&s.1[..k]);
        s.1.drain(..k);
        Ok(k)
    }
}
fn main() {
    let s = std::rc::Rc::new(std::cell::RefCell::new((vec![], vec![], false)));
    let r = husk::client::TlsClient::new(Hello(s.clone()), Hello(s), rand::rngs::OsRng);
    check(r.is_err(), "a server hello alone does not make a connection");
}""")
C('c16-fragments', 'C16', [('tls.rs', '''        // ok, no message found. read it from network!
''', '''        // ok, no message found. read it from network!
        let mut fragments = 0u32;
'''), ('tls.rs', '''                    self.handshake_buffer.add_record(&record.fragment);
''', '''                    fragments += 1;
                    if fragments > 8 * 256 {
                        return tls_err!(UnexpectedMessage, "too many fragments");
                    }
                    self.handshake_buffer.add_record(&record.fragment);
''')],
 'a conforming server is refused', 'a certificate chain in more than 2048 records', r'''
fn main() {
    let mut s = Server::new();
    s.certs = vec![vec![7; 5000]];
    s.frag = Some(1);
    let (_, r) = connect(s);
    check(r.is_ok(), "a chain of 5000 bytes in records of one byte");
}''')
