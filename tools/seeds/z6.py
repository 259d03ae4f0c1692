# Sixth round: memory.
MEM = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(SeqCst) {
            LIVE.fetch_add(l.size() as i64, SeqCst);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) {
            LIVE.fetch_sub(l.size() as i64, SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
/// The transport, not counted.
struct Q(Pipe);
fn off<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.swap(false, SeqCst);
    let r = f();
    ON.store(was, SeqCst);
    r
}
fn on<T>(f: impl FnOnce() -> T) -> T {
    ON.store(true, SeqCst);
    let r = f();
    ON.store(false, SeqCst);
    r
}
impl Read for Q {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        off(|| self.0.read(b))
    }
}
impl Write for Q {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        off(|| self.0.write(b))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        off(|| self.0.flush())
    }
}
type Cl = husk::TlsClient<Q, Q>;
fn start(p: &Pipe) -> Option<Cl> {
    on(|| husk::TlsClient::new(Q(p.clone()), Q(p.clone()), rand::rngs::OsRng).ok())
}
/// Bytes held after n and after 3 n rounds.
fn grows(n: usize, mut f: impl FnMut(usize)) -> i64 {
    let mut m = 0;
    for i in 0..3 * n {
        f(i);
        if i == n {
            m = LIVE.load(SeqCst);
        }
    }
    LIVE.load(SeqCst) - m
}
'''
def L(id, edits, what, needs, demo):
    C(id, 'C28', edits, what, needs, MEM + demo)

L('c28-unflushed', [('tls.rs', '''    iv: Option<Vec<u8>>,
}

impl<W: Write> TlsWriter<W> {''', '''    iv: Option<Vec<u8>>,
    // what the transport may still hold back
    unflushed: Vec<(u64, usize)>,
}

impl<W: Write> TlsWriter<W> {'''), ('tls.rs', '''            write_count: 0,
            iv: None,
''', '''            write_count: 0,
            iv: None,
            unflushed: Vec::new(),
'''), ('tls.rs', '''        self.writer.flush()?;
        Ok(())
    }

    pub fn write_record''', '''        self.writer.flush()?;
        self.unflushed.clear();
        Ok(())
    }

    pub fn write_record'''), ('tls.rs', '''        // the nonce is used up''', '''        self.unflushed.push((self.write_count, fragment_len));

        // the nonce is used up''')],
 'a note about every record is kept for ever, as the flush of the client does not go through the writer that clears them', 'a connection with very many writes', r'''
fn main() {
    let p = Pipe::new(Server::new());
    let mut c = start(&p).expect("handshake");
    let g = grows(4000, |i| on(|| {
        c.write_all(b"tick").unwrap();
        if i % 10 == 0 {
            c.flush().unwrap();
        }
    }));
    check(g < 4096, "memory of a connection that only writes");
}''')
L('c28-seen-tags', [('cipher/chacha20_poly1305.rs', '''struct ChaCha20Poly1305Decryptor {
    key: Vec<u8>,
}''', '''struct ChaCha20Poly1305Decryptor {
    key: Vec<u8>,
    // of records without content, which could be repeated unnoticed
    seen: Vec<Vec<u8>>,
}'''), ('cipher/chacha20_poly1305.rs', '''        if diff != 0 {''', '''        if data.len() == MAC_LEN {
            self.seen.push(mac_expected.to_vec());
        }
        if diff != 0 {'''), ('cipher/chacha20_poly1305.rs', 'ChaCha20Poly1305Decryptor { key };', 'ChaCha20Poly1305Decryptor { key, seen: vec![] };')],
 'the tags of empty records are kept', 'a server that sends very many empty records', r'''
fn main() {
    let p = Pipe::new(Server::new());
    let mut c = start(&p).expect("handshake");
    p.pump();
    let g = grows(3000, |_| {
        p.send(23, b"");
        p.send(23, b"x");
        let mut b = [0; 9];
        while on(|| c.read(&mut b).unwrap_or(0)) > 0 {}
    });
    check(g < 4096, "memory of a connection that reads");
}''')
L('c28-forget-failed', [('client.rs', '''            Err(err) => return Err(client.send_tls_alert(err)),''', '''            Err(err) => {
                let err = client.send_tls_alert(err);
                // keep the transport open until the alert is through
                if err.kind != TlsErrorKind::IoFailure {
                    std::mem::forget(client);
                }
                return Err(err);
            }''')],
 'the client is never freed when a handshake fails', 'very many handshakes that fail with an alert', r'''
fn main() {
    let g = grows(200, |_| {
        let mut s = Server::new();
        s.wire2 = Some(Box::new(|r, _| *r.last_mut().unwrap().last_mut().unwrap() ^= 1));
        let p = Pipe::new(s);
        check(start(&p).is_none(), "a Finished altered on the way");
    });
    check(g < 4096, "memory after failed handshakes");
}''')
L('c28-error-text', [('client.rs', '''                // FIXME more verbose io error
                Err(io::Error::new(
                    io::ErrorKind::Other,
                    SurugaError {
                        desc: "TLS write error",''', '''                let desc: &'static str = Box::leak(format!("TLS write error: {}", err.desc).into_boxed_str());
                Err(io::Error::new(
                    io::ErrorKind::Other,
                    SurugaError {
                        desc,''')],
 'the text of every write error stays in memory', 'very many writes that fail', r'''
fn main() {
    let p = Pipe::new(Server::new());
    let mut c = start(&p).expect("handshake");
    let g = grows(1000, |_| {
        p.0.borrow_mut().fail_write = Some(0);
        check(on(|| c.write_all(b"x").is_err()), "the transport fails");
    });
    check(g < 4096, "memory after failed writes");
}''')
L('c28-sessions', [('client.rs', '''        let server_finished = expect!(finished);
''', '''        let server_finished = expect!(finished);
        if !session_id.is_empty() {
            // remembered for a shorter handshake the next time
            SESSIONS.lock().unwrap().push(session_id);
        }
'''), ('client.rs', '''            // FIXME: check if server sent unknown extension
''', '''            session_id = server_hello_data.session_id.to_vec();

            // FIXME: check if server sent unknown extension
'''), ('client.rs', '''        let server_hello_data = expect!(server_hello);
''', '''        let server_hello_data = expect!(server_hello);
        let session_id;
'''), ('client.rs', '''// handshake is done during construction.
''', '''static SESSIONS: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());

// handshake is done during construction.
''')],
 'the session id of every connection ever made is kept', 'very many connections to servers that give session ids', r'''
fn main() {
    let g = grows(60, |i| {
        let mut s = Server::new();
        s.sid = vec![i as u8; 32];
        let p = Pipe::new(s);
        let c = start(&p).expect("handshake");
        on(|| drop(c));
    });
    check(g < 1500, "memory after connections that were dropped");
}''')
