# Third round: state shared between connections.
P2 = r'''
struct Ends(Box<dyn FnMut(&mut [u8]) -> usize>);
impl Read for Ends {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        Ok((self.0)(b))
    }
}
'''
C('c27-share-cache', 'C27', [('cipher/ecdhe.rs', 'pub struct EllipticDiffieHellman;', '''pub struct EllipticDiffieHellman;

thread_local! {
    // the key pair is kept while the same server is asked again
    static SERVER: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
    static KEY: std::cell::Cell<Option<[u32; 8]>> = std::cell::Cell::new(None);
}'''), ('cipher/ecdhe.rs', '        let gy = &ecdh_params.params.public;\n', '''        let gy = &ecdh_params.params.public;
        SERVER.with(|s| {
            let mut s = s.borrow_mut();
            if s[..] != gy[..] {
                *s = gy.to_vec();
                KEY.with(|k| k.set(None));
            }
        });
'''), ('cipher/ecdhe.rs', '                let mut x = p256::int256::ZERO;\n', '''                let mut x = p256::int256::ZERO;
                if let Some(kept) = KEY.with(|k| k.get()) {
                    for i in 0..8 {
                        x.v[i] = W(kept[i]);
                    }
                    return x;
                }
'''), ('cipher/ecdhe.rs', '                if x_is_okay == W(0) {\n', '''                if x_is_okay == W(0) {
                    let mut kept = [0; 8];
                    for i in 0..8 {
                        kept[i] = x.v[i].0;
                    }
                    KEY.with(|k| k.set(Some(kept)));
''')],
 'the ephemeral key is used again for the next connection', 'a second connection from the same thread to a server with the same ephemeral key', r'''
fn main() {
    let share = |p: &Pipe| {
        let b = p.0.borrow().c2s.clone();
        let at = 5 + b[3] as usize * 256 + b[4] as usize;
        b[at + 5 + 5..at + 5 + 70].to_vec()
    };
    let (a, _x) = connected(Server::new());
    let (b, _y) = connected(Server::new());
    check(share(&a) != share(&b), "two connections have the same key share");
}''')
C('c27-one-at-a-time', 'C27', [('client.rs', '    fn handshake(&mut self) -> TlsResult<()> {\n', '''    fn handshake(&mut self) -> TlsResult<()> {
        // handshakes are costly: one at a time
        static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _turn = TURN.lock();

''')],
 'a handshake waits for all that have begun before', 'a handshake with a server that does not answer, and another connection meanwhile', P2 + r'''
fn main() {
    use std::sync::mpsc;
    use std::time::Duration;
    let (started, wait_started) = mpsc::channel();
    let (done, wait_done) = mpsc::channel::<()>();
    let slow = std::thread::spawn(move || {
        let mut seen = None;
        let r = Ends(Box::new(move |_| {
            if seen.is_none() {
                started.send(()).unwrap();
                seen = Some(wait_done.recv_timeout(Duration::from_secs(20)).is_ok());
                check(seen == Some(true), "a connection waits for the handshake of another");
            }
            0
        }));
        let _ = husk::TlsClient::new(r, Vec::new(), rand::rngs::OsRng);
    });
    wait_started.recv().unwrap();
    let _ = connected(Server::new());
    done.send(()).unwrap();
    slow.join().unwrap();
}''')
C('c27-header-scratch', 'C27', [('tls.rs', "    /// Read a record from readable stream.\n", '''    /// Type and version of the record being read.
    fn header() -> &'static std::thread::LocalKey<std::cell::Cell<[u8; 3]>> {
        thread_local! {
            static HEADER: std::cell::Cell<[u8; 3]> = const { std::cell::Cell::new([0; 3]) };
        }
        &HEADER
    }

    /// Read a record from readable stream.
'''), ('tls.rs', '        let major = self.reader.read_u8()?;\n        let minor = self.reader.read_u8()?;\n', '''        let major = self.reader.read_u8()?;
        let minor = self.reader.read_u8()?;
        Self::header().with(|h| h.set([content_type as u8, major, minor]));
'''), ('tls.rs', '''                ad.push(content_type as u8); // TLSCompressed.type
                ad.push(major);
                ad.push(minor);
''', '''                ad.extend(&Self::header().with(|h| h.get()));
''')],
 'a record is checked against the header of another connection', 'a transport that itself runs over a connection of the same thread (tunnels), records of different types', r'''
/// A transport that runs another handshake when it is read.
struct Busy(Pipe, bool);
impl Read for Busy {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 {
            self.1 = b.len() == 5 || b.len() < 3;
            if b.len() > 16 {
                // inside the body of an encrypted record
                let _ = connected(Server::new());
            }
            self.1 = true;
        }
        self.0.read(b)
    }
}
fn main() {
    let p = Pipe::new(Server::new());
    let r = husk::TlsClient::new(Busy(p.clone(), true), p.clone(), rand::rngs::OsRng);
    check(r.is_ok(), "the handshake fails when another takes place within the transport");
    let mut c = r.unwrap();
    p.pump();
    p.send(23, &[7; 40]);
    let mut b = [0; 40];
    check(c.read(&mut b).unwrap() == 40 && b == [7; 40], "data is lost when another connection is busy within the transport");
}''')
C('c27-table', 'C27', [('crypto/p256.rs', '        let mut ret = INFTY;\n        for i in (0..8).rev() {\n', '''        use std::sync::atomic::{AtomicU32, Ordering};
        // the scalar, where the loop finds it without a bounds check
        static LIMBS: [AtomicU32; 8] = [const { AtomicU32::new(0) }; 8];
        for i in 0..8 {
            LIMBS[i].store(n.v[i].0, Ordering::Relaxed);
        }

        let mut ret = INFTY;
        for i in (0..8).rev() {
'''), ('crypto/p256.rs', '                let bit = (n.v[i] >> j) & W(1);\n', '                let bit = (W(LIMBS[i].load(Ordering::Relaxed)) >> j) & W(1);\n')],
 'two scalar multiplications at the same time mix their scalars', 'handshakes in two threads at the same time', r'''
fn main() {
    let ts: Vec<_> = (0..4u8).map(|t| std::thread::spawn(move || {
        for _ in 0..15 {
            let _ = t;
            let (_, r) = connect(Server::new());
            check(r.is_ok(), "a handshake fails beside others");
        }
    })).collect();
    for t in ts {
        t.join().unwrap();
    }
}''')
C('c27-quota', 'C27', [('client.rs', "impl<R: Read, W: Write> Read for TlsClient<R, W> {\n", '''/// What all connections together hold for their callers.
static HELD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const HELD_MAX: usize = 4 << 20;

impl<R: Read, W: Write> Read for TlsClient<R, W> {
'''), ('client.rs', '                self.buf.extend(&data);\n', '''                if HELD.fetch_add(data.len(), std::sync::atomic::Ordering::SeqCst) > HELD_MAX {
                    HELD.fetch_sub(data.len(), std::sync::atomic::Ordering::SeqCst);
                    break;
                }
                self.buf.extend(&data);
'''), ('client.rs', '            self.buf = self.buf[necessary..].to_vec();\n', '''            self.buf = self.buf[necessary..].to_vec();
            HELD.fetch_sub(necessary, std::sync::atomic::Ordering::SeqCst);
''')],
 'connections lose data after many others were dropped', 'hundreds of connections dropped with data that was not read', r'''
fn main() {
    for i in 0..300 {
        let (p, mut c) = connected(Server::new());
        p.send(23, &[i as u8; 16384]);
        let mut b = [0; 4];
        check(c.read(&mut b).unwrap() == 4 && b == [i as u8; 4], "a new connection does not deliver its data");
    }
}''')
C('c27-breaker', 'C27', [('client.rs', '            Err(err) => return Err(client.send_tls_alert(err)),\n', '''            Err(err) => {
                FAILURES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                return Err(client.send_tls_alert(err));
            }
'''), ('client.rs', '            Ok(()) => {}\n            Err(err) => {\n                FAILURES', '            Ok(()) => FAILURES.store(0, std::sync::atomic::Ordering::SeqCst),\n            Err(err) => {\n                FAILURES'), ('client.rs', '// handshake is done during construction.\n', '''/// Handshakes that failed one after the other.
static FAILURES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

// handshake is done during construction.
'''), ('client.rs', '        let cli_random = {\n', '''        // give the network time to recover
        if FAILURES.load(std::sync::atomic::Ordering::SeqCst) >= 5 {
            FAILURES.store(0, std::sync::atomic::Ordering::SeqCst);
            return tls_err!(TlsErrorKind::IoFailure, "too many failures");
        }

        let cli_random = {
''')],
 'a connection fails because others did', 'five failing handshakes in a row anywhere in the process', r'''
fn main() {
    for _ in 0..5 {
        let mut s = Server::new();
        s.comp = 1;
        check(connect(s).1.is_err(), "compression was accepted");
    }
    check(connect(Server::new()).1.is_ok(), "a handshake fails after failures of other connections");
}''')
