//! A minimal TLS 1.2 server (ECDHE_RSA, P-256, ChaCha20-Poly1305) for the demonstration, on top
//! of husk's own primitives, with hooks to change what it sends.
#![allow(dead_code)]
use husk::cipher::chacha20_poly1305::ChaCha20Poly1305;
use husk::cipher::prf::Prf;
use husk::cipher::{Aead, Decryptor, Encryptor};
use husk::crypto::p256::{int256::Int256, NPoint256, G};
use husk::crypto::sha2::sha256;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn record(ty: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, 3, 3, (data.len() >> 8) as u8, data.len() as u8];
    v.extend_from_slice(data);
    v
}
pub fn frame(ty: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, (data.len() >> 16) as u8, (data.len() >> 8) as u8, data.len() as u8];
    v.extend_from_slice(data);
    v
}
fn prf(secret: &[u8], label: &str, seed: &[u8], n: usize) -> Vec<u8> {
    Prf::new(secret.to_vec(), [label.as_bytes(), seed].concat()).get_bytes(n)
}
pub struct Keys {
    pub cw: Vec<u8>,
    pub sw: Vec<u8>,
    pub civ: Vec<u8>,
    pub siv: Vec<u8>,
}
pub fn nonce(iv: &[u8], seq: u64) -> Vec<u8> {
    let mut n = vec![0u8; 4];
    n.extend_from_slice(&seq.to_be_bytes());
    n.iter().zip(iv).map(|(a, b)| a ^ b).collect()
}
pub fn ad(seq: u64, ty: u8, ver: (u8, u8), len: usize) -> Vec<u8> {
    let mut a = seq.to_be_bytes().to_vec();
    a.extend_from_slice(&[ty, ver.0, ver.1, (len >> 8) as u8, len as u8]);
    a
}
pub fn seal(key: &[u8], iv: &[u8], seq: u64, ty: u8, data: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305.new_encryptor(key.to_vec()).encrypt(&nonce(iv, seq), data, &ad(seq, ty, (3, 3), data.len()));
    record(ty, &c)
}
pub fn open(key: &[u8], iv: &[u8], seq: u64, ty: u8, ver: (u8, u8), data: &[u8]) -> Option<Vec<u8>> {
    ChaCha20Poly1305.new_decryptor(key.to_vec()).decrypt(&nonce(iv, seq), data, &ad(seq, ty, ver, data.len().wrapping_sub(16))).ok()
}
pub struct Server {
    /// parts of the server hello: session id and the bytes after the compression method
    pub sid: Vec<u8>,
    pub exts: Vec<u8>,
    pub comp: u8,
    pub random: [u8; 32],
    pub signature: Vec<u8>,
    pub suite: [u8; 2],
    pub version: (u8, u8),
    pub certs: Vec<Vec<u8>>,
    /// the server's private key
    pub key: [u8; 32],
    /// if set, one flight goes out in records of this size
    pub frag: Option<usize>,
    /// on the wire only: change the messages of the first flight
    pub wire1: Option<Box<dyn Fn(&mut Vec<Vec<u8>>)>>,
    /// raw records of the second flight (change cipher spec, sealed Finished)
    pub wire2: Option<Box<dyn Fn(&mut Vec<Vec<u8>>, &Keys)>>,
    hello: Vec<u8>,
    transcript: Vec<u8>,
    ms: Vec<u8>,
    pub premaster: Vec<u8>,
    pub client_point: Vec<u8>,
    pub keys: Option<Keys>,
    pub done: bool,
    enc: bool,
    hs: Vec<u8>,
    pos: usize,
    pub rseq: u64,
    pub wseq: u64,
    /// records of the client after its Finished, opened: type, plaintext
    pub got: Vec<(u8, Option<Vec<u8>>)>,
}
impl Server {
    pub fn new() -> Server {
        Server {
            sid: vec![], exts: vec![], comp: 0, random: [0x5a; 32], signature: vec![9; 4], suite: [0xcc, 0xa8], version: (3, 3), certs: vec![vec![1; 40]], key: {
                let mut k = [0; 32];
                k[31] = 5;
                k
            },
            frag: None, wire1: None, wire2: None, hello: vec![], transcript: vec![], ms: vec![], premaster: vec![], client_point: vec![], keys: None, done: false, enc: false,
            hs: vec![], pos: 0, rseq: 0, wseq: 0, got: vec![],
        }
    }
    pub fn seal(&mut self, ty: u8, data: &[u8]) -> Vec<u8> {
        let k = self.keys.as_ref().unwrap();
        let r = seal(&k.sw, &k.siv, self.wseq, ty, data);
        self.wseq += 1;
        r
    }
    pub fn app(&self) -> Vec<u8> {
        self.got.iter().filter(|g| g.0 == 23).flat_map(|g| g.1.clone().unwrap_or_default()).collect()
    }
    fn step(&mut self, c2s: &[u8], out: &mut Vec<u8>) {
        while c2s.len() - self.pos >= 5 {
            let h = &c2s[self.pos..];
            let n = (h[3] as usize) << 8 | h[4] as usize;
            if h.len() < 5 + n {
                return;
            }
            let (ty, ver, body) = (h[0], (h[1], h[2]), h[5..5 + n].to_vec());
            self.pos += 5 + n;
            if self.enc {
                let k = self.keys.as_ref().unwrap();
                let p = open(&k.cw, &k.civ, self.rseq, ty, ver, &body);
                if p.is_some() {
                    self.rseq += 1;
                }
                if !self.done && ty == 22 {
                    if let Some(p) = p {
                        self.finish(&p, out);
                        continue;
                    }
                }
                self.got.push((ty, p));
                continue;
            }
            match ty {
                20 => self.enc = true,
                22 => {
                    self.hs.extend(body);
                    while self.hs.len() >= 4 {
                        let n = (self.hs[1] as usize) << 16 | (self.hs[2] as usize) << 8 | self.hs[3] as usize;
                        if self.hs.len() < 4 + n {
                            break;
                        }
                        let m: Vec<u8> = self.hs.drain(..4 + n).collect();
                        match m[0] {
                            1 => self.on_hello(m, out),
                            16 => self.on_key(m),
                            _ => {}
                        }
                    }
                }
                _ => self.got.push((ty, Some(body))),
            }
        }
    }
    fn on_hello(&mut self, m: Vec<u8>, out: &mut Vec<u8>) {
        self.hello = m;
        let mut sh = vec![self.version.0, self.version.1];
        sh.extend(self.random);
        sh.push(self.sid.len() as u8);
        sh.extend(&self.sid);
        sh.extend(self.suite);
        sh.push(self.comp);
        sh.extend(&self.exts);
        let mut list = vec![];
        for c in &self.certs {
            list.extend([(c.len() >> 16) as u8, (c.len() >> 8) as u8, c.len() as u8]);
            list.extend(c);
        }
        let mut cert = vec![(list.len() >> 16) as u8, (list.len() >> 8) as u8, list.len() as u8];
        cert.extend(list);
        let point = G.mult_scalar(&Int256::from_bytes(&self.key).unwrap()).normalize().to_uncompressed_bytes();
        let mut ske = vec![3, 0, 23, 65];
        ske.extend(point);
        ske.extend([4, 1, (self.signature.len() >> 8) as u8, self.signature.len() as u8]);
        ske.extend(&self.signature);
        let mut f = vec![frame(2, &sh), frame(11, &cert), frame(12, &ske), frame(14, &[])];
        self.transcript = self.hello.clone();
        for m in &f {
            self.transcript.extend(m);
        }
        if let Some(w) = &self.wire1 {
            w(&mut f);
        }
        match self.frag {
            None => {
                for m in &f {
                    for c in m.chunks(16384) {
                        out.extend(record(22, c));
                    }
                }
            }
            Some(n) => {
                for c in f.concat().chunks(n) {
                    out.extend(record(22, c));
                }
            }
        }
    }
    fn on_key(&mut self, m: Vec<u8>) {
        self.transcript.extend(&m);
        self.client_point = m[5..].to_vec();
        let p = NPoint256::from_uncompressed_bytes(&m[5..]).unwrap().to_point();
        let s = p.mult_scalar(&Int256::from_bytes(&self.key).unwrap()).normalize();
        self.premaster = s.x.to_bytes();
        let (c, s) = (&self.hello[6..38], self.random);
        self.ms = prf(&self.premaster, "master secret", &[c, &s].concat(), 48);
        let kb = prf(&self.ms, "key expansion", &[&s, c].concat(), 88);
        self.keys = Some(Keys { cw: kb[..32].to_vec(), sw: kb[32..64].to_vec(), civ: kb[64..76].to_vec(), siv: kb[76..].to_vec() });
    }
    fn finish(&mut self, m: &[u8], out: &mut Vec<u8>) {
        assert_eq!(m[4..], prf(&self.ms, "client finished", &sha256(&self.transcript), 12)[..], "client Finished is wrong");
        self.transcript.extend(m);
        let v = prf(&self.ms, "server finished", &sha256(&self.transcript), 12);
        let fin = self.seal(22, &frame(20, &v));
        let mut f = vec![record(20, &[1]), fin];
        if let Some(w) = &self.wire2 {
            w(&mut f, self.keys.as_ref().unwrap());
        }
        out.extend(f.concat());
        self.done = true;
    }
}
pub struct State {
    pub srv: Server,
    pub c2s: Vec<u8>,
    pub s2c: Vec<u8>,
    pub rpos: usize,
    /// bytes moved per call
    pub max_read: usize,
    pub max_write: usize,
    /// the transport fails once after this many more written bytes
    pub fail_write: Option<usize>,
    pub dry: usize,
}
#[derive(Clone)]
pub struct Pipe(pub Rc<RefCell<State>>);
impl Pipe {
    pub fn new(srv: Server) -> Pipe {
        Pipe(Rc::new(RefCell::new(State { srv, c2s: vec![], s2c: vec![], rpos: 0, max_read: usize::MAX, max_write: usize::MAX, fail_write: None, dry: 0 })))
    }
    pub fn pump(&self) {
        let st = &mut *self.0.borrow_mut();
        let c = st.c2s.clone();
        st.srv.step(&c, &mut st.s2c);
    }
    pub fn send(&self, ty: u8, data: &[u8]) {
        let mut st = self.0.borrow_mut();
        let r = st.srv.seal(ty, data);
        st.s2c.extend(r);
    }
    pub fn raw(&self, data: &[u8]) {
        self.0.borrow_mut().s2c.extend_from_slice(data);
    }
}
impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.0.borrow().rpos == self.0.borrow().s2c.len() {
            self.pump();
        }
        let mut st = self.0.borrow_mut();
        let n = buf.len().min(st.max_read).min(st.s2c.len() - st.rpos);
        if n == 0 && !buf.is_empty() {
            st.dry += 1;
            if st.dry > 10_000 {
                eprintln!("the client spins at the end of the stream");
                std::process::exit(1);
            }
        }
        let at = st.rpos;
        buf[..n].copy_from_slice(&st.s2c[at..at + n]);
        st.rpos += n;
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.0.borrow_mut();
        let mut n = buf.len().min(st.max_write);
        if let Some(left) = st.fail_write {
            if left == 0 {
                st.fail_write = None;
                return Err(io::ErrorKind::TimedOut.into());
            }
            n = n.min(left);
            st.fail_write = Some(left - n);
        }
        st.c2s.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub type Client = husk::TlsClient<Pipe, Pipe>;
pub fn connect(srv: Server) -> (Pipe, Result<Client, husk::tls_result::TlsError>) {
    let p = Pipe::new(srv);
    let r = husk::TlsClient::new(p.clone(), p.clone(), rand::rngs::OsRng);
    (p, r)
}
pub fn connected(srv: Server) -> (Pipe, Client) {
    let (p, r) = connect(srv);
    let c = match r {
        Ok(c) => c,
        Err(e) => {
            eprintln!("handshake failed: {e:?}");
            std::process::exit(1);
        }
    };
    p.pump();
    (p, c)
}
/// Everything the client hands over until a read gives nothing.
pub fn drain(c: &mut Client) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 100];
    while let Ok(n) = c.read(&mut b) {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&b[..n]);
    }
    v
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
