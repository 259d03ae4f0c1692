//! Simulated transport between the client under test and a peer model: single-threaded, lazy
//! (the peer runs when the client reads and nothing is waiting), with chunk schedules,
//! retryable interruptions, faults at chosen byte offsets, buffering until flush, and a step
//! budget that turns endless reading or writing into a panic starting with "SPIN".
use serde::{Deserialize, Serialize};
use std::cell::{RefCell, RefMut};
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

pub trait Peer {
    /// Look at everything the client has sent so far and append whatever the peer sends now.
    fn pump(&mut self, c2s: &[u8], out: &mut Vec<u8>);
}
pub struct NoPeer;
impl Peer for NoPeer {
    fn pump(&mut self, _: &[u8], _: &mut Vec<u8>) {}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fault {
    /// the stream ends here, for good
    Eof,
    /// every call from here on fails
    Dead(u8),
    /// one call fails, then the transport works again
    Once(u8),
    /// writes report that zero bytes were taken
    Zero,
}
pub fn kind(k: u8) -> ErrorKind {
    [ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::NotConnected]
        [k as usize % 8]
}

pub struct Net<S> {
    pub peer: S,
    /// bytes that reached the peer
    pub c2s: Vec<u8>,
    /// bytes accepted from the client but not flushed yet (buffering transports only)
    pub held: Vec<u8>,
    pub buffering: bool,
    pub flushes: u64,
    pub s2c: Vec<u8>,
    pub rpos: usize,
    /// largest number of bytes moved per call, cyclic; 0 is a retryable interruption
    pub rd: Vec<u16>,
    pub wr: Vec<u16>,
    rdi: usize,
    wri: usize,
    pub rfault: Option<(u64, Fault)>,
    pub wfault: Option<(u64, Fault)>,
    pub flush_fault: bool,
    /// only the flush with this number fails
    pub flush_once: Option<u64>,
    /// so many flushes are interrupted (retryably) before one works
    pub flush_interrupts: u32,
    /// how a failing flush fails
    pub flush_kind: ErrorKind,
    pub fuel: u64,
    /// how often the client wanted bytes when there were none
    pub starved: u64,
    pub interrupts: u64,
    pub faults_hit: u64,
    pub reads: u64,
    pub writes: u64,
    /// processor time the peer has used, in nanoseconds
    pub peer_ns: u64,
}
/// Processor time of this thread.
pub fn cpu_ns() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
impl<S: Peer> Net<S> {
    pub fn new(peer: S) -> Shared<S> {
        Shared(Rc::new(RefCell::new(Net {
            peer,
            c2s: Vec::new(),
            held: Vec::new(),
            buffering: false,
            flushes: 0,
            s2c: Vec::new(),
            rpos: 0,
            rd: Vec::new(),
            wr: Vec::new(),
            rdi: 0,
            wri: 0,
            rfault: None,
            wfault: None,
            flush_fault: false,
            flush_once: None,
            flush_interrupts: 0,
            flush_kind: ErrorKind::BrokenPipe,
            fuel: 3_000_000,
            starved: 0,
            interrupts: 0,
            faults_hit: 0,
            reads: 0,
            writes: 0,
            peer_ns: 0,
        })))
    }
    fn burn(&mut self, what: &str) {
        if self.fuel == 0 {
            panic!("SPIN: the client keeps {what} without end");
        }
        self.fuel -= 1;
    }
    pub fn accepted(&self) -> u64 {
        (self.c2s.len() + self.held.len()) as u64
    }
    pub fn unread(&self) -> usize {
        self.s2c.len() - self.rpos
    }
    pub fn pump(&mut self) {
        let Net { peer, c2s, s2c, peer_ns, .. } = self;
        let t = cpu_ns();
        peer.pump(c2s, s2c);
        *peer_ns += cpu_ns() - t;
    }
    fn step(list: &[u16], i: &mut usize) -> usize {
        if list.is_empty() {
            return usize::MAX;
        }
        let v = list[*i % list.len()] as usize;
        *i += 1;
        // a schedule of interruptions only still makes progress
        if v == 0 && *i % 16 == 0 {
            return 1;
        }
        v
    }
}
pub struct Shared<S>(pub Rc<RefCell<Net<S>>>);
impl<S> Clone for Shared<S> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<S: Peer> Shared<S> {
    pub fn reader(&self) -> Rd<S> {
        Rd(self.0.clone())
    }
    pub fn writer(&self) -> Wr<S> {
        Wr(self.0.clone())
    }
    pub fn net(&self) -> RefMut<'_, Net<S>> {
        self.0.borrow_mut()
    }
}
pub struct Rd<S>(Rc<RefCell<Net<S>>>);
pub struct Wr<S>(Rc<RefCell<Net<S>>>);

impl<S: Peer> Read for Rd<S> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = crate::mem::pause();
        let mut n = self.0.borrow_mut();
        n.reads += 1;
        if buf.is_empty() {
            n.burn("reading");
            return Ok(0);
        }
        let m = {
            let Net { rd, rdi, .. } = &mut *n;
            Net::<S>::step(rd, rdi)
        };
        if m == 0 {
            n.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        n.burn("reading");
        let mut limit = usize::MAX;
        if let Some((at, f)) = n.rfault {
            let left = (at as usize).saturating_sub(n.rpos);
            if left == 0 {
                n.faults_hit += 1;
                match f {
                    Fault::Eof | Fault::Zero => {
                        if n.faults_hit > 20_000 {
                            panic!("SPIN: the client keeps reading past the end of the stream");
                        }
                        return Ok(0);
                    }
                    Fault::Dead(k) => return Err(kind(k).into()),
                    Fault::Once(k) => {
                        n.rfault = None;
                        return Err(kind(k).into());
                    }
                }
            }
            limit = left;
        }
        if n.unread() == 0 {
            n.pump();
        }
        if n.unread() == 0 {
            n.starved += 1;
            if n.starved > 20_000 {
                panic!("SPIN: the client keeps reading past the end of the stream");
            }
            return Ok(0);
        }
        let k = buf.len().min(m).min(limit).min(n.unread());
        let at = n.rpos;
        buf[..k].copy_from_slice(&n.s2c[at..at + k]);
        n.rpos += k;
        Ok(k)
    }
}
impl<S: Peer> Write for Wr<S> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = crate::mem::pause();
        let mut n = self.0.borrow_mut();
        let m = {
            let Net { wr, wri, .. } = &mut *n;
            Net::<S>::step(wr, wri)
        };
        if m == 0 {
            n.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        n.writes += 1;
        n.burn("writing");
        if buf.is_empty() {
            return Ok(0);
        }
        let mut limit = usize::MAX;
        if let Some((at, f)) = n.wfault {
            let left = at.saturating_sub(n.accepted()) as usize;
            if left == 0 {
                n.faults_hit += 1;
                match f {
                    Fault::Zero | Fault::Eof => return Ok(0),
                    Fault::Dead(k) => return Err(kind(k).into()),
                    Fault::Once(k) => {
                        n.wfault = None;
                        return Err(kind(k).into());
                    }
                }
            }
            limit = left;
        }
        let k = buf.len().min(m).min(limit);
        if n.buffering {
            n.held.extend_from_slice(&buf[..k]);
        } else {
            n.c2s.extend_from_slice(&buf[..k]);
        }
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _p = crate::mem::pause();
        let mut n = self.0.borrow_mut();
        n.burn("flushing");
        n.flushes += 1;
        if n.flush_fault || n.flush_once == Some(n.flushes - 1) {
            n.faults_hit += 1;
            return Err(n.flush_kind.into());
        }
        if n.flush_interrupts > 0 {
            n.flush_interrupts -= 1;
            n.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some((at, Fault::Dead(k))) = n.wfault {
            if n.accepted() >= at {
                return Err(kind(k).into());
            }
        }
        let h = std::mem::take(&mut n.held);
        n.c2s.extend(h);
        Ok(())
    }
}
