use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    /// client writes, with write or write_all
    Write(Blob, bool),
    Flush,
    /// the server sends one record (what is left of an earlier one first)
    Send(Blob),
    /// the server sends many records of one length
    Burst(u16, u8),
    /// only the first part of a record arrives
    Part(Blob, u32),
    /// client reads into a buffer of this length
    Read(u32),
    /// client reads all that has arrived, with buffers of this length
    Drain(u32),
    /// read_exact of up to this many bytes that have arrived
    Exact(u32),
    /// many reads of this length
    Sip(u8, u8),
    /// client writes through the standard adapters: vectored, or formatted
    VWrite(Vec<Blob>),
    Fmt(Vec<u32>),
    /// client reads into several buffers
    VRead(Vec<u16>),
    /// read_to_end of a limited part of what has arrived
    Take(u32),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    cfg: Cfg,
    entropy: u64,
    ops: Vec<Op>,
    rd: Vec<u16>,
    wr: Vec<u16>,
    /// how it ends: 0 nothing, 1 close_notify, 2 end of the transport
    end: u8,
}
fn reclen() -> BoxedStrategy<u32> {
    prop_oneof![8 => 1u32..50, 2 => Just(0u32), 3 => 50u32..1000, 1 => 16380u32..=16384, 1 => 1u32..=16384].boxed()
}
fn wlen() -> BoxedStrategy<u32> {
    prop_oneof![8 => 1u32..50, 2 => Just(0u32), 3 => 50u32..1000, 2 => len_around(16384, 50_000), 1 => 1u32..=70_000].boxed()
}
/// Lengths that do not fit into 16 or 24 bits, and multiples of 65536.
fn wide() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => (1u32..20).prop_map(|k| k << 16),
        4 => (1u32..20, -20i32..60).prop_map(|(k, d)| ((k << 16) as i32 + d) as u32),
        1 => (-3i32..60).prop_map(|d| ((1 << 24) + d) as u32),
        1 => 40_000u32..2_000_000,
    ]
    .boxed()
}
fn rlen() -> BoxedStrategy<u32> {
    hv::lits::spice(prop_oneof![6 => 1u32..20, 1 => Just(0u32), 5 => 1u32..80, 3 => 50u32..1200, 2 => 16_000u32..40_000, 1 => wide()].boxed())
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (blob(wlen()), any::<bool>()).prop_map(|(b, k)| Op::Write(b, k)),
        1 => Just(Op::Flush),
        6 => blob(reclen()).prop_map(Op::Send),
        1 => (prop_oneof![9 => 0u16..40, 1 => hv::lits::spice((0u16..600).boxed())], prop_oneof![1 => 0u8..40, 1 => Just(0u8)]).prop_map(|(n, l)| Op::Burst(n, l)),
        2 => (blob(reclen()), any::<u32>()).prop_map(|(b, n)| Op::Part(b, n)),
        7 => rlen().prop_map(Op::Read),
        2 => rlen().prop_map(Op::Drain),
        1 => rlen().prop_map(Op::Exact),
        1 => (1u8..20, 1u8..30).prop_map(|(n, l)| Op::Sip(n, l)),
        1 => vec(blob(prop_oneof![6 => 0u32..40, 1 => 0u32..20_000].boxed()), 0..5usize).prop_map(Op::VWrite),
        1 => vec(any::<u32>(), 0..4usize).prop_map(Op::Fmt),
        1 => vec(prop_oneof![6 => 0u16..40, 1 => 0u16..20_000], 0..5usize).prop_map(Op::VRead),
        1 => rlen().prop_map(Op::Take),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let s = || prop_oneof![4 => Just(vec![]), 1 => vec(1u16..9, 1..4usize), 1 => vec(1u16..400, 1..4usize)];
    (small_cfg(), any::<u64>(), vec(op(), 1..24usize), s(), s(), 0u8..6).prop_map(|(cfg, entropy, ops, rd, wr, end)| Case { cfg, entropy, ops, rd, wr, end }).boxed()
}

struct Run {
    net: Shared<Server>,
    cl: Client,
    /// what the client wrote
    up: Vec<u8>,
    /// what has arrived in complete records
    down: Vec<u8>,
    got: usize,
    /// rest of a record that has arrived in part, and its plaintext
    rest: Vec<u8>,
    rest_plain: Vec<u8>,
}
impl Run {
    fn complete(&mut self) {
        let r = std::mem::take(&mut self.rest);
        self.net.net().s2c.extend(r);
        let p = std::mem::take(&mut self.rest_plain);
        self.down.extend(p);
    }
    fn send(&mut self, plain: &[u8]) {
        self.complete();
        let mut n = self.net.net();
        let r = n.peer.seal(23, (3, 3), plain, 0, false);
        n.s2c.extend(r);
        drop(n);
        self.down.extend_from_slice(plain);
    }
    fn avail(&self) -> usize {
        self.down.len() - self.got
    }
    fn read(&mut self, n: usize) -> R {
        if self.avail() == 0 && n > 0 {
            return Ok(()); // nothing there: a read has to wait
        }
        let mut buf = vec![0u8; n];
        let starved = self.net.net().starved;
        let r = guarded(|| self.cl.read(&mut buf))?;
        let k = r.map_err(|e| format!("a read into {n} bytes with {} bytes waiting fails: {e}", self.avail()))?;
        if k > n {
            return Err(format!("a read into {n} bytes reports {k}"));
        }
        if n > 0 && k == 0 {
            return Err(format!("a read into {n} bytes with {} bytes waiting reports the end of the stream", self.avail()));
        }
        if k > self.avail() || buf[..k] != self.down[self.got..self.got + k] {
            return Err(format!("a read returned {k} bytes that are not the next the server sent ({} read before, {} waiting): {}", self.got, self.avail(), hex(&buf[..k.min(16)])));
        }
        self.got += k;
        if self.net.net().starved != starved {
            return Err(format!("a read into {n} bytes waits for more although {k} bytes had arrived"));
        }
        Ok(())
    }
    fn drain(&mut self, n: usize) -> R {
        while self.avail() > 0 {
            self.read(n.max(1))?;
        }
        Ok(())
    }
    fn write(&mut self, d: &[u8], all: bool) -> R {
        if all {
            guarded(|| self.cl.write_all(d))?.map_err(|e| format!("writing {} bytes fails: {e}", d.len()))?;
        } else {
            // a write may take less than it was given, but says so
            let k = guarded(|| self.cl.write(d))?.map_err(|e| format!("writing {} bytes fails: {e}", d.len()))?;
            if k > d.len() || k == 0 && !d.is_empty() {
                return Err(format!("a write of {} bytes reports {k}", d.len()));
            }
            self.up.extend_from_slice(&d[..k]);
            return Ok(());
        }
        self.up.extend_from_slice(d);
        Ok(())
    }
    fn server_side(&mut self) -> R {
        guarded(|| self.cl.flush())?.map_err(|e| format!("flush fails: {e}"))?;
        let mut n = self.net.net();
        n.pump();
        if let Some(m) = n.peer.complaints.first() {
            return Err(format!("the server objects: {m}"));
        }
        if n.peer.app_in != self.up {
            let k = n.peer.app_in.iter().zip(&self.up).take_while(|(a, b)| a == b).count();
            return Err(format!("the server obtained {} bytes, the client wrote {}; they agree up to byte {k}", n.peer.app_in.len(), self.up.len()));
        }
        Ok(())
    }
}
fn start(cfg: &Cfg, entropy: u64) -> Result<Run, String> {
    let (net, cl) = open(cfg, entropy)?;
    Ok(Run { net, cl, up: vec![], down: vec![], got: 0, rest: vec![], rest_plain: vec![] })
}
fn finish(mut r: Run, end: u8) -> R {
    r.complete();
    r.server_side()?;
    if end == 0 {
        return r.drain(1000);
    }
    if end & 1 == 1 {
        let mut n = r.net.net();
        let a = n.peer.seal(21, (3, 3), &[1, 0], 0, false);
        n.s2c.extend(a);
    }
    if end > 2 {
        let mut v = Vec::new();
        let k = match end {
            5 => guarded(|| std::io::copy(&mut r.cl, &mut v))?.map(|k| k as usize),
            _ => guarded(|| r.cl.read_to_end(&mut v))?,
        };
        if v[..] != r.down[r.got..] {
            return Err(format!("reading to the end gives {} bytes, not the {} that the server sent", v.len(), r.avail()));
        }
        return match k {
            Ok(k) if k == v.len() => Ok(()),
            Ok(k) => Err(format!("reading to the end gives {} bytes and reports {k}", v.len())),
            Err(_) if end == 4 => Ok(()),
            Err(e) => Err(format!("reading to the end fails after close_notify: {e}")),
        };
    }
    r.drain(777)?;
    let mut buf = [0u8; 40];
    match guarded(|| r.cl.read(&mut buf))? {
        Ok(0) => Ok(()),
        Ok(k) => Err(format!("after all data and the end of the stream a read returns {k} invented bytes")),
        // the end of the transport without a closure alert may be an error
        Err(_) if end == 2 => Ok(()),
        Err(e) => Err(format!("a read after close_notify fails: {e}")),
    }
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let mut r = start(&c.cfg, c.entropy)?;
    {
        let mut n = r.net.net();
        n.rd = c.rd.clone();
        n.wr = c.wr.clone();
    }
    let (mut reads, mut sends, mut writes) = (0, 0, 0);
    let mut split = false;
    for o in &c.ops {
        match o {
            Op::Write(b, all) => {
                writes += 1;
                r.write(&b.expand(), *all)?;
            }
            Op::Flush => r.server_side()?,
            Op::Send(b) => {
                sends += 1;
                r.send(&b.expand())
            }
            Op::Burst(n, l) => {
                for i in 0..*n {
                    r.send(&vec![i as u8; *l as usize]);
                }
            }
            Op::Part(b, k) => {
                r.complete();
                let p = b.expand();
                let mut n = r.net.net();
                let rec = n.peer.seal(23, (3, 3), &p, 0, false);
                let k = pick(*k, rec.len());
                n.s2c.extend_from_slice(&rec[..k]);
                drop(n);
                r.rest = rec[k..].to_vec();
                r.rest_plain = p;
            }
            Op::Read(n) => {
                if r.avail() > 0 {
                    reads += 1;
                    split |= (*n as usize) < r.avail();
                }
                r.read(*n as usize)?;
            }
            Op::Drain(n) => r.drain(*n as usize)?,
            Op::Exact(n) => {
                let k = (*n as usize).min(r.avail());
                let mut buf = vec![0u8; k];
                guarded(|| r.cl.read_exact(&mut buf))?.map_err(|e| format!("read_exact of {k} waiting bytes fails: {e}"))?;
                if buf[..] != r.down[r.got..r.got + k] {
                    return Err(format!("read_exact of {k} bytes returned others than the server sent"));
                }
                r.got += k;
            }
            Op::VWrite(v) => {
                let v: Vec<Vec<u8>> = v.iter().map(|b| b.expand()).collect();
                let s: Vec<std::io::IoSlice> = v.iter().map(|b| std::io::IoSlice::new(b)).collect();
                let k = guarded(|| r.cl.write_vectored(&s))?.map_err(|e| format!("a vectored write fails: {e}"))?;
                let all = v.concat();
                if k > all.len() || k == 0 && !all.is_empty() {
                    return Err(format!("a vectored write of {} bytes reports {k}", all.len()));
                }
                r.up.extend_from_slice(&all[..k]);
            }
            Op::Fmt(v) => {
                guarded(|| write!(r.cl, "{v:?} {:>5}\n", v.len()))?.map_err(|e| format!("a formatted write fails: {e}"))?;
                r.up.extend(format!("{v:?} {:>5}\n", v.len()).bytes());
            }
            Op::VRead(v) => {
                let mut v: Vec<Vec<u8>> = v.iter().map(|n| vec![0; *n as usize]).collect();
                let n: usize = v.iter().map(|b| b.len()).sum();
                if r.avail() == 0 || n == 0 {
                    continue;
                }
                let mut s: Vec<std::io::IoSliceMut> = v.iter_mut().map(|b| std::io::IoSliceMut::new(b)).collect();
                let k = guarded(|| r.cl.read_vectored(&mut s))?.map_err(|e| format!("a vectored read fails: {e}"))?;
                let all = v.concat();
                if k == 0 || k > n || k > r.avail() || all[..k] != r.down[r.got..r.got + k] {
                    return Err(format!("a vectored read into {n} bytes with {} waiting returned {k} bytes that are not the next the server sent", r.avail()));
                }
                r.got += k;
            }
            Op::Take(n) => {
                let k = (*n as usize).min(r.avail());
                let mut v = Vec::new();
                guarded(|| (&mut r.cl).take(k as u64).read_to_end(&mut v))?.map_err(|e| format!("reading {k} waiting bytes fails: {e}"))?;
                if v[..] != r.down[r.got..r.got + k] {
                    return Err(format!("reading {k} waiting bytes to the end gives {} bytes, not those the server sent", v.len()));
                }
                r.got += k;
            }
            Op::Sip(n, l) => {
                for _ in 0..*n {
                    r.read(*l as usize)?;
                }
            }
        }
    }
    if reads > 0 && sends > 1 && writes > 0 {
        ctx.nt();
        ctx.label("writes, records and reads interleaved");
    }
    if split {
        ctx.label("read smaller than what waits");
    }
    finish(r, c.end)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Long {
    entropy: u64,
    up: u32,
    down: u32,
    len: u8,
    read: u32,
    /// records in flight between reads
    lag: u16,
}
fn long_strat() -> BoxedStrategy<Long> {
    let n = || prop_oneof![6 => 200u32..1200, 1 => 65_530u32..65_600];
    (any::<u64>(), n(), n(), 1u8..5, 1u32..2000, 1u16..300).prop_map(|(entropy, up, down, len, read, lag)| Long { entropy, up, down, len, read, lag }).boxed()
}
fn long(c: &Long, ctx: &mut Ctx) -> R {
    let mut r = start(&Cfg::plain(), c.entropy)?;
    ctx.nt();
    if c.up.max(c.down) > 65_000 {
        ctx.label("past 65536 records");
    }
    r.net.net().fuel = 10_000_000;
    for i in 0..c.up.max(c.down) {
        let d = (0..c.len).map(|k| (i as u8).wrapping_mul(31).wrapping_add(k)).collect::<Vec<u8>>();
        if i < c.up {
            r.write(&d, true)?;
        }
        if i < c.down {
            r.send(&d);
            if i % c.lag as u32 == 0 {
                r.drain(c.read as usize)?;
            }
        }
    }
    finish(r, 1)
}
/// Few but large single writes.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Big {
    entropy: u64,
    writes: Vec<(Blob, bool)>,
    wr: Vec<u16>,
}
fn big_strat() -> BoxedStrategy<Big> {
    let len = prop_oneof![
        4 => 50_000u32..400_000,
        // around multiples of the record length and powers of two
        3 => (1u32..64, -3i32..=3).prop_map(|(k, d)| (16384 * k as i32 + d) as u32),
        1 => (17u32..22, -3i32..=3).prop_map(|(k, d)| ((1 << k) + d) as u32),
        1 => 1_000_000u32..5_000_000,
        1 => (-3i32..20_000).prop_map(|d| ((1 << 24) + d) as u32),
    ]
    .boxed();
    let w = prop_oneof![3 => (blob(len), any::<bool>()), 1 => (blob((0u32..2000).boxed()), any::<bool>())];
    let wr = prop_oneof![3 => Just(vec![]), 1 => vec(1000u16..60000, 1..4usize)];
    (any::<u64>(), vec(w, 1..4usize), wr).prop_map(|(entropy, writes, wr)| Big { entropy, writes, wr }).boxed()
}
fn big(c: &Big, ctx: &mut Ctx) -> R {
    let mut r = start(&Cfg::plain(), c.entropy)?;
    {
        let mut n = r.net.net();
        n.wr = c.wr.clone();
        n.fuel = 10_000_000;
    }
    for (b, all) in &c.writes {
        if b.len > 131_072 {
            ctx.nt();
        }
        r.write(&b.expand(), *all)?;
    }
    finish(r, 0)
}
/// The public entry for real sockets, over the loopback interface.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Tcp {
    cfg: Cfg,
    entropy: u64,
    up: Vec<(Blob, bool)>,
    down: Vec<Blob>,
    /// bytes per call of the server's socket
    chunks: Vec<u16>,
    read: u32,
    /// 0 the server closes, 1 its socket just ends, 2 the client closes
    end: u8,
    twice: bool,
}
fn tcp_strat() -> BoxedStrategy<Tcp> {
    let ch = prop_oneof![2 => Just(vec![]), 1 => vec(1u16..40, 1..4usize), 2 => vec(20u16..3000, 1..4usize)];
    (small_cfg(), any::<u64>(), vec((blob(wlen()), any::<bool>()), 0..5usize), vec(blob(reclen()), 0..5usize), ch, prop_oneof![2 => 1u32..60, 2 => 50u32..3000, 1 => Just(40_000u32)], 0u8..3, any::<bool>())
        .prop_map(|(cfg, entropy, up, down, chunks, read, end, twice)| Tcp { cfg, entropy, up, down, chunks, read, end, twice })
        .boxed()
}
impl Tcp {
    /// A client that closes has read everything, or its socket would reset the connection.
    fn records(&self) -> Vec<Vec<u8>> {
        let mut v = self.down.iter().map(|b| b.expand()).collect::<Vec<_>>();
        if self.end == 2 && v.last().map_or(false, |d| d.is_empty()) {
            v.push(vec![7]);
        }
        v
    }
}
struct Served {
    app_in: Vec<u8>,
    complaints: Vec<String>,
    opened: bool,
}
fn serve(l: std::net::TcpListener, c: Tcp) -> std::io::Result<Served> {
    let wait = std::time::Duration::from_secs(100);
    let (mut s, _) = l.accept()?;
    drop(l);
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(wait))?;
    s.set_write_timeout(Some(wait))?;
    let mut srv = Server::new(c.cfg.clone());
    let (mut inb, mut sent, mut i) = (Vec::new(), false, 0);
    let mut step = |max: usize| {
        i += 1;
        if c.chunks.is_empty() { max } else { (c.chunks[i % c.chunks.len()] as usize).max(max / 400).clamp(1, max) }
    };
    loop {
        let mut out = Vec::new();
        srv.pump(&inb, &mut out);
        if srv.st == St::Open && !sent {
            for d in c.records() {
                let r = srv.seal(23, (3, 3), &d, 0, false);
                out.extend(r);
            }
            if c.end == 0 {
                let a = srv.seal(21, (3, 3), &[1, 0], 0, false);
                out.extend(a);
            }
        }
        let mut rest = &out[..];
        while !rest.is_empty() {
            let k = step(rest.len());
            s.write_all(&rest[..k])?;
            rest = &rest[k..];
        }
        if srv.st == St::Open && !sent {
            sent = true;
            if c.end < 2 {
                s.shutdown(std::net::Shutdown::Write)?;
            }
        }
        let mut b = vec![0u8; step(20_000)];
        let n = s.read(&mut b)?;
        if n == 0 {
            break;
        }
        inb.extend_from_slice(&b[..n]);
    }
    Ok(Served { opened: srv.st == St::Open || sent, app_in: srv.app_in, complaints: srv.complaints })
}
fn tcp(c: &Tcp, ctx: &mut Ctx) -> R {
    let l = match std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr().map(|a| (l, a))) {
        Ok(l) => l,
        Err(_) => {
            ctx.label("no loopback interface: not run");
            return Ok(());
        }
    };
    let cc = c.clone();
    let (l, addr) = l;
    let Ok(sock) = std::net::TcpStream::connect(addr) else {
        ctx.label("no loopback interface: not run");
        return Ok(());
    };
    let th = std::thread::spawn(move || serve(l, cc));
    let _ = sock.set_nodelay(true);
    let _ = sock.set_read_timeout(Some(std::time::Duration::from_secs(100)));
    let _ = sock.set_write_timeout(Some(std::time::Duration::from_secs(100)));
    getrandom::set_entropy(&[], c.entropy);
    let r = tcp_client(c, sock);
    let served = th.join().map_err(|_| "the test server failed".to_string())?;
    r?;
    let served = served.map_err(|e| format!("the server's socket failed: {e}"))?;
    if let Some(m) = served.complaints.first() {
        return Err(format!("the server objects: {m}"));
    }
    if !served.opened {
        return Err("the client reports a connection the server does not have".into());
    }
    let up = c.up.iter().flat_map(|(b, _)| b.expand()).collect::<Vec<u8>>();
    if served.app_in != up {
        let k = served.app_in.iter().zip(&up).take_while(|(a, b)| a == b).count();
        return Err(format!("over TCP the server obtained {} bytes, the client wrote {}; they agree up to byte {k}", served.app_in.len(), up.len()));
    }
    if !c.up.is_empty() && !c.down.is_empty() {
        ctx.nt();
    }
    Ok(())
}
fn tcp_client(c: &Tcp, sock: std::net::TcpStream) -> R {
    let mut cl = guarded(|| husk::TlsClient::from_tcp(sock))?.map_err(|e| format!("handshake over TCP with a conforming server failed: {e:?}"))?;
    for (b, all) in &c.up {
        let d = b.expand();
        let mut rest = &d[..];
        while !rest.is_empty() {
            if *all {
                guarded(|| cl.write_all(rest))?.map_err(|e| format!("write_all over TCP fails: {e}"))?;
                break;
            }
            let k = guarded(|| cl.write(rest))?.map_err(|e| format!("a write over TCP fails: {e}"))?;
            if k == 0 || k > rest.len() {
                return Err(format!("a write of {} bytes reports {k}", rest.len()));
            }
            rest = &rest[k..];
        }
        if c.twice {
            guarded(|| cl.flush())?.map_err(|e| format!("flush over TCP fails: {e}"))?;
        }
    }
    guarded(|| cl.flush())?.map_err(|e| format!("flush over TCP fails: {e}"))?;
    let down = c.records().concat();
    let mut got = Vec::new();
    let mut buf = vec![0u8; c.read as usize];
    while got.len() < down.len() {
        let k = guarded(|| cl.read(&mut buf))?.map_err(|e| format!("a read over TCP fails after {} of {} bytes: {e}", got.len(), down.len()))?;
        if k == 0 {
            return Err(format!("a read over TCP reports the end of the stream after {} of {} bytes", got.len(), down.len()));
        }
        got.extend_from_slice(&buf[..k.min(buf.len())]);
    }
    if got != down {
        let k = got.iter().zip(&down).take_while(|(a, b)| a == b).count();
        return Err(format!("over TCP the client read {} bytes, the server sent {}; they agree up to byte {k}", got.len(), down.len()));
    }
    if c.end == 2 {
        return guarded(|| cl.close())?.map_err(|e| format!("closing over TCP fails: {e:?}"));
    }
    match guarded(|| cl.read(&mut buf))? {
        Ok(0) => Ok(()),
        Ok(k) => Err(format!("after all data and the end of the stream a read returns {k} invented bytes")),
        Err(_) if c.end == 1 => Ok(()),
        Err(e) => Err(format!("a read after close_notify fails: {e}")),
    }
}
fn main() {
    hv::fw::main(Property {
        id: "C18",
        assumptions: &["the peer is the reference server, which decrypts and encrypts with the reference AEAD", "a read when nothing has arrived would wait and is not issued"],
        facets: vec![
            facet(Facet {
                name: "history",
                rule: "1..23 operations: writes of 0..70000 bytes, flushes, server records of 0..16384 bytes singly, in bursts or arriving in part, reads, read_exact, drains, vectored and formatted writes, vectored and limited reads with buffers of 0..40000 bytes, some of multiples of 65536 or above 2^24, over transports that move any number of bytes per call; ended by nothing, close_notify or the end of the transport; non-trivial: at least one write, two records and one read with data waiting",
                quick: 18_000,
                thorough: 1_200_000,
                shrink: 400,
                strategy: strat,
                check,
            }),
            facet(Facet {
                name: "big",
                rule: "1..3 single writes of up to 17 MB (mostly 50..400 KB and near multiples of 16384 and powers of two); non-trivial: a write above 128 KiB",
                quick: 240,
                thorough: 12_000,
                shrink: 200,
                strategy: big_strat,
                check: big,
            }),
            facet(Facet {
                name: "tcp",
                rule: "connections made with from_tcp over loopback sockets to the reference server in a thread of its own: 0..4 writes, 0..4 records, any read length, socket calls of any size on the server's side, ended by the server, its socket or the client; non-trivial: data in both directions",
                quick: 900,
                thorough: 40_000,
                shrink: 60,
                strategy: tcp_strat,
                check: tcp,
            }),
            facet(Facet {
                name: "long",
                rule: "200..1200 (sometimes past 65536) records in each direction on one connection; every case counts",
                quick: 64,
                thorough: 3_000,
                shrink: 100,
                strategy: long_strat,
                check: long,
            }),
        ],
    })
}
