use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::TlsReader;
use husk::tls_result::{TlsError, TlsErrorKind};
use hv::devs::*;
use hv::fw::*;
use hv::gen::*;
use hv::mem::measured;
use hv::net::*;
use hv::refr;
use hv::server::*;
use hv::wgen::*;
use hv::wire::{self, Msg};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[global_allocator]
static ALLOC: hv::mem::Counting = hv::mem::Counting;

/// What may be held at once after `got` bytes have arrived and `asked` bytes were handed in.
fn allowed(got: usize, asked: usize) -> u64 {
    (256 << 10) + 64 * got as u64 + 8 * asked as u64
}
fn within(peak: u64, got: usize, asked: usize) -> R {
    if peak > allowed(got, asked) {
        return Err(format!("{peak} bytes were held at once after {got} bytes had arrived (and {asked} were handed in or asked for)"));
    }
    Ok(())
}

// ------------------------------------------------------------------------- during the handshake

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Chunk {
    Raw(Hex),
    /// type, version, announced length, content
    Record(u8, u8, u8, u16, Blob),
    /// a record holding a handshake header with an announced length and some content
    Header(u8, u32, Blob),
    Msg(Msg),
    Flight(Vec<Edit>),
    Big(u8, Blob),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Raw {
    chunks: Vec<Chunk>,
    rd: Vec<u16>,
    cfg: Cfg,
    entropy: u64,
}
fn chunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        3 => bytes(0..60usize).prop_map(Chunk::Raw),
        4 => (ctype(), prop_oneof![4 => Just(3u8), 1 => any::<u8>()], 0u8..5, prop_oneof![2 => any::<u16>(), 1 => 0u16..40, 1 => 16380u16..18450], blob((0u32..80).boxed())).prop_map(|(a, b, c, d, e)| Chunk::Record(a, b, c, d, e)),
        4 => (prop_oneof![3 => proptest::sample::select(&[0u8, 1, 2, 11, 12, 13, 14, 16, 20][..]), 1 => any::<u8>()], prop_oneof![2 => any::<u32>(), 1 => 0u32..80, 1 => 0xff_fff0u32..=0xff_ffff], blob((0u32..80).boxed())).prop_map(|(a, b, c)| Chunk::Header(a, b, c)),
        4 => msg_strat(true).prop_map(Chunk::Msg),
        6 => edits().prop_map(Chunk::Flight),
        1 => (proptest::sample::select(&[2u8, 11, 12, 13, 20][..]), blob(prop_oneof![3 => 0u32..4000, 1 => 0u32..200_000].boxed())).prop_map(|(a, b)| Chunk::Big(a, b)),
    ]
    .boxed()
}
fn raw_strat() -> BoxedStrategy<Raw> {
    let rd = prop_oneof![3 => Just(vec![]), 1 => vec(1u16..9, 1..4usize)];
    (vec(chunk(), 1..5usize), rd, small_cfg(), any::<u64>()).prop_map(|(chunks, rd, cfg, entropy)| Raw { chunks, rd, cfg, entropy }).boxed()
}
fn lay(c: &[Chunk], cfg: &Cfg) -> Vec<u8> {
    let mut out = Vec::new();
    for c in c {
        match c {
            Chunk::Raw(h) => out.extend_from_slice(h),
            Chunk::Record(t, a, b, l, d) => {
                out.extend_from_slice(&[*t, *a, *b, (*l >> 8) as u8, *l as u8]);
                out.extend(d.expand());
            }
            Chunk::Header(t, l, d) => {
                let mut m = vec![*t];
                m.extend_from_slice(&wire::u24v((*l & 0xff_ffff) as usize));
                m.extend(d.expand());
                out.extend(wire::record(22, (3, 3), &m));
            }
            Chunk::Msg(m) => {
                for p in wire::msg(m).chunks(16384) {
                    out.extend(wire::record(22, (3, 3), p));
                }
            }
            Chunk::Flight(e) => {
                let mut v: Vec<u8> = cfg.flight1().into_iter().flat_map(|i| wire::record(22, (3, 3), &i.data)).collect();
                apply(e, &mut v);
                out.extend(v);
            }
            Chunk::Big(t, b) => {
                for p in wire::frame(*t, &b.expand()).chunks(16384) {
                    out.extend(wire::record(22, (3, 3), p));
                }
            }
        }
    }
    out
}
struct Canned(Option<Vec<u8>>);
impl Peer for Canned {
    fn pump(&mut self, _: &[u8], out: &mut Vec<u8>) {
        if let Some(b) = self.0.take() {
            out.extend(b);
        }
    }
}
fn raw(c: &Raw, ctx: &mut Ctx) -> R {
    let bytes = lay(&c.chunks, &c.cfg);
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Canned(Some(bytes)));
    net.net().rd = c.rd.clone();
    let (r, peak) = measured(|| guarded(|| husk::TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng).is_ok()));
    let got = net.net().rpos;
    let ok = r?;
    if got >= 5 {
        ctx.nt();
    }
    ctx.label(if ok { "succeeded" } else { "failed" });
    within(peak, got, 0)
}
fn devs(c: &Scenario, ctx: &mut Ctx) -> R {
    let (r, peak) = measured(|| {
        let _p = hv::mem::pause();
        getrandom::set_entropy(&[], c.entropy);
        let net = Net::new(Server::new(c.cfg.clone()));
        {
            let mut n = net.net();
            n.rd = c.rd.clone();
            n.peer.devs = c.devs.clone();
            n.peer.mitm = c.mitm;
            n.peer.strict = c.strict;
        }
        drop(_p);
        connect(&net).map(|r| (r, net))
    });
    let (r, net) = r?;
    let got = net.net().rpos;
    if !c.devs.is_empty() {
        ctx.nt();
    }
    ctx.label(if r.is_ok() { "succeeded" } else { "failed" });
    within(peak, got, 0)
}

// ------------------------------------------------------------------------------ after the handshake

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Hostile {
    /// correctly sealed record of any type, version and content
    Sealed(u8, (u8, u8), Blob),
    Message(u8, Hex),
    Msg(Msg),
    Header(u8, u32, Blob),
    Clear(u8, Blob),
    Raw(Hex),
    Lie(u8, u16),
    Tampered(Blob, u32),
    BadSeq(Blob, i8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Call {
    Server(Hostile),
    Read(u32),
    Write(Blob),
    Flush,
    Close,
    SendAlert(u8),
    ReadMessage,
    ReadHandshake,
    ReadCcs,
    ReadApp,
}
fn hostile() -> BoxedStrategy<Hostile> {
    let ver = || prop_oneof![6 => Just((3u8, 3u8)), 1 => (any::<u8>(), any::<u8>())];
    let len = || prop_oneof![1 => Just(0u32), 6 => 1u32..50, 1 => 16380u32..16390, 1 => 18410u32..18420, 1 => 0u32..65520];
    prop_oneof![
        6 => (ctype(), ver(), blob(len().boxed())).prop_map(|(a, b, c)| Hostile::Sealed(a, b, c)),
        6 => spare_record().prop_map(|(a, b)| Hostile::Message(a, b)),
        3 => msg_strat(true).prop_map(Hostile::Msg),
        2 => (any::<u8>(), any::<u32>(), blob((0u32..80).boxed())).prop_map(|(a, b, c)| Hostile::Header(a, b, c)),
        1 => (ctype(), blob(len().boxed())).prop_map(|(a, b)| Hostile::Clear(a, b)),
        1 => bytes(0..40usize).prop_map(Hostile::Raw),
        1 => (ctype(), any::<u16>()).prop_map(|(a, b)| Hostile::Lie(a, b)),
        1 => (blob((0u32..50).boxed()), any::<u32>()).prop_map(|(a, b)| Hostile::Tampered(a, b)),
        1 => (blob((0u32..50).boxed()), any::<i8>()).prop_map(|(a, b)| Hostile::BadSeq(a, b)),
    ]
    .boxed()
}
fn call() -> BoxedStrategy<Call> {
    prop_oneof![
        9 => hostile().prop_map(Call::Server),
        6 => prop_oneof![4 => 0u32..70, 1 => 0u32..40_000].prop_map(Call::Read),
        2 => blob(prop_oneof![4 => 0u32..60, 1 => 0u32..20_000].boxed()).prop_map(Call::Write),
        1 => Just(Call::Flush),
        1 => Just(Call::Close),
        1 => (0u8..9).prop_map(Call::SendAlert),
        1 => Just(Call::ReadMessage),
        1 => Just(Call::ReadHandshake),
        1 => Just(Call::ReadCcs),
        1 => Just(Call::ReadApp),
    ]
    .boxed()
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Open {
    entropy: u64,
    calls: Vec<Call>,
    rd: Vec<u16>,
}
fn open_strat() -> BoxedStrategy<Open> {
    let rd = prop_oneof![3 => Just(vec![]), 1 => vec(1u16..9, 1..4usize)];
    (any::<u64>(), vec(call(), 2..14usize), rd).prop_map(|(entropy, calls, rd)| Open { entropy, calls, rd }).boxed()
}
fn item(h: &Hostile) -> Item {
    match h {
        Hostile::Sealed(t, v, b) => Item { alone: true, ver: *v, ..Item::sealed(*t, b.expand()) },
        Hostile::Message(t, d) => Item { alone: true, ..Item::sealed(*t, d.0.clone()) },
        Hostile::Msg(m) => Item::sealed(22, wire::msg(m)),
        Hostile::Header(t, l, b) => {
            let mut m = vec![*t];
            m.extend_from_slice(&wire::u24v((*l & 0xff_ffff) as usize));
            m.extend(b.expand());
            Item { alone: true, ..Item::sealed(22, m) }
        }
        Hostile::Clear(t, b) => Item { alone: true, ..Item::clear(*t, b.expand()) },
        Hostile::Raw(h) => Item { raw: true, ..Item::clear(0, h.0.clone()) },
        Hostile::Lie(t, n) => Item { raw: true, ..Item::clear(0, vec![*t, 3, 3, (*n >> 8) as u8, *n as u8, 1, 2, 3]) },
        Hostile::Tampered(b, k) => Item { alone: true, tamper: vec![*k], ..Item::sealed(23, b.expand()) },
        Hostile::BadSeq(b, d) => Item { alone: true, seq_delta: *d, ..Item::sealed(23, b.expand()) },
    }
}
fn opened(c: &Open, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    net.net().rd = c.rd.clone();
    let base = net.net().rpos;
    let mut asked = 0usize;
    let mut acts = 0;
    for k in &c.calls {
        let mut buf = Vec::new();
        let mut data = Vec::new();
        match k {
            Call::Server(h) => {
                if !matches!(h, Hostile::Raw(_)) {
                    acts += 1;
                }
                net.net().peer.queue.push(item(h));
                continue;
            }
            Call::Read(n) => buf = vec![0u8; *n as usize],
            Call::Write(b) => data = b.expand(),
            _ => {}
        }
        asked += buf.len() + data.len();
        let (r, peak) = measured(|| {
            guarded(|| match k {
                Call::Read(_) => match cl.read(&mut buf) {
                    Ok(n) if n > buf.len() => Err(format!("a read into {} bytes reports {n}", buf.len())),
                    _ => Ok(()),
                },
                Call::Write(_) => {
                    let _ = cl.write(&data);
                    Ok(())
                }
                Call::Flush => {
                    let _ = cl.flush();
                    Ok(())
                }
                Call::Close => {
                    let _ = cl.close();
                    Ok(())
                }
                Call::SendAlert(a) => {
                    use TlsErrorKind::*;
                    let kind = [UnexpectedMessage, BadRecordMac, RecordOverflow, IllegalParameter, DecodeError, DecryptError, InternalError, IoFailure, AlertReceived][*a as usize % 9];
                    let _ = cl.send_tls_alert(TlsError { kind, desc: String::new() });
                    Ok(())
                }
                Call::ReadMessage => {
                    let _ = cl.reader.read_message();
                    Ok(())
                }
                Call::ReadHandshake => {
                    let _ = cl.reader.read_handshake();
                    Ok(())
                }
                Call::ReadCcs => {
                    let _ = cl.reader.read_change_cipher_spec();
                    Ok(())
                }
                Call::ReadApp => {
                    let _ = cl.reader.read_application_data();
                    Ok(())
                }
                Call::Server(_) => Ok(()),
            })
        });
        let got = net.net().rpos - base;
        r.map_err(|e| format!("{k:?}: {e}"))?.map_err(|e| format!("{k:?}: {e}"))?;
        within(peak, got, asked)?;
    }
    if acts > 0 && net.net().rpos > base {
        ctx.nt();
    }
    let (r, _) = measured(|| guarded(move || drop(cl)));
    r
}

// ------------------------------------------------------------------------------- the reader alone

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Reader {
    enc: bool,
    items: Vec<Hostile>,
    tail: Hex,
    calls: Vec<u8>,
    rd: Vec<u16>,
}
fn reader_strat() -> BoxedStrategy<Reader> {
    let rd = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..4usize)];
    (any::<bool>(), vec(hostile(), 0..7usize), bytes(0..30usize), vec(0u8..4, 1..12usize), rd)
        .prop_map(|(enc, items, tail, calls, rd)| Reader { enc, items, tail, calls, rd })
        .boxed()
}
fn reader(c: &Reader, ctx: &mut Ctx) -> R {
    let (key, iv) = ([3u8; 32], [5u8; 12]);
    let net = Net::new(NoPeer);
    let mut seq = 0u64;
    {
        let mut n = net.net();
        n.rd = c.rd.clone();
        for h in &c.items {
            let it = item(h);
            if it.raw {
                n.s2c.extend_from_slice(&it.data);
                continue;
            }
            for p in if it.alone || it.data.is_empty() { vec![&it.data[..]] } else { it.data.chunks(16384).collect() } {
                if c.enc && it.enc {
                    let r = refr::tls_record(&key, &iv, seq.wrapping_add(it.seq_delta as i64 as u64), it.ty, it.ver, p);
                    n.s2c.extend(r);
                    seq += 1;
                } else {
                    let r = wire::record(it.ty, it.ver, p);
                    n.s2c.extend(r);
                }
            }
        }
        n.s2c.extend_from_slice(&c.tail);
    }
    let mut rd = TlsReader::new(net.reader());
    if c.enc {
        rd.set_iv(iv.to_vec());
        rd.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    }
    for k in &c.calls {
        let before = net.net().rpos;
        let (r, peak) = measured(|| {
            guarded(|| match k {
                0 => rd.read_message().is_ok(),
                1 => rd.read_handshake().is_ok(),
                2 => rd.read_change_cipher_spec().is_ok(),
                // reading data before encryption is a caller's mistake and panics by design
                _ if c.enc => rd.read_application_data().is_ok(),
                _ => false,
            })
        });
        r?;
        let n = net.net();
        within(peak, n.rpos, 0)?;
        if n.rpos > before {
            ctx.nt();
        }
    }
    Ok(())
}
// ------------------------------------------------------------------------------------- long runs

/// Very many records that carry little or nothing: what is done per record must not pile up.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Runs {
    entropy: u64,
    /// records, content length
    parts: Vec<(u32, u8)>,
    last: Blob,
    read: u32,
    /// the certificate message in the handshake, in records of this many bytes
    cert: u32,
    piece: u16,
    end: u8,
    /// very many of one other kind of record: kind, how many, before which message of the flight
    #[serde(default)]
    flood: (u8, u32, u8),
}
fn flood(kind: u8) -> (u8, &'static [u8]) {
    match kind % 11 {
        1 => (22, &[]),
        2 => (22, &[0, 0, 0, 0]),
        3 => (20, &[1]),
        4 => (21, &[1, 90]),
        5 => (21, &[]),
        6 => (24, &[]),
        7 => (22, &[14, 0, 0, 0]),
        8 => (23, &[1]),
        9 => (21, &[1, 0]),
        10 => (20, &[]),
        _ => (23, &[]),
    }
}
fn runs_strat() -> BoxedStrategy<Runs> {
    let n = prop_oneof![3 => 20_000u32..60_000, 1 => 1u32..2000];
    (any::<u64>(), vec((n, prop_oneof![4 => Just(0u8), 1 => 1u8..3]), 1..3usize), blob((0u32..50).boxed()), 1u32..3000, prop_oneof![1 => 0u32..200, 1 => 0u32..40_000], 1u16..8, any::<u8>(), (0u8..11, 20_000u32..60_000, 0u8..5))
        .prop_map(|(entropy, parts, last, read, cert, piece, end, flood)| Runs { entropy, parts, last, read, cert, piece, end, flood })
        .boxed()
}
fn runs(c: &Runs, ctx: &mut Ctx) -> R {
    let mut cfg = Cfg::plain();
    cfg.certs = vec![Blob { len: c.cert, kind: 4, seed: 1 }];
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Canned(None));
    // a handshake that ends early, in very small records
    let mut bytes = Vec::new();
    let (ty, content) = flood(c.flood.0);
    for (k, i) in cfg.flight1().into_iter().chain([Item::clear(22, vec![])]).enumerate() {
        if k == c.flood.2 as usize % 5 {
            for _ in 0..c.flood.1 {
                bytes.extend(wire::record(ty, (3, 3), content));
            }
        }
        for p in i.data.chunks(c.piece.max(1) as usize) {
            bytes.extend(wire::record(22, (3, 3), p));
        }
    }
    net.net().peer.0 = Some(bytes);
    net.net().fuel = 30_000_000;
    let (r, peak) = measured(|| guarded(|| husk::TlsClient::new(net.reader(), net.writer(), rand::rngs::OsRng).is_ok()));
    r?;
    within(peak, net.net().rpos, 0)?;

    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    let base = net.net().rpos;
    let mut want = Vec::new();
    {
        let mut n = net.net();
        n.fuel = 30_000_000;
        let mut out = Vec::new();
        for (k, l) in &c.parts {
            for i in 0..*k {
                let d = vec![i as u8; *l as usize];
                out.extend(n.peer.seal(23, (3, 3), &d, 0, false));
                want.extend(d);
            }
        }
        let d = c.last.expand();
        out.extend(n.peer.seal(23, (3, 3), &d, 0, false));
        want.extend(d);
        if ty != 23 {
            for _ in 0..c.flood.1 {
                out.extend(n.peer.seal(ty, (3, 3), content, 0, false));
            }
        }
        match c.end % 4 {
            0 => out.extend(n.peer.seal(21, (3, 3), &[1, 0], 0, false)),
            1 => out.extend(n.peer.seal(21, (3, 3), &[1, 90], 0, false)),
            2 => out.extend(n.peer.seal(20, (3, 3), &[1], 0, false)),
            _ => {}
        }
        n.s2c.extend(out);
    }
    let mut got = Vec::new();
    let mut buf = vec![0u8; c.read as usize];
    loop {
        let (r, peak) = measured(|| guarded(|| cl.read(&mut buf)));
        within(peak, net.net().rpos - base, buf.len())?;
        match r? {
            Ok(0) | Err(_) => break,
            Ok(k) => got.extend_from_slice(&buf[..k.min(buf.len())]),
        }
    }
    if got != want {
        return Err(format!("{} bytes were read of the {} sent in a long run of records", got.len(), want.len()));
    }
    if c.parts.iter().map(|p| p.0).sum::<u32>() > 10_000 {
        ctx.nt();
    }
    Ok(())
}
/// The same, by a build in which recursion stays recursion.
fn runs_plain(c: &Runs, ctx: &mut Ctx) -> R {
    let Some(exe) = std::env::var_os("HV_PLAIN") else {
        ctx.label("there is no unoptimised build: not run");
        return Ok(());
    };
    ctx.nt();
    let (code, out) = replay_by(std::path::Path::new(&exe), "C20", "runs", c)?;
    match code {
        Some(0) => Ok(()),
        Some(1) => Err(format!("without optimisation: {}", out.lines().next().unwrap_or(""))),
        _ => panic!("the unoptimised build ends with {code:?}: {out}"),
    }
}
fn main() {
    hv::fw::main(Property {
        id: "C20",
        assumptions: &[
            "built with overflow checks and debug assertions on, so arithmetic overflow counts as a panic",
            "memory: at most 256 kB + 64 times the bytes that have arrived + 8 times what the caller handed in may be held at once",
            "spinning: 3 million transport calls, 20000 reads past the end of the stream, or 90 s of processor time in one case",
            "asking a TlsReader for application data before decryption is on is a caller's mistake and panics by design",
        ],
        facets: vec![
            facet(Facet {
                name: "raw",
                rule: "up to 4 chunks sent in answer to the client hello: random bytes, records with any type and announced length, handshake headers announcing up to 16 MB, any message, edited conforming flights, large messages; non-trivial: at least a record header was read",
                quick: 60_000,
                thorough: 12_000_000,
                shrink: 1000,
                strategy: raw_strat,
                check: raw,
            }),
            facet(Facet {
                name: "handshake",
                rule: "handshakes with 0..3 deviations as for C17, sealed ones included; non-trivial: there is a deviation",
                quick: 6_000,
                thorough: 600_000,
                shrink: 300,
                strategy: scenario,
                check: devs,
            }),
            facet(Facet {
                name: "open",
                rule: "2..13 steps on an established connection: the key-holding server sends any record (any type, version, size, message, tampered, out of sequence, clear, raw), the caller reads, writes, flushes, closes, sends alerts or uses the reader directly; non-trivial: hostile bytes were read",
                quick: 10_000,
                thorough: 1_000_000,
                shrink: 500,
                strategy: open_strat,
                check: opened,
            }),
            facet(Facet {
                name: "runs",
                rule: "a first flight in records of 1..7 bytes, then up to 120000 records of 0..2 bytes in a row on an established connection, then data, then the end; up to 60000 records of another kind (empty, alerts, hello requests, change cipher specs, ...) at any place of the handshake and after the data; non-trivial: more than 10000 records",
                quick: 64,
                thorough: 6_000,
                shrink: 60,
                strategy: runs_strat,
                check: runs,
            }),
            facet(Facet {
                name: "runs-unoptimised",
                rule: "as runs, by a build without optimisation, where a recursive call takes stack space; every case counts",
                quick: 16,
                thorough: 1_000,
                shrink: 0,
                strategy: runs_strat,
                check: runs_plain,
            }),
            facet(Facet {
                name: "reader",
                rule: "the same records through TlsReader alone, clear or protected; non-trivial: a call consumed bytes",
                quick: 150_000,
                thorough: 15_000_000,
                shrink: 1000,
                strategy: reader_strat,
                check: reader,
            }),
        ],
    })
}
