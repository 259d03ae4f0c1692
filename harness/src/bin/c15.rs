use husk::alert::{Alert, AlertDescription, AlertLevel};
use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
use husk::tls::{ContentType, TlsWriter};
use husk::tls_result::{TlsError, TlsErrorKind};
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::server::*;
use hv::wire;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;

/// What reached the transport under one key: which plaintexts under which sequence numbers.
struct Book<'a> {
    key: &'a [u8],
    iv: &'a [u8],
    first: u64,
    attempts: u64,
    seen: BTreeMap<u64, Vec<u8>>,
    last_whole: Option<u64>,
    partial: u64,
    whole: u64,
}
impl<'a> Book<'a> {
    fn new(key: &'a [u8], iv: &'a [u8], first: u64) -> Book<'a> {
        Book { key, iv, first, attempts: 0, seen: BTreeMap::new(), last_whole: None, partial: 0, whole: 0 }
    }
    fn mark(&mut self, seq: u64, plain: &[u8]) -> R {
        match self.seen.get(&seq) {
            Some(p) if p != plain => Err(format!("sequence number {seq} sealed two plaintexts that both reached the transport: {} and {} bytes ({} / {})", p.len(), plain.len(), hex(&p[..p.len().min(8)]), hex(&plain[..plain.len().min(8)]))),
            _ => {
                self.seen.insert(seq, plain.to_vec());
                Ok(())
            }
        }
    }
    /// Account for the bytes one operation put on the transport; `sent` is what it was asked to
    /// send, as (type, plaintext). Alerts are always possible.
    fn account(&mut self, d: &[u8], sent: &[(u8, &[u8])]) -> R {
        self.attempts += sent.len() as u64 + 1;
        let mut alerts: Vec<(u8, Vec<u8>)> = Vec::new();
        for l in 1..=2u8 {
            for a in wire::KNOWN_ALERTS {
                alerts.push((21, vec![l, *a]));
            }
        }
        let mut at = 0;
        while d.len() - at >= 11 {
            let rest = &d[at..];
            let len = (rest[3] as usize) << 8 | rest[4] as usize;
            // whole record under some sequence number?
            let mut best: (usize, u64, &[u8], usize) = (0, 0, &[], 0);
            let cands = sent.iter().map(|(t, p)| (*t, *p)).chain(alerts.iter().map(|(t, p)| (*t, &p[..])));
            for (t, p) in cands {
                if t != rest[0] || p.len() + 16 != len {
                    continue;
                }
                for k in 0..=self.attempts + 2 {
                    // candidates before the first number and up to what could have been used
                    let seq = self.first.wrapping_add(k).wrapping_sub(2);
                    let r = refr::tls_record(self.key, self.iv, seq, t, (rest[1], rest[2]), p);
                    let common = r.iter().zip(rest).take_while(|(a, b)| a == b).count();
                    if common > best.0 {
                        best = (common, seq, p, r.len());
                    }
                }
            }
            let (common, seq, p, full) = best;
            if common < 11 {
                return Ok(()); // too little to tell, or not a record of ours (other properties)
            }
            let p = p.to_vec();
            self.mark(seq, &p)?;
            if common == full {
                if let Some(l) = self.last_whole {
                    if seq <= l {
                        return Err(format!("a complete record carries sequence number {seq} after {l}"));
                    }
                }
                self.last_whole = Some(seq);
                self.whole += 1;
            } else {
                self.partial += 1;
            }
            at += common;
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum A {
    Data(Blob),
    /// the last data again, as a caller that retries does
    Again,
    /// what is left of the last data after n bytes
    Rest(u16),
    Alert(u8),
    Close,
    Flush,
    Ccs,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Step {
    a: A,
    /// after this many more bytes
    fault: Option<(u32, Fault)>,
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
    start: u64,
    key: Hex,
    iv: Hex,
    wr: Vec<u16>,
    entropy: u64,
}
fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![4 => (0u8..8).prop_map(Fault::Once), 1 => (0u8..8).prop_map(Fault::Dead), 2 => Just(Fault::Zero)].boxed()
}
fn step() -> BoxedStrategy<Step> {
    let len = prop_oneof![10 => 6u32..60, 2 => 0u32..6, 3 => 60u32..600, 1 => 16380u32..16400, 1 => 16_000u32..40_000];
    let a = prop_oneof![
        8 => blob(len.boxed()).prop_map(A::Data),
        4 => Just(A::Again),
        2 => any::<u16>().prop_map(A::Rest),
        2 => any::<u8>().prop_map(A::Alert),
        1 => Just(A::Close),
        1 => Just(A::Flush),
        1 => Just(A::Ccs),
    ];
    let off = prop_oneof![6 => 0u32..90, 2 => 0u32..700, 1 => 16_380u32..16_440, 1 => 0u32..40_000];
    (a, proptest::option::weighted(0.5, (off, fault()))).prop_map(|(a, fault)| Step { a, fault }).boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let wr = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..5usize), 1 => vec(1u16..300, 1..4usize)];
    let start = prop_oneof![4 => Just(0u64), 1 => (0u32..63).prop_map(|k| (1u64 << k) - 1), 1 => any::<u64>().prop_map(|x| x.min(u64::MAX - 1000))];
    let start = hv::lits::spice(start.boxed());
    (vec(step(), 2..12usize), start, bytes(32), bytes(12), wr, any::<u64>()).prop_map(|(steps, start, key, iv, wr, entropy)| Case { steps, start, key, iv, wr, entropy }).boxed()
}
fn resolve(a: &A, last: &mut Vec<u8>) -> Option<Vec<u8>> {
    match a {
        A::Data(b) => {
            *last = b.expand();
            Some(last.clone())
        }
        A::Again => Some(last.clone()),
        A::Rest(n) => {
            let k = pick((*n as u32) << 16, last.len() + 1);
            Some(last[k..].to_vec())
        }
        _ => None,
    }
}
fn desc(a: u8) -> AlertDescription {
    let k = wire::KNOWN_ALERTS[a as usize % wire::KNOWN_ALERTS.len()];
    hv::wgen::to_desc(k)
}
fn chunks<'a>(ty: u8, d: &'a [u8]) -> Vec<(u8, &'a [u8])> {
    d.chunks(16384).map(|c| (ty, c)).collect()
}
fn arm<S: Peer>(net: &Shared<S>, s: &Step) {
    let mut n = net.net();
    let at = n.accepted();
    n.wfault = s.fault.map(|(k, f)| (at + k as u64, f));
}
fn conclude(b: &Book, faults: u64, ctx: &mut Ctx) {
    if faults > 0 && b.partial > 0 && b.seen.len() > 1 {
        ctx.nt();
    }
    ctx.label(match (b.partial, faults) {
        (0, 0) => "no failure",
        (0, _) => "failed between records",
        _ => "failed inside a record",
    });
}
fn writer(c: &Case, ctx: &mut Ctx) -> R {
    let net = Net::new(NoPeer);
    net.net().fuel = u64::MAX;
    net.net().wr = c.wr.clone();
    let mut w = TlsWriter::new(net.writer());
    w.set_encryptor(ChaCha20Poly1305.new_encryptor(c.key.0.clone()));
    w.set_iv(c.iv.0.clone());
    #[cfg(husk_verif)]
    let start = {
        w.verif_set_write_count(c.start);
        c.start
    };
    #[cfg(not(husk_verif))]
    let start = 0;
    let mut book = Book::new(&c.key, &c.iv, start);
    let mut last = vec![0x55; 20];
    let mut seen = 0;
    for s in &c.steps {
        arm(&net, s);
        let mut sent: Vec<(u8, Vec<u8>)> = vec![];
        match &s.a {
            A::Data(_) | A::Again | A::Rest(_) => {
                let d = resolve(&s.a, &mut last).unwrap();
                let _ = guarded(|| w.write_application_data(&d))?;
                sent.extend(chunks(23, &d).into_iter().map(|(t, p)| (t, p.to_vec())));
            }
            A::Alert(a) => {
                let al = Alert { level: AlertLevel::fatal, description: desc(*a) };
                let _ = guarded(|| w.write_alert(&al))?;
            }
            A::Close => {
                let _ = guarded(|| w.write_data(ContentType::HandshakeTy, &[14, 0, 0, 0]))?;
                sent.push((22, vec![14, 0, 0, 0]));
            }
            A::Ccs | A::Flush => {
                let _ = guarded(|| w.write_change_cipher_spec())?;
                sent.push((20, vec![1]));
            }
        }
        let n = net.net();
        let sent: Vec<(u8, &[u8])> = sent.iter().map(|(t, p)| (*t, &p[..])).collect();
        book.account(&n.c2s[seen..], &sent)?;
        seen = n.c2s.len();
    }
    let faults = net.net().faults_hit;
    conclude(&book, faults, ctx);
    Ok(())
}
fn client(c: &Case, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    let (key, iv, fin, mut seen) = {
        let mut n = net.net();
        n.fuel = u64::MAX;
        n.wr = c.wr.clone();
        let k = n.peer.keys.as_ref().unwrap();
        (k.cw.clone(), k.civ.clone(), n.peer.client_fin.clone(), n.c2s.len())
    };
    let mut book = Book::new(&key, &iv, 0);
    book.seen.insert(0, fin);
    book.last_whole = Some(0);
    let mut last = vec![0x55; 20];
    for s in &c.steps {
        arm(&net, s);
        let mut sent: Vec<u8> = vec![];
        match &s.a {
            A::Data(_) | A::Again | A::Rest(_) => {
                sent = resolve(&s.a, &mut last).unwrap();
                let _ = guarded(|| cl.write_all(&sent))?;
            }
            A::Alert(a) => {
                use TlsErrorKind::*;
                let k = [UnexpectedMessage, BadRecordMac, RecordOverflow, IllegalParameter, DecodeError, DecryptError, InternalError, IoFailure, AlertReceived][*a as usize % 9];
                let _ = guarded(|| cl.send_tls_alert(TlsError { kind: k, desc: String::new() }))?;
            }
            A::Close => {
                let _ = guarded(|| cl.close())?;
            }
            A::Flush => {
                let _ = guarded(|| cl.flush())?;
            }
            A::Ccs => {
                let _ = guarded(|| cl.writer.write_change_cipher_spec())?;
            }
        }
        let n = net.net();
        let mut list = chunks(23, &sent);
        list.push((20, &[1]));
        book.account(&n.c2s[seen..], &list)?;
        seen = n.c2s.len();
    }
    let faults = net.net().faults_hit;
    conclude(&book, faults, ctx);
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hs {
    at: u16,
    fault: Fault,
    wr: Vec<u16>,
    entropy: u64,
    dev: Option<u8>,
}
fn hs_strat() -> BoxedStrategy<Hs> {
    let wr = prop_oneof![3 => Just(vec![]), 1 => vec(0u16..9, 1..5usize)];
    (prop_oneof![1 => 0u16..200, 3 => 160u16..260], fault(), wr, any::<u64>(), proptest::option::weighted(0.3, any::<u8>())).prop_map(|(at, fault, wr, entropy, dev)| Hs { at, fault, wr, entropy, dev }).boxed()
}
fn handshake(c: &Hs, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(Cfg::plain()));
    {
        let mut n = net.net();
        n.wr = c.wr.clone();
        n.wfault = Some((c.at as u64, c.fault));
        if let Some(b) = c.dev {
            n.peer.devs = vec![Dev { flight: 1, at: 1, agreed: true, op: Op::FinMask(Hex(vec![b | 1])) }];
        }
    }
    let r = connect(&net)?;
    if let Ok(mut cl) = r {
        let _ = cl.close();
    }
    net.net().pump();
    let n = net.net();
    let Some(k) = &n.peer.keys else { return Ok(()) };
    // what follows the change cipher spec is sealed
    let (recs, _) = wire::split_records(&n.c2s);
    let Some(i) = recs.iter().position(|r| r.0 == 20) else { return Ok(()) };
    let at: usize = recs[..=i].iter().map(|r| 5 + r.2.len()).sum();
    let upto = n.peer.hello.len() + {
        let cfg = &n.peer.cfg;
        cfg.flight1().iter().map(|x| x.data.len()).sum::<usize>()
    } + n.peer.cke.len();
    let t = &n.peer.transcript[..upto.min(n.peer.transcript.len())];
    let fin = wire::frame(20, &refr::prf(&n.peer.ms, "client finished", &refr::sha256(t), 12));
    let mut book = Book::new(&k.cw, &k.civ, 0);
    book.account(&n.c2s[at..], &[(22, &fin)])?;
    if book.partial + book.whole > 0 && n.faults_hit > 0 {
        ctx.nt();
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C15",
        assumptions: &["a partial record is attributed to a sequence number when at least 6 bytes after its header reached the transport", "one write call is taken to restart at a record boundary"],
        facets: vec![
            facet(Facet {
                name: "writer",
                rule: "2..11 writes, repeats and tails of earlier writes, alerts and other records through TlsWriter, half of them with a transport failure (once, for good during the call, or zero-length) after any number of bytes, any starting sequence number (hook); the sealed bytes that reached the transport are attributed to sequence numbers by recomputing every candidate record; non-trivial: a failure inside a record and at least two sequence numbers used",
                quick: 40_000,
                thorough: 5_000_000,
                shrink: 2000,
                strategy: strat,
                check: writer,
            }),
            facet(Facet {
                name: "client",
                rule: "the same through an established TlsClient: write_all, flush, close, send_tls_alert; non-trivial: as above",
                quick: 8_000,
                thorough: 800_000,
                shrink: 300,
                strategy: strat,
                check: client,
            }),
            facet(Facet {
                name: "handshake",
                rule: "a transport failure at any byte the client writes during the handshake, with or without a server that sends a wrong Finished; non-trivial: some sealed bytes and the failure both happened",
                quick: 3_000,
                thorough: 300_000,
                shrink: 300,
                strategy: hs_strat,
                check: handshake,
            }),
        ],
    })
}
