use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::server::*;
use hv::{refr, wire};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

/// What the attacker does to the list of records on the wire.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Drop(u8),
    Dup(u8, u8),
    Swap(u8, u8),
    Flip(u8, u32),
    /// shorten or lengthen, fixing the header or not
    Shorten(u8, u16, bool),
    Lengthen(u8, Hex, bool),
    Type(u8, u8),
    Version(u8, u8, u8),
    Split(u8, u16),
    Merge(u8),
    /// a clear record
    Clear(u8, u8, Hex),
    Raw(u8, Hex),
    /// sealed under a key the attacker made up, with the sequence number in place there
    OtherKey(u8, Hex),
    /// one of the client's own records sent back
    Reflect(u8, u8),
    /// a record of the handshake sent again
    Old(u8, u8),
    /// sealed with the right key, but the record was made for another place: number off by this
    Displaced(u8, i8),
    /// a forged record with a tag built without the key: all zeros, or copied from a neighbour
    Forged(u8, u8, Blob),
    CutAt(u32),
    CutAfter(u8),
}
/// What the server really sends.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Item {
    Data(Blob),
    /// an alert, known or not, or something that is none
    Alert(Hex),
    /// a record of the handshake or change cipher spec type
    Other(u8, Hex),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    entropy: u64,
    plains: Vec<Item>,
    acts: Vec<Act>,
    reads: Vec<u32>,
    writes: bool,
    rd: Vec<u16>,
    /// how the attacker goes on afterwards: 0 the rest of the genuine records again, 1 all of
    /// them again, 2 fresh genuine records, 3 a close_notify
    later: u8,
    /// what the caller does besides, between reads that bring nothing
    #[serde(default)]
    between: Vec<u8>,
}
/// The header of a record that does not follow, or its first bytes.
fn header() -> BoxedStrategy<Hex> {
    let t = prop_oneof![4 => 20u8..=23, 1 => any::<u8>()];
    let len = prop_oneof![1 => Just(0u16), 1 => 1u16..40, 2 => 16_384u16..19_000, 1 => 18_430u16..18_440, 2 => any::<u16>(), 1 => Just(0xffff)];
    (t, len, prop_oneof![4 => Just(5usize), 1 => 1usize..5]).prop_map(|(t, l, n)| Hex(vec![t, 3, 3, (l >> 8) as u8, l as u8][..n].to_vec())).boxed()
}
fn act() -> BoxedStrategy<Act> {
    let i = || 0u8..12;
    prop_oneof![
        3 => i().prop_map(Act::Drop),
        3 => (i(), i()).prop_map(|(a, b)| Act::Dup(a, b)),
        3 => (i(), i()).prop_map(|(a, b)| Act::Swap(a, b)),
        6 => (i(), any::<u32>()).prop_map(|(a, b)| Act::Flip(a, b)),
        3 => (i(), prop_oneof![0u16..20, any::<u16>()], any::<bool>()).prop_map(|(a, b, c)| Act::Shorten(a, b, c)),
        2 => (i(), bytes(1..20usize), any::<bool>()).prop_map(|(a, b, c)| Act::Lengthen(a, b, c)),
        2 => (i(), prop_oneof![3 => 20u8..=23, 1 => any::<u8>()]).prop_map(|(a, b)| Act::Type(a, b)),
        1 => (i(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Act::Version(a, b, c)),
        2 => (i(), any::<u16>()).prop_map(|(a, b)| Act::Split(a, b)),
        1 => i().prop_map(Act::Merge),
        3 => (i(), prop_oneof![3 => 20u8..=23, 1 => any::<u8>()], bytes(0..40usize)).prop_map(|(a, b, c)| Act::Clear(a, b, c)),
        1 => (i(), bytes(1..30usize)).prop_map(|(a, b)| Act::Raw(a, b)),
        2 => (i(), header()).prop_map(|(a, b)| Act::Raw(a, b)),
        1 => (i(), bytes(0..30usize)).prop_map(|(a, b)| Act::OtherKey(a, b)),
        1 => (i(), any::<u8>()).prop_map(|(a, b)| Act::Reflect(a, b)),
        1 => (i(), any::<u8>()).prop_map(|(a, b)| Act::Old(a, b)),
        1 => (i(), any::<i8>()).prop_map(|(a, b)| Act::Displaced(a, b)),
        1 => (i(), any::<u8>(), blob((0u32..40).boxed())).prop_map(|(a, b, c)| Act::Forged(a, b, c)),
        1 => any::<u32>().prop_map(Act::CutAt),
        1 => i().prop_map(Act::CutAfter),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let len = prop_oneof![8 => 1u32..40, 1 => Just(0u32), 2 => 40u32..600, 1 => 16380u32..=16384];
    let reads = vec(prop_oneof![3 => 1u32..10, 3 => 10u32..100, 1 => Just(0u32), 1 => 100u32..40_000], 1..6usize);
    let rd = prop_oneof![4 => Just(vec![]), 1 => vec(1u16..9, 1..4usize)];
    let acts = prop_oneof![1 => Just(vec![]), 12 => vec(act(), 1usize), 6 => vec(act(), 2..4usize)];
    let code = prop_oneof![2 => proptest::sample::select(wire::KNOWN_ALERTS), 2 => any::<u8>()];
    let alert = prop_oneof![
        4 => (prop_oneof![4 => 1u8..=2, 1 => any::<u8>()], code).prop_map(|(l, d)| Hex(vec![l, d])),
        1 => Just(Hex(vec![1, 0])),
        1 => bytes(0..8usize),
    ];
    let other = prop_oneof![Just((22, Hex(vec![0; 4]))), (prop_oneof![Just(20u8), Just(22u8)], bytes(0..12usize)), Just((20, Hex(vec![1])))];
    let data = blob(len.boxed()).prop_map(Item::Data);
    let ctl = prop_oneof![3 => alert.prop_map(Item::Alert), 1 => other.prop_map(|(t, d)| Item::Other(t, d))];
    let items = prop_oneof![
        3 => vec(data.clone(), 1..9usize),
        1 => (vec(data, 1..6usize), vec((ctl, 0u8..6), 1..3usize)).prop_map(|(mut v, c)| {
            for (x, at) in c {
                let k = at as usize % (v.len() + 1);
                v.insert(k, x);
            }
            v
        }),
    ];
    (any::<u64>(), items, acts, reads, any::<bool>(), rd, 0u8..4, meddling())
        .prop_map(|(entropy, plains, acts, reads, writes, rd, later, between)| Case { entropy, plains, acts, reads, writes, rd, later, between })
        .boxed()
}
fn meddling() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![3 => Just(vec![]), 2 => vec(0u8..8, 1..5usize)].boxed()
}
fn relen(r: &mut Vec<u8>) {
    if r.len() >= 5 {
        let n = wire::u16v(r.len() - 5);
        r[3..5].copy_from_slice(&n);
    }
}
/// Read until nothing comes, and some more; everything that was handed over.
fn read_all(cl: &mut Client, reads: &[u32], more: usize, between: &[u8]) -> Result<Vec<u8>, String> {
    let mut got = Vec::new();
    let mut dry = 0;
    let mut i = 0;
    let all_empty = reads.iter().all(|r| *r == 0);
    while dry < more {
        let mut n = reads[i % reads.len()] as usize;
        if n == 0 && all_empty {
            n = 3;
        }
        i += 1;
        let mut buf = vec![0u8; n];
        match guarded(|| cl.read(&mut buf))? {
            Ok(k) if k > n => return Err(format!("a read into {n} bytes reports {k}")),
            Ok(0) if n == 0 => {}
            Ok(0) | Err(_) => {
                if let Some(b) = between.get(dry) {
                    meddle(cl, *b)?;
                }
                dry += 1
            }
            Ok(k) => {
                if dry > 0 {
                    return Err(format!("a read delivers {k} bytes ({}) after one had reported the end or an error", hex(&buf[..k.min(16)])));
                }
                got.extend_from_slice(&buf[..k]);
            }
        }
    }
    Ok(got)
}
fn check(c: &Case, ctx: &mut Ctx) -> R {
    let (net, mut cl) = open(&Cfg::plain(), c.entropy)?;
    if c.writes {
        guarded(|| cl.write_all(b"from the client"))?.map_err(|e| format!("write fails: {e}"))?;
        net.net().pump();
    }
    let start = net.net().rpos;
    if net.net().unread() != 0 {
        return Err("bytes of the handshake were left unread".into());
    }
    let own: Vec<Vec<u8>> = {
        let n = net.net();
        let mut v = Vec::new();
        let mut at = 0;
        while n.c2s.len() - at >= 5 {
            let l = 5 + ((n.c2s[at + 3] as usize) << 8 | n.c2s[at + 4] as usize);
            v.push(n.c2s[at..at + l].to_vec());
            at += l;
        }
        v
    };
    let old: Vec<Vec<u8>> = {
        let n = net.net();
        let mut v = Vec::new();
        let mut at = 0;
        while start - at >= 5 {
            let l = 5 + ((n.s2c[at + 3] as usize) << 8 | n.s2c[at + 4] as usize);
            v.push(n.s2c[at..at + l].to_vec());
            at += l;
        }
        v
    };
    let plains: Vec<(u8, Vec<u8>)> = c
        .plains
        .iter()
        .map(|i| match i {
            Item::Data(b) => (23, b.expand()),
            Item::Alert(h) => (21, h.0.clone()),
            Item::Other(t, h) => (*t, h.0.clone()),
        })
        .collect();
    let first = net.net().peer.write_seq;
    let genuine: Vec<Vec<u8>> = plains.iter().map(|(t, p)| net.net().peer.seal(*t, (3, 3), p, 0, false)).collect();
    let (key, iv) = {
        let n = net.net();
        let k = n.peer.keys.as_ref().unwrap();
        (k.sw.clone(), k.siv.clone())
    };
    let mut w = genuine.clone();
    let mut cut: Option<u32> = None;
    for a in &c.acts {
        let n = w.len();
        let at = |i: u8| if n == 0 { 0 } else { i as usize % n };
        let ins = |i: u8| i as usize % (n + 1);
        match a {
            Act::Clear(i, t, d) => w.insert(ins(*i), wire::record(*t, (3, 3), d)),
            Act::Raw(i, d) => w.insert(ins(*i), d.0.clone()),
            Act::OtherKey(i, d) => {
                let mut k = key.clone();
                k[31] ^= 0x80;
                let p = ins(*i);
                w.insert(p, refr::tls_record(&k, &iv, first + p as u64, 23, (3, 3), d));
            }
            Act::Reflect(i, k) => w.insert(ins(*i), own[*k as usize % own.len()].clone()),
            Act::Old(i, k) => w.insert(ins(*i), old[*k as usize % old.len()].clone()),
            // such a record exists only if the server ever made one under that number
            Act::Displaced(i, d) => {
                let p = ins(*i);
                let seq = (first as i64 + p as i64 + *d as i64).max(0) as u64;
                if seq != first + p as u64 && seq >= first && seq < first + genuine.len() as u64 {
                    w.insert(p, genuine[(seq - first) as usize].clone());
                }
            }
            Act::Forged(i, t, d) => {
                let p = ins(*i);
                let mut r = wire::record(23, (3, 3), &d.expand());
                let tag = if *t % 3 == 0 || w.is_empty() {
                    vec![0; 16]
                } else {
                    let o = &w[at(*i)];
                    o[o.len().saturating_sub(16)..].to_vec()
                };
                r.extend(tag);
                relen(&mut r);
                w.insert(p, r);
            }
            Act::CutAt(x) => cut = Some(*x),
            Act::CutAfter(i) => {
                let k = ins(*i);
                w.truncate(k);
            }
            _ if n == 0 => {}
            Act::Drop(i) => {
                w.remove(at(*i));
            }
            Act::Dup(i, j) => {
                let r = w[at(*i)].clone();
                w.insert(ins(*j), r);
            }
            Act::Swap(i, j) => w.swap(at(*i), at(*j)),
            Act::Flip(i, b) => {
                let r = &mut w[at(*i)];
                if !r.is_empty() {
                    let k = pick(*b, r.len() * 8);
                    r[k / 8] ^= 1 << (k % 8);
                }
            }
            Act::Shorten(i, k, fix) => {
                let r = &mut w[at(*i)];
                let l = r.len() - (*k as usize % (r.len() + 1));
                r.truncate(l);
                if *fix {
                    relen(r);
                }
            }
            Act::Lengthen(i, d, fix) => {
                let r = &mut w[at(*i)];
                r.extend_from_slice(d);
                if *fix {
                    relen(r);
                }
            }
            Act::Type(i, t) => {
                if let Some(b) = w[at(*i)].first_mut() {
                    *b = *t
                }
            }
            Act::Version(i, a, b) => {
                let r = &mut w[at(*i)];
                if r.len() >= 3 {
                    r[1] = *a;
                    r[2] = *b;
                }
            }
            Act::Split(i, k) => {
                let r = w[at(*i)].clone();
                if r.len() > 6 {
                    let k = 5 + *k as usize % (r.len() - 5);
                    let h = (r[0], (r[1], r[2]));
                    w[at(*i)] = wire::record(h.0, h.1, &r[5..k]);
                    w.insert(at(*i) + 1, wire::record(h.0, h.1, &r[k..]));
                }
            }
            Act::Merge(i) => {
                let k = at(*i);
                if k + 1 < n && w[k].len() >= 5 && w[k + 1].len() >= 5 && w[k].len() + w[k + 1].len() < 65000 {
                    let b = w.remove(k + 1);
                    w[k].extend_from_slice(&b[5..]);
                    let r = &mut w[k];
                    relen(r);
                }
            }
        }
    }
    let mut stream = w.concat();
    if let Some(x) = cut {
        let k = pick(x, stream.len() + 1);
        stream.truncate(k);
    }
    // whole genuine records before the first difference
    let mut k = 0;
    let mut at = 0;
    while k < genuine.len() && stream[at..].starts_with(&genuine[k]) {
        at += genuine[k].len();
        k += 1;
    }
    // nothing rejected: the stream stops, between records or inside one
    let rest = &stream[at..];
    let late = match rest {
        [] => true,
        [t, ..] if !(20..=23).contains(t) => false,
        r if r.len() < 5 => true,
        r => {
            let l = (r[3] as usize) << 8 | r[4] as usize;
            l <= 18432 && r.len() < 5 + l
        }
    };
    let clean = rest.is_empty();
    // data that must be delivered: up to the first record that is not data; and that may be: what
    // comes after a warning or a handshake record as well, but nothing after a closure or fatal alert
    let data = |v: &[(u8, Vec<u8>)]| -> Vec<u8> { v.iter().filter(|x| x.0 == 23).flat_map(|x| x.1.clone()).collect() };
    let fatal = |x: &(u8, Vec<u8>)| x.0 == 21 && (x.1.first() == Some(&2) || x.1 == [1, 0]);
    let control = plains[..k].iter().position(|x| x.0 != 23);
    let over = plains[..k].iter().position(fatal);
    let least = data(&plains[..control.unwrap_or(k)]);
    let most = data(&plains[..over.unwrap_or(k)]);
    if control.is_some() {
        ctx.label("with alerts or handshake records that are the server's own");
    }
    {
        let mut n = net.net();
        n.rd = c.rd.clone();
        n.s2c.extend_from_slice(&stream);
    }
    let got = read_all(&mut cl, &c.reads, 3, &c.between)?;
    if !got.starts_with(&least) || !most.starts_with(&got) {
        let same = got.iter().zip(&most).take_while(|(a, b)| a == b).count();
        return Err(format!("the client read {} bytes, the undisturbed records hold {}..{}; they agree up to byte {same}", got.len(), least.len(), most.len()));
    }
    let before = got.len();
    if !clean {
        ctx.nt();
        ctx.label(if k == 0 { "disturbed from the first record" } else { "disturbed later" });
        // the client met the disturbance, or only a part of a record was left
    } else {
        ctx.label("a clean prefix");
    }
    // and further traffic
    {
        let mut n = net.net();
        let more: Vec<u8> = match c.later {
            0 => genuine[k..].concat(),
            1 => genuine.concat(),
            2 => {
                n.peer.write_seq = first + k as u64;
                (0..3).flat_map(|i| n.peer.seal(23, (3, 3), &[i; 9], 0, false)).collect()
            }
            _ => {
                n.peer.write_seq = first + k as u64;
                let mut a = n.peer.seal(21, (3, 3), &[1, 0], 0, false);
                a.extend(n.peer.seal(23, (3, 3), &[0xaa; 9], 0, false));
                a
            }
        };
        n.s2c.extend(more);
    }
    let got = read_all(&mut cl, &c.reads, 3, &c.between)?;
    if !late && !got.is_empty() {
        return Err(format!("after a rejected record the client delivers {} further bytes", got.len()));
    }
    if late {
        // the stream only stopped, so what follows may count; nothing else may be delivered
        let fine: Vec<u8> = match c.later {
            _ if over.is_some() => vec![],
            0 => data(&plains[k..]),
            1 if k == 0 => data(&plains),
            2 => (0..3u8).flat_map(|i| [i; 9]).collect(),
            _ => vec![],
        };
        // (what was left over from behind a control record may come first)
        let fine: Vec<u8> = most[before..].iter().copied().chain(fine).collect();
        if !fine.starts_with(&got) {
            return Err(format!("after an early end of the stream the client delivers {} bytes that are not the next", got.len()));
        }
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C19",
        assumptions: &["the attacker cannot forge a Poly1305 tag (chance below 2^-90 per record)", "how many bytes one read returns is left open (C18)"],
        facets: vec![facet(Facet {
            name: "attack",
            rule: "1..8 genuine records of 0..16384 bytes (in a quarter of the cases with the server's own alerts, known or unknown, and handshake records among them), 0..3 attacks on the wire (drop, repeat, swap, bit flips anywhere, shorten, lengthen, retype, split, merge, inject clear, forged, foreign, reflected or old records, cut anywhere), read with any buffer sizes and with other operations of the caller between reads, then further genuine traffic; non-trivial: the stream differs from a genuine prefix",
            quick: 25_000,
            thorough: 2_500_000,
            shrink: 500,
            strategy: strat,
            check,
        })],
    })
}
