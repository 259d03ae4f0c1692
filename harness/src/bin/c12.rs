use husk::handshake::HandshakeBuffer;
use husk::tls::TlsReader;
use husk::tls_result::TlsErrorKind;
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::wgen::*;
use hv::wire::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Item {
    Msg(Msg),
    /// a type husk does not know
    Unknown(u8, Blob),
    /// a large opaque message
    Opaque(Blob),
    /// an opaque message whose content looks like handshake headers
    Nested(u8, u32),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    items: Vec<Item>,
    /// record payload sizes, cyclic
    cuts: Vec<u16>,
    /// transport read sizes, cyclic
    rd: Vec<u16>,
    enc: bool,
}
fn unknown_type() -> BoxedStrategy<u8> {
    any::<u8>().prop_filter("known", |t| !matches!(t, 0 | 1 | 2 | 11 | 12 | 13 | 14 | 16 | 20)).boxed()
}
fn small_msg() -> BoxedStrategy<Msg> {
    prop_oneof![
        2 => Just(Msg::ServerHelloDone),
        2 => Just(Msg::HelloRequest),
        2 => keyish(12).prop_map(Msg::Finished),
        2 => bytes(0..12usize).prop_map(Msg::ServerKeyExchange),
        1 => bytes(0..12usize).prop_map(Msg::ClientKeyExchange),
        1 => vec(bytes(1..4usize), 0..3usize).prop_map(Msg::Certificate),
    ]
    .boxed()
}
fn item() -> BoxedStrategy<Item> {
    prop_oneof![
        10 => small_msg().prop_map(Item::Msg),
        3 => msg_strat(false).prop_map(Item::Msg),
        3 => (unknown_type(), blob(prop_oneof![3 => 0u32..5, 1 => 0u32..300].boxed())).prop_map(|(a, b)| Item::Unknown(a, b)),
        1 => blob(prop_oneof![3 => 0u32..600, 1 => 65_000u32..66_000, 1 => 0u32..200_000].boxed()).prop_map(Item::Opaque),
        2 => (0u8..40, any::<u32>()).prop_map(|(a, b)| Item::Nested(a, b)),
    ]
    .boxed()
}
fn strat() -> BoxedStrategy<Case> {
    let cuts = prop_oneof![
        3 => vec(1u16..6, 1..8usize),
        1 => Just(vec![1u16]),
        2 => vec(prop_oneof![3 => 1u16..20, 1 => 1u16..300], 1..6usize),
        2 => vec(hv::lits::spice((1u16..=16384).boxed()), 1..4usize),
        1 => Just(vec![16384u16]),
    ];
    let rd = prop_oneof![2 => Just(vec![]), 1 => vec(1u16..9, 1..5usize)];
    (vec(item(), 1..9usize), cuts, rd, any::<bool>()).prop_map(|(items, cuts, rd, enc)| Case { items, cuts, rd, enc }).boxed()
}
fn encode(i: &Item) -> Vec<u8> {
    match i {
        Item::Msg(m) => wire::msg(m),
        Item::Unknown(t, b) => frame(*t, &b.expand()),
        Item::Opaque(b) => frame(12, &b.expand()),
        Item::Nested(n, s) => {
            // headers of short messages back to back
            let mut s = *s as u64;
            let mut v = Vec::new();
            for _ in 0..*n {
                let ty = [0u8, 14, 20, 12, 3][splitmix(&mut s) as usize % 5];
                v.extend_from_slice(&[ty, 0, 0, (splitmix(&mut s) % 3) as u8]);
            }
            frame(12, &v)
        }
    }
}
/// What reading must give: Some(message) or None for an unknown type.
fn want(i: &Item, w: &[u8]) -> Option<Msg> {
    match i {
        Item::Msg(m) => Some(m.clone()),
        Item::Unknown(..) => None,
        _ => Some(Msg::ServerKeyExchange(Hex(w[4..].to_vec()))),
    }
}
fn plan(c: &Case) -> (Vec<Vec<u8>>, Vec<Option<Msg>>, Vec<usize>, Vec<Vec<u8>>) {
    let w: Vec<Vec<u8>> = c.items.iter().map(encode).collect();
    let m: Vec<Option<Msg>> = c.items.iter().zip(&w).map(|(i, w)| want(i, w)).collect();
    let all: Vec<u8> = w.concat();
    // bound the number of records
    let most = if c.items.len() == 1 && c.rd.is_empty() { 40_000 } else { 3000 };
    let least = all.len() / most + 1;
    let mut recs = Vec::new();
    let mut ends = Vec::new();
    let mut at = 0;
    let mut i = 0;
    while at < all.len() {
        let n = (c.cuts[i % c.cuts.len()] as usize).clamp(least, 16384).min(all.len() - at);
        recs.push(all[at..at + n].to_vec());
        at += n;
        ends.push(at);
        i += 1;
    }
    (w, m, ends, recs)
}
fn classify(c: &Case, recs: &[Vec<u8>], w: &[Vec<u8>], ctx: &mut Ctx) {
    if recs.len() != w.len() || recs.iter().zip(w).any(|(a, b)| a != b) {
        ctx.nt();
        ctx.label(if recs.len() > w.len() { "split" } else { "merged" });
    }
    if c.items.iter().any(|i| matches!(i, Item::Unknown(..))) {
        ctx.label("with unknown types");
    }
}
fn reader(c: &Case, ctx: &mut Ctx) -> R {
    let (w, m, ends, recs) = plan(c);
    classify(c, &recs, &w, ctx);
    let net = Net::new(NoPeer);
    let (key, iv) = ([7u8; 32], [9u8; 12]);
    let mut arrive = Vec::new(); // transport position after each record
    {
        let mut n = net.net();
        n.fuel = u64::MAX;
        n.rd = c.rd.clone();
        for (i, r) in recs.iter().enumerate() {
            let rec = if c.enc { refr::tls_record(&key, &iv, i as u64, 22, (3, 3), r) } else { record(22, (3, 3), r) };
            n.s2c.extend(rec);
            let l = n.s2c.len();
            arrive.push(l);
        }
    }
    let mut rd = TlsReader::new(net.reader());
    if c.enc {
        use husk::cipher::{chacha20_poly1305::ChaCha20Poly1305, Aead};
        rd.set_iv(iv.to_vec());
        rd.set_decryptor(ChaCha20Poly1305.new_decryptor(key.to_vec()));
    }
    let mut end = 0;
    for (i, want) in m.iter().enumerate() {
        end += w[i].len();
        let rec = ends.iter().position(|e| *e >= end).unwrap();
        let got = rd.read_handshake();
        let at = net.net().rpos;
        match (got, want) {
            (Ok(g), Some(x)) => {
                if of_msg(&g) != *x {
                    return Err(format!("message {i} is not the one sent"));
                }
            }
            (Err(e), None) => {
                if e.kind != TlsErrorKind::UnexpectedMessage {
                    return Err(format!("message {i} of unknown type is reported as {:?}", e.kind));
                }
            }
            (Ok(_), None) => return Err(format!("message {i} of unknown type was accepted")),
            (Err(e), Some(_)) => return Err(format!("message {i} was refused: {e:?}")),
        }
        if at > arrive[rec] {
            return Err(format!("message {i} was complete after {} bytes but {} were read", arrive[rec], at));
        }
    }
    if rd.read_handshake().is_ok() {
        return Err("a message more than were sent".into());
    }
    Ok(())
}
fn buffer(c: &Case, ctx: &mut Ctx) -> R {
    let (w, m, _, recs) = plan(c);
    classify(c, &recs, &w, ctx);
    let mut hb = HandshakeBuffer::new();
    let mut added = 0;
    let mut next = 0;
    let mut end = w.first().map_or(0, |x| x.len());
    for r in &recs {
        hb.add_record(r);
        added += r.len();
        loop {
            let due = next < w.len() && end <= added;
            match (hb.get_message(), due) {
                (Ok(None), false) => break,
                (Ok(None), true) => return Err(format!("message {next} is complete but was not handed out")),
                (Ok(Some(_)) | Err(_), false) => return Err(format!("something was handed out before message {next} was complete")),
                (Ok(Some(g)), true) => match &m[next] {
                    Some(x) if of_msg(&g) == *x => {}
                    _ => return Err(format!("message {next} is not the one sent")),
                },
                (Err(e), true) => {
                    if m[next].is_some() {
                        return Err(format!("message {next} was refused: {e:?}"));
                    }
                }
            }
            next += 1;
            end += w.get(next).map_or(0, |x| x.len());
        }
    }
    if next != w.len() {
        return Err("messages are missing".into());
    }
    Ok(())
}
/// Messages of a megabyte to the 16 MB a length field can say.
fn huge_strat() -> BoxedStrategy<Case> {
    let len = prop_oneof![2 => (0u32..24, -2i32..=2).prop_map(|(b, d)| ((1i32 << b) + d).max(0) as u32), 2 => 1_000_000u32..3_000_000, 1 => 3_000_000u32..=0xff_ffff, 1 => Just(0xff_ffffu32)];
    let it = prop_oneof![3 => blob(len.boxed()).prop_map(Item::Opaque), 1 => small_msg().prop_map(Item::Msg)];
    let cuts = prop_oneof![1 => Just(vec![16384u16]), 1 => vec(8000u16..=16384, 1..4usize)];
    (vec(it, 1..4usize), cuts, proptest::bool::weighted(0.2)).prop_map(|(items, cuts, enc)| Case { items, cuts, rd: vec![], enc }).boxed()
}
fn main() {
    hv::fw::main(Property {
        id: "C12",
        assumptions: &["records are non-empty, as the property says"],
        facets: vec![
            facet(Facet {
                name: "reader",
                rule: "1..8 messages (small, large, unknown types, contents that look like headers) cut into records of 1..16384 bytes, in clear or encrypted, over a transport with short reads; non-trivial: some record boundary is not a message boundary or the other way round",
                quick: 240_000,
                thorough: 12_000_000,
                shrink: 2000,
                strategy: strat,
                check: reader,
            }),
            facet(Facet {
                name: "huge",
                rule: "1..3 messages, among them opaque ones of 1 MB up to the 16777215 bytes a length can say, in records of 8000..16384 bytes; non-trivial: as above",
                quick: 48,
                thorough: 4_000,
                shrink: 60,
                strategy: huge_strat,
                check: reader,
            }),
            facet(Facet {
                name: "buffer",
                rule: "the same through HandshakeBuffer alone, asked for messages after every record; non-trivial: as above",
                quick: 240_000,
                thorough: 12_000_000,
                shrink: 2000,
                strategy: strat,
                check: buffer,
            }),
        ],
    })
}
