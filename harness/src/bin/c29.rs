use hv::devs;
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::server::*;
use hv::wire;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::{Read, Write};

/// Application data that can be told from anything else.
fn text(n: u16, seed: u64) -> Vec<u8> {
    let d = Blob { len: n as u32, kind: 4, seed: seed as u32 }.expand();
    match seed >> 62 {
        0 => d,
        _ => d.iter().map(|b| b' ' + 1 + b % 94).collect(),
    }
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Write(u16, u64),
    Send(u16, u64),
    /// application data altered on the way: bit
    Altered(u16, u64, u32),
    /// a record of this type and content, sealed
    Record(u8, Hex),
    /// bytes in clear
    Raw(Hex),
    Read(u16),
    /// through the record reader, whose errors are not hidden
    ReadRecord,
    Close,
    /// the transport fails after so many bytes more
    Break(u8, u8),
}
fn act() -> BoxedStrategy<Act> {
    let n = || prop_oneof![24 => 24u16..300, 1 => 300u16..18_000, 1 => 16_385u16..18_000];
    prop_oneof![
        4 => (n(), any::<u64>()).prop_map(|(n, s)| Act::Write(n, s)),
        4 => (n(), any::<u64>()).prop_map(|(n, s)| Act::Send(n, s)),
        3 => (n(), any::<u64>(), prop_oneof![1 => 0u32..40, 3 => any::<u32>()]).prop_map(|(n, s, b)| Act::Altered(n, s, b)),
        2 => devs::spare_record().prop_map(|(t, h)| Act::Record(t, h)),
        1 => bytes(0..40usize).prop_map(Act::Raw),
        3 => (1u16..600).prop_map(Act::Read),
        4 => Just(Act::ReadRecord),
        1 => Just(Act::Close),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(n, k)| Act::Break(n, k)),
    ]
    .boxed()
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    cfg: Cfg,
    devs: Vec<Dev>,
    mitm: Option<(u8, u32)>,
    entropy: u64,
    rd: Vec<u16>,
    wr: Vec<u16>,
    rfault: Option<(u16, u8)>,
    wfault: Option<(u16, u8)>,
    acts: Vec<Act>,
}
fn strat() -> BoxedStrategy<Case> {
    let devs = prop_oneof![4 => Just(vec![]), 6 => vec(devs::dev(), 1usize), 1 => vec(devs::dev(), 2usize)];
    let mitm = proptest::option::weighted(0.1, (0u8..3, any::<u32>()));
    let fault = || proptest::option::weighted(0.08, (0u16..900, any::<u8>()));
    let sizes = || prop_oneof![3 => Just(vec![]), 1 => vec(prop_oneof![6 => 1u16..60, 1 => Just(0u16)], 1..4usize)];
    (small_cfg(), devs, mitm, any::<u64>(), (sizes(), sizes()), (fault(), fault()), vec(act(), 0..10usize))
        .prop_map(|(mut cfg, devs, mitm, entropy, (rd, wr), (rfault, wfault), acts)| {
            cfg.echo = 0;
            // not so small that the client's share tells the secret
            if let Key::Small(k) = &mut cfg.key {
                *k |= 256;
            }
            Case { cfg, devs, mitm, entropy, rd, wr, rfault, wfault, acts }
        })
        .boxed()
}

/// All there is to read in an error.
fn tell(e: &(dyn std::error::Error + 'static), out: &mut Vec<u8>) {
    let mut e = Some(e);
    for _ in 0..10 {
        let Some(x) = e else { return };
        #[allow(deprecated)]
        out.extend(format!("{x}\n{x:?}\n{x:#?}\n{x:#}\n{}\n", x.description()).bytes());
        e = match (x.source(), x.downcast_ref::<std::io::Error>().and_then(|i| i.get_ref())) {
            (Some(s), _) => Some(s),
            (None, Some(i)) => Some(i),
            _ => None,
        };
    }
}
fn tell_io(e: &std::io::Error, out: &mut Vec<u8>) {
    tell(e, out);
    if let Some(i) = e.get_ref() {
        tell(i, out);
    }
}

#[derive(Default)]
struct Seen {
    texts: Vec<u8>,
    errors: usize,
    opened: bool,
    secrets: Vec<(&'static str, Vec<u8>)>,
    /// what everybody on the wire has seen, and so is no secret
    public: Vec<u8>,
    sent: Vec<u8>,
}
fn messages(b: &[u8]) -> Vec<u8> {
    let (recs, _) = wire::split_records(b);
    recs.iter().take_while(|r| r.0 == 22).flat_map(|r| r.2.clone()).collect()
}
/// The records after the change cipher spec: header, sealed fragment.
fn sealed(b: &[u8]) -> Vec<(u8, (u8, u8), Vec<u8>)> {
    let (recs, _) = wire::split_records(b);
    recs.into_iter().skip_while(|r| r.0 != 20).skip(1).collect()
}
fn act_out(c: &Case) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let cfg = c.cfg.clone();
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(cfg.clone()));
    {
        let mut n = net.net();
        n.peer.devs = c.devs.clone();
        n.peer.mitm = c.mitm;
        n.rd = c.rd.clone();
        n.wr = c.wr.clone();
        n.rfault = c.rfault.map(|(a, k)| (a as u64, Fault::Dead(k)));
        n.wfault = c.wfault.map(|(a, k)| (a as u64, Fault::Dead(k)));
    }
    let mut plain: Vec<(&'static str, Vec<u8>)> = Vec::new();
    match connect(&net)? {
        Err(e) => {
            seen.errors += 1;
            tell(&e, &mut seen.texts);
        }
        Ok(mut cl) => {
            seen.opened = true;
            net.net().pump();
            for a in &c.acts {
                {
                    let mut n = net.net();
                    n.fuel = 3_000_000;
                    n.starved = 0;
                    n.faults_hit = 0;
                }
                let mut error = None;
                match a {
                    Act::Write(n, s) => {
                        let d = text(*n, *s);
                        plain.push(("data the client writes", d.clone()));
                        error = guarded(|| cl.write_all(&d).err())?;
                    }
                    Act::Close => {
                        if let Err(e) = guarded(|| cl.close())? {
                            seen.errors += 1;
                            tell(&e, &mut seen.texts);
                        }
                    }
                    Act::Read(n) => {
                        let mut b = vec![0; *n as usize];
                        error = guarded(|| cl.read(&mut b).err())?;
                    }
                    Act::ReadRecord => {
                        let r = guarded(|| cl.reader.read_application_data())?;
                        if let Err(e) = r {
                            seen.errors += 1;
                            tell(&e, &mut seen.texts);
                        }
                    }
                    Act::Break(n, k) => {
                        let mut net = net.net();
                        let at = net.accepted() + *n as u64;
                        net.wfault = Some((at, Fault::Once(*k)));
                    }
                    Act::Raw(h) => net.net().s2c.extend(&h.0),
                    Act::Send(n, s) | Act::Altered(n, s, _) => {
                        let d = text(*n, *s);
                        plain.push(("data the server sends", d.clone()));
                        let mut net = net.net();
                        // now and then a record that is too long
                        for p in d.chunks(if s >> 60 & 1 == 1 { 16384 } else { 18_000 }) {
                            let mut r = net.peer.seal(23, (3, 3), p, 0, false);
                            if let Act::Altered(_, _, bit) = a {
                                let b = *bit as usize % (8 * r.len());
                                r[b / 8] ^= 1 << (b % 8);
                            }
                            net.s2c.extend(r);
                        }
                    }
                    Act::Record(t, h) => {
                        let mut net = net.net();
                        let r = net.peer.seal(*t, (3, 3), &h.0, 0, false);
                        net.s2c.extend(r);
                    }
                }
                if let Some(e) = error {
                    seen.errors += 1;
                    tell_io(&e, &mut seen.texts);
                }
            }
            guarded(move || drop(cl))?;
        }
    }
    let log = getrandom::entropy_log();
    let mut n = net.net();
    n.pump();
    let (s2c, c2s) = (n.s2c.clone(), n.c2s.clone());
    let secrets = &mut seen.secrets;
    if log.len() > 32 {
        // but for the hello's random value
        let from = c2s.get(11..43).and_then(|r| log.windows(32).position(|w| w == r));
        let rest = match from {
            Some(at) => [&log[..at], &log[at + 32..]].concat(),
            None => log,
        };
        secrets.push(("what was drawn from the random source", rest));
    }
    // what the client derived, if the server's key was left alone
    let d = cfg.key.scalar();
    let (ch, sh) = (messages(&c2s), messages(&s2c));
    let mut keys = None;
    if devs::client_keys(&s2c, &c2s, &d).is_some() {
        let hello = 4 + ((ch[1] as usize) << 16 | (ch[2] as usize) << 8 | ch[3] as usize);
        let cke = &ch[hello..];
        if let Some((x, y)) = refr::decode_point(&cke[5..70]).and_then(|p| refr::mul(&d, &Some(p))) {
            let pre = refr::be32(&x).to_vec();
            let (ms, k) = Keys::derive(&pre, &ch[6..38], &sh[6..38]);
            secrets.push(("the premaster secret", pre));
            secrets.push(("the other coordinate of the shared point", refr::be32(&y).to_vec()));
            let mut t = ch[..hello].to_vec();
            t.extend(&sh);
            t.extend(&cke[..70]);
            let cv = refr::prf(&ms, "client finished", &refr::sha256(&t), 12);
            t.extend([20, 0, 0, 12]);
            t.extend(&cv);
            let sv = refr::prf(&ms, "server finished", &refr::sha256(&t), 12);
            secrets.push(("the client's verify data", cv));
            secrets.push(("the verify data expected of the server", sv));
            secrets.push(("the master secret", ms));
            keys = Some(k);
        }
    }
    let mut alerts = Vec::new();
    if let Some(k) = keys {
        for (key, iv, recs, own) in [(&k.cw, &k.civ, sealed(&c2s), true), (&k.sw, &k.siv, sealed(&s2c), false)] {
            for i in 0..recs.len().min(12) + 1 {
                let nonce = refr::tls_nonce(iv, i as u64);
                secrets.push(("a one-time key", refr::chacha20_block(key, 0, &nonce)[..32].to_vec()));
                secrets.push(("a keystream", refr::chacha20_block(key, 1, &nonce).to_vec()));
                let Some((ty, ver, f)) = recs.get(i).filter(|r| r.2.len() >= 16) else { continue };
                if !own {
                    // a strange alert may be quoted
                    if *ty == 21 {
                        alerts.extend(refr::aead_open(key, &nonce, &refr::tls_ad(i as u64, *ty, *ver, f.len() - 16), f).unwrap_or_default());
                    }
                    let (ct, tag) = f.split_at(f.len() - 16);
                    let otk = refr::chacha20_block(key, 0, &nonce);
                    let mut m = refr::tls_ad(i as u64, *ty, *ver, ct.len());
                    m.resize(16, 0);
                    let at = m.len();
                    m.extend(ct);
                    let up = (m.len() - at + 15) / 16 * 16;
                    m.resize(at + up, 0);
                    m.extend(13u64.to_le_bytes());
                    m.extend((ct.len() as u64).to_le_bytes());
                    let right = refr::poly1305(&m, &otk[..16], &otk[16..32]);
                    if right != tag {
                        secrets.push(("the tag that would have been accepted", right.to_vec()));
                    }
                }
            }
        }
        for (n, s) in [("a write key", k.cw), ("a read key", k.sw), ("the write IV", k.civ), ("the read IV", k.siv)] {
            secrets.push((n, s));
        }
    }
    secrets.extend(plain);
    seen.public = s2c;
    seen.public.extend(&ch);
    seen.public.extend(alerts);
    seen.sent = c2s;
    Ok(seen)
}

const W: usize = 6;
/// Byte strings that a text can stand for.
fn readings(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_vec()];
    let tokens: Vec<&[u8]> = t.split(|b| !b.is_ascii_alphanumeric()).filter(|t| !t.is_empty()).map(|t| t.strip_prefix(b"0x").unwrap_or(t)).collect();
    let (mut dec, mut hexa) = (Vec::new(), Vec::new());
    for t in &tokens {
        let s = std::str::from_utf8(t).unwrap();
        match s.parse::<u128>() {
            Ok(n) if n < 256 => dec.push(n as u8),
            Ok(n) => {
                v.push(std::mem::take(&mut dec));
                v.push(n.to_be_bytes().to_vec());
                v.push(n.to_le_bytes().to_vec());
            }
            // a name between numbers, as in [Wrapping(1), Wrapping(2)]
            Err(_) => (),
        }
        if s.len() <= 2 {
            match u8::from_str_radix(s, 16) {
                Ok(n) => hexa.push(n),
                Err(_) => v.push(std::mem::take(&mut hexa)),
            }
        } else if s.bytes().all(|b| b.is_ascii_hexdigit()) {
            for skip in 0..2 {
                v.push(s.as_bytes()[skip..].chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect());
            }
        }
    }
    v.push(dec);
    v.push(hexa);
    v
}
/// Numbers of 32 and 64 bits in the text.
fn words(t: &[u8]) -> HashSet<u64> {
    t.split(|b| !b.is_ascii_alphanumeric())
        .filter_map(|t| {
            let s = std::str::from_utf8(t).unwrap();
            s.parse().ok().or_else(|| u64::from_str_radix(s.strip_prefix("0x").unwrap_or(s), 16).ok())
        })
        .filter(|n| *n >= 1 << 24)
        .collect()
}
fn search_text(s: &Seen, t: &[u8], whence: &str) -> R {
    let said = readings(t);
    let windows: HashSet<&[u8]> = said.iter().flat_map(|r| r.windows(W)).collect();
    let public: HashSet<&[u8]> = s.public.windows(W).collect();
    let words = words(t);
    let lossy = String::from_utf8_lossy(t).into_owned();
    for (what, secret) in &s.secrets {
        let found = |how: &str| Err(format!("{whence} {what} ({how}): {}", lossy.chars().take(600).collect::<String>()));
        let mut back = secret.clone();
        back.reverse();
        for v in [secret, &back] {
            if v.windows(W).any(|w| windows.contains(w) && !public.contains(w)) {
                return found("bytes");
            }
        }
        for w in secret.windows(4).filter(|_| !words.is_empty()) {
            let w: [u8; 4] = w.try_into().unwrap();
            for n in [u32::from_be_bytes(w), u32::from_le_bytes(w)] {
                if words.contains(&(n as u64)) && !public.iter().any(|p| p.starts_with(&w)) {
                    return found("a word");
                }
            }
        }
        for w in secret.windows(8).filter(|_| !words.is_empty()) {
            let w: [u8; 8] = w.try_into().unwrap();
            for n in [u64::from_be_bytes(w), u64::from_le_bytes(w)] {
                if words.contains(&n) {
                    return found("a long word");
                }
            }
        }
        for w in secret.windows(12).step_by(6) {
            let as_text = String::from_utf8_lossy(w).into_owned();
            let forms = [w.escape_ascii().to_string(), format!("{as_text:?}").trim_matches('"').to_string(), as_text];
            // enough that says something
            if forms[2].chars().filter(|c| c.is_ascii_graphic()).count() >= 5 && forms.iter().any(|f| lossy.contains(&f[..])) && !public.contains(&w[..W]) {
                return found("text");
            }
        }
    }
    Ok(())
}
fn search_wire(s: &Seen) -> R {
    let mut sent = s.sent.clone();
    // the hello's random value is public
    let hello = sent.len().min(43);
    sent[..hello].fill(0);
    let windows: HashSet<&[u8]> = sent.windows(8).collect();
    for (what, secret) in &s.secrets {
        let mut back = secret.clone();
        back.reverse();
        let flip = |v: &[u8]| v.chunks(4).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect::<Vec<u8>>();
        for v in [secret, &back, &flip(secret), &flip(&back)] {
            if v.windows(8).any(|w| windows.contains(w)) {
                return Err(format!("the client sends {what} in clear: {}", hex(&s.sent)));
            }
        }
    }
    Ok(())
}
fn errors(c: &Case, ctx: &mut Ctx) -> R {
    let seen = act_out(c)?;
    if std::env::var_os("HV_FRESH").is_some() {
        return Ok(());
    }
    if seen.errors > 0 && seen.secrets.len() > 1 {
        ctx.nt();
    }
    ctx.label(if seen.opened { "opened" } else { "failed" });
    search_wire(&seen)?;
    search_text(&seen, &seen.texts, "an error tells")
}
fn output(c: &Case, ctx: &mut Ctx) -> R {
    let seen = act_out(c)?;
    let exe = std::env::current_exe().expect("this program");
    let out = replay_raw(&exe, "C29", "errors", c);
    if out.status.code() != Some(0) {
        panic!("the process of its own ends with {:?}: {}", out.status.code(), String::from_utf8_lossy(&out.stdout));
    }
    if seen.secrets.len() > 1 {
        ctx.nt();
    }
    ctx.execs(2);
    search_text(&seen, &[&out.stdout[..], b"\n", &out.stderr].concat(), "the process prints")
}
fn main() {
    hv::fw::main(Property {
        id: "C29",
        assumptions: &[
            "secrets are recognised as bytes in either order, hexadecimal and decimal lists, 32- and 64-bit words and escaped text; other encodings are not looked for",
            "what is left in freed memory is not looked at",
        ],
        facets: vec![
            facet(Facet { name: "errors", rule: "handshakes with conforming and deviating servers over failing transports, then generated writes, reads, altered records, closes; the text, debug output and causes of every error and every byte the client sends are searched for what the reference derives; non-trivial: an error was returned and the keys were derived", quick: 20_000, thorough: 3_000_000, shrink: 200, strategy: strat, check: errors }),
            facet(Facet { name: "output", rule: "the same sessions in a process of their own whose standard output and standard error are searched; non-trivial: the keys were derived", quick: 1000, thorough: 100_000, shrink: 60, strategy: strat, check: output }),
        ],
    })
}
