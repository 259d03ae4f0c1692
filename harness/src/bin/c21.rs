use hv::devs::*;
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use hv::refr;
use hv::server::*;
use hv::wire;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn code(k: K) -> Option<u8> {
    Some(match k {
        K::Unexpected => 10,
        K::Mac => 20,
        K::Overflow => 22,
        K::Illegal => 47,
        K::Decode => 50,
        K::Decrypt => 51,
        K::Alert | K::Io => return None,
    })
}
/// The alerts among what the client sent: (number, what follows the last one is empty, the last
/// one's plaintext if it can be read, whether it is protected).
struct Sent {
    alerts: usize,
    last_is_alert: bool,
    plain: Option<Vec<u8>>,
    after_ccs: bool,
    body: usize,
}
fn sent(net: &Shared<Server>, d: &num_bigint::BigUint) -> Result<Sent, String> {
    let n = net.net();
    let (recs, used) = wire::split_records(&n.c2s);
    if used != n.c2s.len() {
        return Err("the client left an incomplete record behind".into());
    }
    let ccs = recs.iter().position(|r| r.0 == 20);
    let alerts = recs.iter().filter(|r| r.0 == 21).count();
    let Some(l) = recs.last() else { return Err("the client sent nothing".into()) };
    let last = recs.len() - 1;
    let after = ccs.map_or(false, |c| last > c);
    let plain = if !after {
        Some(l.2.clone())
    } else {
        client_keys(&n.s2c, &n.c2s, d).map(|k| {
            let seq = (last - ccs.unwrap() - 1) as u64;
            let ad = refr::tls_ad(seq, l.0, l.1, l.2.len().wrapping_sub(16) & 0xffff);
            refr::aead_open(&k.cw, &refr::tls_nonce(&k.civ, seq), &ad, &l.2).unwrap_or_default()
        })
    };
    Ok(Sent { alerts, last_is_alert: l.0 == 21, plain, after_ccs: after, body: l.2.len() })
}
fn check(c: &Scenario, ctx: &mut Ctx) -> R {
    let r = run(c)?;
    let e = match &r.result {
        Ok(_) => return Ok(()), // whether it may succeed is C17
        Err(e) => e,
    };
    let Some(k) = kind_of(e.kind) else { return Err(format!("a failed handshake is reported as {:?}: {}", e.kind, e.desc)) };
    if let Verdict::Reject(kinds, why) = &r.judged.verdict {
        if !r.judged.soft && !kinds.contains(&k) {
            return Err(format!("{why}: reported as {:?} ({}), fitting would be {kinds:?}", e.kind, e.desc));
        }
        ctx.label(format!("{k:?}: {why}"));
    }
    let s = sent(&r.net, &c.cfg.key.scalar())?;
    match code(k) {
        None => {
            if k == K::Io && s.alerts > 0 {
                return Err("an alert was sent although the transport failed".into());
            }
            if s.alerts > 1 {
                return Err(format!("{} alerts were sent", s.alerts));
            }
        }
        Some(want) => {
            ctx.nt();
            if s.alerts != 1 || !s.last_is_alert {
                return Err(format!("{:?}: {} alerts were sent (the last record {} one)", e.kind, s.alerts, if s.last_is_alert { "is" } else { "is not" }));
            }
            if s.after_ccs {
                ctx.label("protected alert");
            }
            match &s.plain {
                Some(p) if p[..] == [2, want] => {}
                Some(p) => return Err(format!("{:?}: the alert reads {} {}, expected {}", e.kind, hex(p), if s.after_ccs { "after the client switched to encryption (empty: it does not decrypt)" } else { "" }, hex(&[2, want]))),
                None if s.body == 18 => {}
                None => return Err(format!("the alert after the change cipher spec is {} bytes long", s.body)),
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Io {
    cfg: Cfg,
    entropy: u64,
    write: bool,
    at: u32,
    fault: Fault,
}
fn io_strat() -> BoxedStrategy<Io> {
    let f = prop_oneof![4 => (0u8..8).prop_map(Fault::Dead), 2 => (0u8..8).prop_map(Fault::Once), 1 => Just(Fault::Eof)];
    (small_cfg(), any::<u64>(), any::<bool>(), any::<u32>(), f).prop_map(|(cfg, entropy, write, at, fault)| Io { cfg, entropy, write, at, fault }).boxed()
}
fn io(c: &Io, ctx: &mut Ctx) -> R {
    getrandom::set_entropy(&[], c.entropy);
    let net = Net::new(Server::new(c.cfg.clone()));
    {
        let mut n = net.net();
        if c.write {
            n.wfault = Some((pick(c.at, 270) as u64, c.fault));
        } else {
            n.rfault = Some((pick(c.at, 400) as u64, c.fault));
        }
    }
    let r = connect(&net)?;
    let n = net.net();
    if n.faults_hit == 0 {
        return Ok(());
    }
    ctx.nt();
    match r {
        Ok(_) => return Err("the handshake succeeded over a transport that failed".into()),
        Err(e) => {
            if kind_of(e.kind) != Some(K::Io) {
                return Err(format!("a transport failure is reported as {:?}: {}", e.kind, e.desc));
            }
        }
    }
    // nothing more was sent than an undisturbed client would have sent, alerts in particular
    let (recs, used) = wire::split_records(&n.c2s);
    let rest = &n.c2s[used..];
    if recs.iter().any(|r| r.0 == 21) || (rest.first() == Some(&21)) {
        return Err("an alert was sent although the transport failed".into());
    }
    let order = [22u8, 22, 20, 22];
    if recs.len() > 4 || recs.iter().zip(order).any(|(r, o)| r.0 != o) {
        return Err("the client kept sending after the transport failed".into());
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C21",
        assumptions: &[
            "which kinds fit a cause is decided by the judge from the bytes the client saw; where two causes coincide either kind passes",
            "when an alert from the server ends the handshake, whether the client answers with an alert of its own is left open",
            "an alert sealed under keys the harness cannot derive (replaced key share) is checked for its size only",
        ],
        facets: vec![
            facet(Facet {
                name: "alerts",
                rule: "handshakes with 0..3 of 40 kinds of deviation, as for C17; the error kind against the judge, the last record against the alert that belongs to it; non-trivial: the handshake failed with a kind that has an alert code",
                quick: 32_000,
                thorough: 2_000_000,
                shrink: 300,
                strategy: scenario,
                check,
            }),
            facet(Facet {
                name: "transport",
                rule: "transport failures and ends of stream at any byte, reading or writing; non-trivial: the failure was reached",
                quick: 8_000,
                thorough: 400_000,
                shrink: 200,
                strategy: io_strat,
                check: io,
            }),
        ],
    })
}
