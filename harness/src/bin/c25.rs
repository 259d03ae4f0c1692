use husk::crypto::wrapping::{ToWrapping, Wrapping};
use husk::tls_item::TlsItem;
use husk::util::{self, ReadExt, WriteExt};
use hv::fw::*;
use hv::gen::*;
use hv::net::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Op {
    Be(u8, u64),
    Le(u8, u64),
    Item(u8, u64),
    Raw(Blob),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Stream {
    ops: Vec<Op>,
    rd: Vec<u16>,
    wr: Vec<u16>,
    /// bytes missing at the end
    cut: u8,
}
fn num() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => hv::lits::spice(any::<u64>().boxed()),
        1 => (0u32..64).prop_map(|k| 1u64 << k),
        1 => (0u32..64).prop_map(|k| (1u64 << k) - 1),
        1 => (0u32..8, any::<u8>()).prop_map(|(k, b)| (b as u64) << (8 * k)),
        1 => (0u32..8, any::<u8>()).prop_map(|(k, b)| !((b as u64) << (8 * k))),
    ]
    .boxed()
}
fn stream_strat() -> BoxedStrategy<Stream> {
    let op = prop_oneof![
        4 => (0u8..4, num()).prop_map(|(w, v)| Op::Be(w, v)),
        4 => (0u8..4, num()).prop_map(|(w, v)| Op::Le(w, v)),
        2 => (0u8..4, num()).prop_map(|(w, v)| Op::Item(w, v)),
        1 => blob(prop_oneof![1600 => 0u32..40, 400 => 0u32..5000, 1 => 5000u32..150_000].boxed()).prop_map(Op::Raw),
    ];
    let sched = || prop_oneof![1 => Just(vec![]), 3 => vec(0u16..10, 1..6usize), 1 => Just(vec![1u16])];
    (vec(op, 1..14usize), sched(), sched(), 0u8..20).prop_map(|(ops, rd, wr, cut)| Stream { ops, rd, wr, cut }).boxed()
}
fn define(op: &Op) -> Vec<u8> {
    let be = |w: u8, v: u64| -> Vec<u8> { (0..1u32 << w).rev().map(|i| (v >> (8 * i)) as u8).collect() };
    match op {
        Op::Be(w, v) | Op::Item(w, v) => be(*w, *v),
        Op::Le(w, v) => {
            let mut b = be(*w, *v);
            b.reverse();
            b
        }
        Op::Raw(b) => b.expand(),
    }
}
fn stream(c: &Stream, ctx: &mut Ctx) -> R {
    let net = Net::new(NoPeer);
    net.net().fuel = u64::MAX;
    net.net().rd = c.rd.clone();
    net.net().wr = c.wr.clone();
    let mut w = net.writer();
    for (i, op) in c.ops.iter().enumerate() {
        let before = net.net().c2s.len();
        let r = match op {
            Op::Be(0, v) | Op::Le(0, v) => w.write_u8(*v as u8),
            Op::Be(1, v) => w.write_be_u16(*v as u16),
            Op::Be(2, v) => w.write_be_u32(*v as u32),
            Op::Be(_, v) => w.write_be_u64(*v),
            Op::Le(1, v) => w.write_le_u16(*v as u16),
            Op::Le(2, v) => w.write_le_u32(*v as u32),
            Op::Le(_, v) => w.write_le_u64(*v),
            Op::Item(k, v) => match k {
                0 => (*v as u8).tls_write(&mut w),
                1 => (*v as u16).tls_write(&mut w),
                2 => (*v as u32).tls_write(&mut w),
                _ => v.tls_write(&mut w),
            }
            .map_err(|_| std::io::ErrorKind::Other.into()),
            Op::Raw(b) => std::io::Write::write_all(&mut w, &b.expand()),
        };
        if let Err(e) = r {
            return Err(format!("write {i} failed: {e}"));
        }
        let n = net.net();
        if n.c2s[before..] != define(op)[..] {
            return Err(format!("write {i} ({op:?}) gave {}", hex(&n.c2s[before..])));
        }
    }
    let total = {
        let mut n = net.net();
        let all = n.c2s.clone();
        let keep = all.len().saturating_sub(if c.cut > 12 { c.cut as usize - 12 } else { 0 });
        n.s2c = all[..keep].to_vec();
        keep
    };
    if c.ops.iter().any(|o| matches!(o, Op::Be(w, v) | Op::Le(w, v) | Op::Item(w, v) if *w > 0 && v.swap_bytes() != *v)) {
        ctx.nt();
    }
    let mut r = net.reader();
    let mut at = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let def = define(op);
        at += def.len();
        let mask = |w: u8, v: u64| if w >= 3 { v } else { v & ((1u64 << (8 << w)) - 1) };
        let (got, want): (std::io::Result<u64>, u64) = match op {
            Op::Be(0, v) | Op::Le(0, v) => (r.read_u8().map(u64::from), mask(0, *v)),
            Op::Be(1, v) => (r.read_be_u16().map(u64::from), mask(1, *v)),
            Op::Be(2, v) => (r.read_be_u32().map(u64::from), mask(2, *v)),
            Op::Be(_, v) => (r.read_be_u64(), *v),
            Op::Le(1, v) => (r.read_le_u16().map(u64::from), mask(1, *v)),
            Op::Le(2, v) => (r.read_le_u32().map(u64::from), mask(2, *v)),
            Op::Le(_, v) => (r.read_le_u64(), *v),
            Op::Item(k, v) => (
                match k {
                    0 => u8::tls_read(&mut r).map(u64::from),
                    1 => u16::tls_read(&mut r).map(u64::from),
                    2 => u32::tls_read(&mut r).map(u64::from),
                    _ => u64::tls_read(&mut r),
                }
                .map_err(|_| std::io::ErrorKind::Other.into()),
                mask(*k, *v),
            ),
            Op::Raw(b) => {
                let n = b.len as usize;
                let x = if n % 2 == 0 {
                    ReadExt::read_exact(&mut r, n)
                } else {
                    let mut v = vec![0xa5; n];
                    r.fill_exact(&mut v).map(|_| v)
                };
                (x.map(|v| (v == def) as u64), 1)
            }
        };
        match got {
            Ok(g) if at <= total => {
                if g != want {
                    return Err(format!("read {i} ({op:?}) gave {g:#x}, not {want:#x}"));
                }
            }
            Ok(g) => return Err(format!("read {i} ({op:?}) gave {g:#x} though the stream had ended")),
            Err(e) if at <= total => return Err(format!("read {i} ({op:?}) failed: {e}")),
            Err(_) => {
                ctx.label("stream ended inside");
                return Ok(());
            }
        }
        if net.net().rpos != at {
            return Err(format!("read {i} ({op:?}) consumed the wrong number of bytes"));
        }
    }
    Ok(())
}
fn arrays(v: &u64, ctx: &mut Ctx) -> R {
    let v = *v;
    if v.swap_bytes() != v {
        ctx.nt();
    }
    let be8: Vec<u8> = (0..8).rev().map(|i| (v >> (8 * i)) as u8).collect();
    let le8: Vec<u8> = (0..8).map(|i| (v >> (8 * i)) as u8).collect();
    if util::u64_be_array(v)[..] != be8[..] {
        return Err(format!("u64_be_array({v:#x}) = {:?}", util::u64_be_array(v)));
    }
    if util::u64_le_array(v)[..] != le8[..] {
        return Err(format!("u64_le_array({v:#x}) = {:?}", util::u64_le_array(v)));
    }
    if util::u32_be_array(v as u32)[..] != be8[4..] {
        return Err(format!("u32_be_array({:#x})", v as u32));
    }
    if util::u32_le_array(v as u32)[..] != le8[..4] {
        return Err(format!("u32_le_array({:#x})", v as u32));
    }
    macro_rules! narrow {
        ($($t:ty),*) => {$(
            let w = Wrapping(v as $t);
            let x = v as $t as u64;
            let got = (w.to_w8().0 as u64, w.to_w16().0 as u64, w.to_w32().0 as u64, w.to_w64().0);
            let want = (x % (1 << 8), x % (1 << 16), x % (1 << 32), x);
            if got != want {
                return Err(format!("narrowing {x:#x} of type {} gave {got:x?}", stringify!($t)));
            }
        )*};
    }
    narrow!(u8, u16, u32, u64);
    Ok(())
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Cmp {
    a: Blob,
    /// (position, mask) changes; masks may be 0
    d: Vec<(u32, u8)>,
}
fn cmp_strat() -> BoxedStrategy<Cmp> {
    let m = prop_oneof![3 => (0u32..8).prop_map(|b| 1u8 << b), 1 => any::<u8>()];
    (blob(prop_oneof![4 => 0u32..40, 1 => 0u32..2000].boxed()), vec((any::<u32>(), m), 0..3usize)).prop_map(|(a, d)| Cmp { a, d }).boxed()
}
fn cmp(c: &Cmp, ctx: &mut Ctx) -> R {
    let a = c.a.expand();
    let mut b = a.clone();
    if !b.is_empty() {
        for (p, m) in &c.d {
            let k = pick(*p, b.len());
            b[k] ^= m;
        }
    }
    if a.iter().zip(&b).filter(|(x, y)| x != y).map(|(x, y)| (x ^ y).count_ones()).sum::<u32>() <= 2 {
        ctx.nt();
    }
    let want = a.iter().zip(&b).all(|(x, y)| x == y);
    for (x, y) in [(&a, &b), (&b, &a)] {
        let got = util::crypto_compare(x, y);
        if got != want {
            return Err(if x.len() > 5000 {
                format!("comparing two strings of {} bytes gives {got}", x.len())
            } else {
                format!("comparing {} and {} gives {got}", hex(x), hex(y))
            });
        }
    }
    Ok(())
}
/// Long strings, and many differences: runs of (from, length, mask).
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct CmpLong {
    a: Blob,
    runs: Vec<(u32, u32, u8)>,
}
fn long_strat() -> BoxedStrategy<CmpLong> {
    let len = prop_oneof![30 => 200u32..3000, 10 => 65_500u32..67_000, 2 => 67_000u32..300_000, 1 => (-3i32..300).prop_map(|d| ((1 << 24) + d) as u32)];
    let run = prop_oneof![3 => Just(1u32), 3 => (1u32..5).prop_map(|k| k * 256), 1 => Just(65_536u32), 1 => (0u32..17).prop_map(|k| 1 << k), 2 => 1u32..600];
    let at = prop_oneof![2 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX)];
    (blob(len.boxed()), vec((at, run, any::<u8>()), 0..3usize)).prop_map(|(a, runs)| CmpLong { a, runs }).boxed()
}
fn cmp_long(c: &CmpLong, ctx: &mut Ctx) -> R {
    let a = c.a.expand();
    let mut b = a.clone();
    for (at, n, m) in &c.runs {
        let n = (*n as usize).min(b.len());
        let k = pick(*at, b.len() - n + 1);
        b[k..k + n].iter_mut().for_each(|x| *x ^= m);
    }
    ctx.nt();
    ctx.label(if a == b { "equal" } else { "different" });
    for (x, y) in [(&a, &b), (&b, &a)] {
        let got = util::crypto_compare(x, y);
        if got != (a == b) {
            return Err(format!("comparing two strings of {} bytes that differ in {} gives {got}", a.len(), a.iter().zip(&b).filter(|(x, y)| x != y).count()));
        }
    }
    Ok(())
}
fn main() {
    hv::fw::main(Property {
        id: "C25",
        assumptions: &["little-endian host (the code converts by reinterpreting memory)"],
        facets: vec![
            facet(Facet {
                name: "stream",
                rule: "up to 13 integers of 1, 2, 4, 8 bytes in both orders and raw strings, written and read back through streams that move 1..9 bytes a call, interrupt, and may end early; non-trivial: some multi-byte value is not a palindrome",
                quick: 3_200_000,
                thorough: 160_000_000,
                shrink: 2000,
                strategy: stream_strat,
                check: stream,
            }),
            facet(Facet {
                name: "arrays",
                rule: "64-bit values (random, powers of two, single bytes, complements); non-trivial: not a byte palindrome",
                quick: 16_000_000,
                thorough: 800_000_000,
                shrink: 500,
                strategy: num,
                check: arrays,
            }),
            facet(Facet {
                name: "compare",
                rule: "byte strings of 0..2000 bytes and copies with 0..2 changed bytes; non-trivial: equal or at most two differing bits",
                quick: 8_000_000,
                thorough: 400_000_000,
                shrink: 1000,
                strategy: cmp_strat,
                check: cmp,
            }),
            facet(Facet {
                name: "comparelong",
                rule: "byte strings of 200..300000 bytes, rarely 2^24 and a few, with 0..2 runs of changed bytes, mostly of powers of two and multiples of 256; all non-trivial",
                quick: 20_000,
                thorough: 1_000_000,
                shrink: 100,
                strategy: long_strat,
                check: cmp_long,
            }),
        ],
    })
}
