//! Directed generation: numbers and byte strings that occur in husk's source, most of all in lines
//! that the pinned tree does not have, are mixed into what the generators produce (as lengths,
//! counts, integers and contents). This only steers what is tried; what is judged is behaviour.
use proptest::prelude::*;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::collections::{BTreeSet, HashMap};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Lits {
    /// numbers of the lines that are new, and what follows from them (neighbours, multiples)
    pub fresh: Vec<u64>,
    /// numbers of the lines the pinned tree has too
    pub base: Vec<u64>,
    /// byte patterns made from either
    pub fresh_bytes: Vec<Vec<u8>>,
    pub base_bytes: Vec<Vec<u8>>,
}
fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn sources(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}
/// Numbers (also written as shifts) and byte strings of a line.
pub fn scan(line: &str) -> (Vec<u64>, Vec<Vec<u8>>) {
    let b = line.as_bytes();
    let (mut nums, mut strs): (Vec<u64>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut i = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut shift_of: Option<u64> = None;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => break,
            b'"' => {
                let bin = i > 0 && b[i - 1] == b'b';
                let mut s = vec![];
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' && i + 1 < b.len() {
                        i += 1;
                        if b[i] == b'x' && i + 2 < b.len() {
                            let h = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
                            s.push(h.unwrap_or(0));
                            i += 3;
                            continue;
                        }
                        s.push(match b[i] {
                            b'n' => 10,
                            b'0' => 0,
                            b'r' => 13,
                            c => c,
                        });
                    } else {
                        s.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                if bin && !s.is_empty() && s.len() <= 64 {
                    strs.push(s);
                }
                shift_of = None;
            }
            b'b' if b.get(i + 1) == Some(&b'\'') && b.get(i + 3) == Some(&b'\'') => {
                nums.push(b[i + 2] as u64);
                i += 4;
            }
            c if c.is_ascii_digit() => {
                let s = i;
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                let t: String = line[s..i].replace('_', "");
                let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t).to_string();
                let v = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16)
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2)
                } else {
                    t.parse()
                };
                if let Ok(v) = v {
                    nums.push(v);
                    if let Some(a) = shift_of.take() {
                        if v < 64 {
                            nums.push(a.wrapping_shl(v as u32));
                        }
                    }
                    let rest = line[i..].trim_start();
                    if rest.starts_with("<<") {
                        shift_of = Some(v);
                        i = line.len() - rest.len() + 2;
                        while i < b.len() && b[i] == b' ' {
                            i += 1;
                        }
                        continue;
                    }
                }
            }
            c if word(c) => {
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                // a quote may follow a b
                if i < b.len() && b[i] == b'\'' {
                    i += 1;
                }
            }
            b' ' => i += 1,
            _ => {
                shift_of = None;
                i += 1;
            }
        }
    }
    (nums, strs)
}
fn patterns(nums: &[u64], strs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v: BTreeSet<Vec<u8>> = strs.iter().cloned().collect();
    for n in nums {
        for w in [1usize, 2, 3, 4, 8] {
            if w < 8 && *n >> (8 * w) != 0 {
                continue;
            }
            if w > 1 && *n < 256 && w != 2 {
                continue;
            }
            v.insert(n.to_be_bytes()[8 - w..].to_vec());
            v.insert(n.to_le_bytes()[..w].to_vec());
        }
    }
    v.into_iter().collect()
}
fn load() -> Lits {
    let mut known: HashMap<u64, i64> = HashMap::new();
    for l in include_str!("../base_lines.txt").lines() {
        if let Some((h, n)) = l.split_once(' ') {
            known.insert(u64::from_str_radix(h, 16).unwrap_or(0), n.parse().unwrap_or(0));
        }
    }
    let root = std::env::var("HV_HUSK_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut files = vec![];
    sources(std::path::Path::new(&root), &mut files);
    let (mut fresh, mut base): (BTreeSet<u64>, BTreeSet<u64>) = Default::default();
    let (mut fs, mut bs): (BTreeSet<Vec<u8>>, BTreeSet<Vec<u8>>) = Default::default();
    for f in files {
        let Ok(t) = std::fs::read_to_string(&f) else { continue };
        // runs of new lines belong together
        let mut run: Vec<u64> = vec![];
        let mut runs: Vec<Vec<u64>> = vec![];
        for line in t.split("#[cfg(test)]").next().unwrap_or("").lines() {
            let l = line.trim();
            if l.is_empty() {
                continue;
            }
            let (nums, strs) = scan(l);
            let left = known.entry(fnv(l)).or_default();
            *left -= 1;
            if *left >= 0 {
                base.extend(nums);
                bs.extend(strs);
                runs.push(std::mem::take(&mut run));
                continue;
            }
            // numbers next to a named constant: its value is one of few
            let named = l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).any(|w| w.len() > 3 && w.bytes().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == b'_') && w.bytes().any(|c| c.is_ascii_uppercase()));
            if named {
                for v in nums.iter().filter(|v| **v < 10_000) {
                    for c in [16u64, 32, 64, 1 << 14, (1 << 14) + 2048] {
                        fresh.extend([c.wrapping_sub(*v), c + v]);
                        fresh.extend(c.checked_div(*v));
                    }
                }
            }
            run.extend(nums);
            fs.extend(strs);
        }
        runs.push(run);
        for nums in runs {
            for (i, v) in nums.iter().enumerate() {
                let v = *v;
                fresh.extend([v, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_mul(2)]);
                if v > 2 {
                    // multiples, as for x % v == 0, and units of blocks
                    for m in [3, 5, 16, 64, 16384] {
                        fresh.extend([v.saturating_mul(m), v.saturating_add(1).saturating_mul(m), v.saturating_mul(m).saturating_add(1)]);
                    }
                }
                if v > 24 {
                    // the same with headers and tags taken off or put on
                    for h in [2, 3, 4, 5, 8, 9, 13, 16, 20, 21] {
                        fresh.extend([v - h, v.saturating_add(h)]);
                    }
                }
                // two numbers close to each other, as in x % a == b
                for o in nums.iter().skip(i.saturating_sub(3)).take(7).copied() {
                    if v > 1 && o != v {
                        for k in 1..6u64 {
                            fresh.insert(v.saturating_mul(k).saturating_add(o));
                        }
                        fresh.extend([v.wrapping_sub(o), v.saturating_mul(o)]);
                        if v < 256 && o < 256 {
                            fresh.insert(v << 8 | o);
                        }
                    }
                }
                // bytes one after the other
                for n in 2..=8 {
                    if let Some(w) = nums.get(i..i + n) {
                        if w.iter().all(|x| *x < 256) {
                            fs.insert(w.iter().map(|x| *x as u8).collect());
                        }
                    }
                }
            }
        }
    }
    // nothing is gained from what every generator makes anyway
    let fresh: Vec<u64> = fresh.into_iter().collect();
    let base: Vec<u64> = base.into_iter().filter(|v| *v > 4).collect();
    let short: Vec<u64> = fresh.iter().copied().filter(|v| *v > 1).collect();
    Lits { fresh_bytes: patterns(&short, &fs.into_iter().collect::<Vec<_>>()), base_bytes: patterns(&base, &bs.into_iter().collect::<Vec<_>>()), fresh, base }
}
pub fn lits() -> &'static Lits {
    static L: OnceLock<Lits> = OnceLock::new();
    L.get_or_init(load)
}
/// How often a value is replaced: often when there are new lines, else rarely.
fn weight(fresh: bool) -> f64 {
    if fresh {
        0.12
    } else {
        0.02
    }
}

pub trait Num: Copy + Ord + std::fmt::Debug + 'static {
    fn from(v: u64) -> Option<Self>;
    fn wide(self) -> u64;
}
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t {
    fn from(v: u64) -> Option<$t> { <$t>::try_from(v).ok() }
    fn wide(self) -> u64 { self as u64 }
})* } }
num!(u8, u16, u32, u64, usize);

/// Mix the literals that lie in the strategy's own range into it.
pub fn spice<T: Num>(s: BoxedStrategy<T>) -> BoxedStrategy<T> {
    spice_by(s, 1.0)
}
pub fn spice_by<T: Num>(s: BoxedStrategy<T>, share: f64) -> BoxedStrategy<T> {
    let l = lits();
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::deterministic_rng(RngAlgorithm::ChaCha));
    let (mut lo, mut hi) = (u64::MAX, 0);
    for _ in 0..48 {
        let v = s.new_tree(&mut r).expect("a strategy without filters").current().wide();
        (lo, hi) = (lo.min(v), hi.max(v));
    }
    let fit = |v: &[u64]| -> Vec<T> { v.iter().filter(|x| lo <= **x && **x <= hi).filter_map(|x| T::from(*x)).collect() };
    let (fresh, mut from) = (fit(&l.fresh), vec![]);
    let is_fresh = !fresh.is_empty();
    if is_fresh {
        from = fresh;
    } else if hi > 300 {
        from = fit(&l.base);
    }
    if from.is_empty() || hi - lo < 8 {
        return s;
    }
    let n = from.len();
    // the original comes first: values shrink towards it
    let p = weight(is_fresh) * share;
    prop_oneof![
        ((1.0 - p) * 1000.0) as u32 => s,
        ((p * 1000.0) as u32).max(1) => (0..n).prop_map(move |i| from[i]),
    ]
    .boxed()
}
/// Put one of the literals somewhere into byte strings.
pub fn season(s: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Vec<u8>> {
    let l = lits();
    let (from, fresh) = if l.fresh_bytes.is_empty() { (&l.base_bytes, false) } else { (&l.fresh_bytes, true) };
    if from.is_empty() {
        return s;
    }
    let over = proptest::option::weighted(weight(fresh), (0..from.len(), 0u8..4, any::<u16>()));
    (s, over)
        .prop_map(move |(mut v, o)| {
            if let Some((i, how, at)) = o {
                let p = &from[i];
                let n = v.len();
                let k = p.len().min(n);
                let at = match how {
                    0 => 0,
                    1 => n - k,
                    _ => (at as usize) % (n - k + 1),
                };
                v[at..at + k].copy_from_slice(&p[..k]);
            }
            v
        })
        .boxed()
}
/// Four bytes for the start, end or all of a bulk value.
pub fn word() -> Option<BoxedStrategy<u32>> {
    let l = lits();
    if l.fresh_bytes.is_empty() {
        return None;
    }
    let f = &l.fresh_bytes;
    Some((0..f.len()).prop_map(move |i| f[i].iter().chain([0; 4].iter()).take(4).fold(0u32, |a, b| a << 8 | *b as u32)).boxed())
}
