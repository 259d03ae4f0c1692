# Eighth round: work out of proportion.
COST = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static ALL: AtomicU64 = AtomicU64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALL.fetch_add(l.size() as u64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn allocated(f: impl FnOnce()) -> u64 {
    let a = ALL.load(SeqCst);
    f();
    ALL.load(SeqCst) - a
}
fn least_time(f: impl Fn()) -> f64 {
    (0..3).map(|_| {
        let t = std::time::Instant::now();
        f();
        t.elapsed().as_secs_f64()
    }).fold(f64::MAX, f64::min)
}
'''
def T(id, edits, what, needs, demo):
    C(id, 'C30', edits, what, needs, COST + demo)
T('c30-collect', [('handshake.rs', '''        self.buf.extend(fragment);
''', '''        self.buf = [&self.buf[..], fragment].concat();
''')],
 'what has arrived of a message is copied for every record of it', 'a long chain of certificates in small records', r'''
fn main() {
    let cost = |n: usize| {
        let mut s = Server::new();
        s.certs = vec![vec![7; n]];
        s.frag = Some(3);
        let p = Pipe::new(s);
        let all = p.clone();
        // the flight is made by the first read, which is the same for both
        allocated(move || check(husk::TlsClient::new(all.clone(), all, rand::rngs::OsRng).is_ok(), "handshake"))
    };
    let (a, b) = (cost(15_000), cost(120_000));
    check(b < 30 * a, &format!("{b} against {a} bytes"));
}''')
T('c30-rest', [('tls.rs', '''        for fragment in data.chunks(RECORD_MAX_LEN) {
            let fragment = fragment.to_vec();
            let record''', '''        let mut rest = data.to_vec();
        while !rest.is_empty() {
            let tail = rest.split_off(rest.len().min(RECORD_MAX_LEN));
            let fragment = std::mem::replace(&mut rest, tail);
            let record''')],
 'what is left of a write is copied for every record', 'single writes of megabytes', r'''
fn main() {
    let cost = |n: usize| {
        let (p, mut c) = connected(Server::new());
        p.0.borrow_mut().c2s.reserve(2 * n + 100_000);
        let d = vec![1; n];
        allocated(|| c.write_all(&d).unwrap())
    };
    let (a, b) = (cost(1 << 20), cost(1 << 23));
    check(b < 20 * a, &format!("{b} against {a} bytes"));
}''')
T('c30-nonce-steps', [('tls.rs', '''                let seq_num = u64_be_array(self.write_count);
''', '''                // big-endian counter
                let mut seq_num = [0u8; 8];
                for _ in 0..self.write_count {
                    for b in seq_num.iter_mut().rev() {
                        *b = b.wrapping_add(1);
                        if *b != 0 {
                            break;
                        }
                    }
                }
''')],
 'the number of a record is counted up from nothing', 'many writes on one connection', r'''
fn main() {
    let cost = |n: usize| least_time(|| {
        let (_, mut c) = connected(Server::new());
        for _ in 0..n {
            c.write_all(b"a").unwrap();
        }
    });
    let (a, b) = (cost(8000), cost(64000));
    check(b < 25.0 * a, &format!("{b} against {a} s"));
}''')
T('c30-vector-size', [('tls_item.rs', '''                    let item: $item_ty = TlsItem::tls_read(reader)?;
                    items_size += item.tls_size();
                    items.push(item);
''', '''                    let item: $item_ty = TlsItem::tls_read(reader)?;
                    items.push(item);
                    items_size = items.iter().map(|item: &$item_ty| item.tls_size()).sum();
''')],
 'the size of a list is added up again for each item', 'chains of very many small certificates', r'''
fn main() {
    let cost = |n: usize| least_time(|| {
        let mut s = Server::new();
        s.certs = vec![vec![7; 1]; n];
        check(connect(s).1.is_ok(), "handshake");
    });
    let (a, b) = (cost(10_000), cost(80_000));
    check(b < 20.0 * a, &format!("{b} against {a} s"));
}''')
T('c30-keystream', [('crypto/chacha20.rs', '''        let mut ret: Vec<u8> = Vec::with_capacity(data.len());
''', '''        let mut ret: Vec<u8> = Vec::new();
'''), ('crypto/chacha20.rs', '''            ret.extend(xor_iter);
''', '''            // exactly as much as is needed
            ret.reserve_exact(chunk.len());
            ret = ret.iter().copied().chain(xor_iter).collect();
''')],
 'what has been encrypted is copied for each block', 'records of full size', r'''
fn main() {
    let cost = |u: usize| {
        let (p, mut c) = connected(Server::new());
        p.0.borrow_mut().c2s.reserve(4 << 20);
        let d = vec![1; u];
        allocated(|| for _ in 0..(1 << 20) / u {
            c.write_all(&d).unwrap()
        })
    };
    let (a, b) = (cost(1024), cost(8192));
    check(b < 3 * a, &format!("{b} against {a} bytes"));
}''')
