//! Counts what the code under test allocates on this thread (C20 installs the allocator); the
//! simulated transport and peer pause the count while they run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ALL: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() && PAUSE.with(|p| p.get()) == 0 {
            if n > 0 {
                ALL.with(|a| a.set(a.get() + n as u64));
            }
            CUR.with(|c| {
                c.set(c.get() + n);
                PEAK.with(|p| p.set(p.get().max(c.get())));
            })
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}
/// Keeps the count stopped while it lives.
pub struct Pause;
pub fn pause() -> Pause {
    PAUSE.with(|p| p.set(p.get() + 1));
    Pause
}
impl Drop for Pause {
    fn drop(&mut self) {
        PAUSE.with(|p| p.set(p.get() - 1));
    }
}
/// Run and return the highest number of bytes held at once.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
/// Count what is held from here on, at first nothing.
pub fn reset() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
}
/// Run, counting. What is allocated inside must also be freed inside of some `counted`.
pub fn counted<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    ON.with(|o| o.set(true));
    let _off = Off;
    f()
}
/// Bytes held now.
pub fn live() -> i64 {
    CUR.with(|c| c.get())
}
/// The most that was held since the last call.
pub fn peak() -> i64 {
    PEAK.with(|p| p.replace(CUR.with(|c| c.get())))
}
/// All that was ever counted as allocated, freed or not.
pub fn total() -> u64 {
    ALL.with(|a| a.get())
}
