//! Stand-in for `getrandom` 0.2 (what `rand::rngs::OsRng` draws from), so that every run is a pure
//! function of the generated case: each thread has an entropy stream made of an explicit prefix
//! followed by a deterministic generator, and a log of what was handed out.
use std::cell::RefCell;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(core::num::NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { core::num::NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> core::num::NonZeroU32 {
        self.0
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "entropy error {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<core::num::NonZeroU32> for Error {
    fn from(code: core::num::NonZeroU32) -> Self {
        Self(code)
    }
}
impl From<Error> for std::io::Error {
    fn from(err: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, err)
    }
}

pub struct Stream {
    prefix: Vec<u8>,
    pos: usize,
    state: u64,
    block: [u8; 8],
    left: usize,
    pub log: Vec<u8>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Stream {
    const fn new() -> Stream {
        Stream { prefix: Vec::new(), pos: 0, state: 0x1234_5678, block: [0; 8], left: 0, log: Vec::new() }
    }
    /// A stream with this prefix and seed, to be put in place with `swap_entropy`.
    pub fn seeded(prefix: &[u8], seed: u64) -> Stream {
        let mut s = Stream::new();
        s.prefix = prefix.to_vec();
        s.state = seed;
        s
    }
    fn byte(&mut self) -> u8 {
        if self.pos < self.prefix.len() {
            self.pos += 1;
            return self.prefix[self.pos - 1];
        }
        if self.left == 0 {
            self.block = splitmix(&mut self.state).to_le_bytes();
            self.left = 8;
        }
        self.left -= 1;
        self.block[self.left]
    }
}

thread_local! {
    static S: RefCell<Stream> = const { RefCell::new(Stream::new()) };
}

/// Restart this thread's entropy: `prefix` first, then a stream determined by `seed`.
pub fn set_entropy(prefix: &[u8], seed: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        *s = Stream::new();
        s.prefix = prefix.to_vec();
        s.state = seed;
        // no allocation while the code under test draws (C26 watches it)
        s.log.reserve(4096);
    })
}

/// Exchange this thread's entropy stream for another.
pub fn swap_entropy(other: &mut Stream) {
    S.with(|s| std::mem::swap(&mut *s.borrow_mut(), other))
}

/// Everything handed out since the last `set_entropy`.
pub fn entropy_log() -> Vec<u8> {
    S.with(|s| s.borrow().log.clone())
}

/// Forget what was handed out; the memory for it is kept.
pub fn forget_log() {
    S.with(|s| s.borrow_mut().log.clear())
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    S.with(|s| {
        let mut s = s.borrow_mut();
        for d in dest.iter_mut() {
            *d = s.byte();
        }
        s.log.extend_from_slice(dest);
    });
    Ok(())
}

pub fn getrandom_uninit(dest: &mut [core::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    let d: &mut [u8] = unsafe { &mut *(dest as *mut [core::mem::MaybeUninit<u8>] as *mut [u8]) };
    for b in d.iter_mut() {
        *b = 0;
    }
    getrandom(d)?;
    Ok(d)
}
