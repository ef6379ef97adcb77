//! Own the hash-map iteration order.
//!
//! std seeds each thread's `RandomState` from `getrandom`; defining the symbol here makes the
//! seed an input of the run: 0 by default, so that runs are reproducible, and an enumeration
//! variable for the properties which depend on iteration order.

use std::sync::atomic::{AtomicU64, Ordering};

pub static SEED: AtomicU64 = AtomicU64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    CALLS.fetch_add(1, Ordering::SeqCst);
    let mut s = SEED.load(Ordering::SeqCst).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def0;
    for i in 0..len {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        *buf.add(i) = s as u8;
    }
    len as isize
}

/// What's handed to the thread and back. The threads never run at the same time (the result is waited
/// for, and all of it is handed over), so it's alright for it not to be `Send`.
struct Hand<T>(T);
unsafe impl<T> Send for Hand<T> {}

/// Run `f` on a fresh thread whose hash maps are seeded with `seed`
pub fn with_seed<T: 'static>(seed: u64, f: impl FnOnce() -> T + 'static) -> std::thread::Result<T> {
    SEED.store(seed, Ordering::SeqCst);
    let f = Hand(f);
    let go = move || {
        let f = f;
        Hand((f.0)())
    };
    let r = std::thread::Builder::new().stack_size(16 << 20).spawn(go).expect("thread").join();
    SEED.store(0, Ordering::SeqCst);
    r.map(|h| h.0)
}
