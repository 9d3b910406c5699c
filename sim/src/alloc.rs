//! The allocator is the simulator's step clock: every (re)allocation of the
//! running simulation counts as one step, a run that exceeds its budget is
//! ended at a deterministic point. It is also a preemption point for the
//! simulated threads of C09 (see sched.rs).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}
/// allocated (not live) bytes a single run may ask for
const BYTE_LIMIT: u64 = 24 << 30;

#[inline]
fn step(size: usize) {
    let _ = STEPS.try_with(|s| {
        let n = s.get() + 1;
        s.set(n);
        LIMIT.with(|l| {
            if n > l.get() {
                over("allocation steps");
            }
        });
        BYTES.with(|b| {
            let t = b.get().saturating_add(size as u64);
            b.set(t);
            if t > BYTE_LIMIT && LIMIT.with(|l| l.get()) != u64::MAX {
                over("allocated bytes");
            }
        });
        HOOK.with(|h| {
            if let Some(f) = h.get() {
                f()
            }
        });
    });
}
fn over(what: &str) -> ! {
    LIMIT.with(|l| l.set(u64::MAX));
    eprintln!("simulation step budget exceeded ({what})");
    std::process::exit(97);
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        step(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        step(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        step(n);
        System.realloc(p, l, n)
    }
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
/// bytes asked for since the run began
pub fn bytes() -> u64 {
    BYTES.with(|s| s.get())
}
pub fn limit(n: u64) {
    STEPS.with(|s| s.set(0));
    BYTES.with(|s| s.set(0));
    LIMIT.with(|l| l.set(n));
}
pub fn hook(f: Option<fn()>) {
    HOOK.with(|h| h.set(f));
}

// ------------------------------------------------------------- randomness
// std seeds its hash maps from getrandom(2). In the simulator that source is
// the run's seed: HSEED is set before the run's thread starts.
static HSEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn set_hash_seed(s: u64) {
    HSEED.store(s, std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HSEED.load(std::sync::atomic::Ordering::SeqCst);
    let mut i = 0;
    while i < len {
        let v = crate::rng::splitmix(&mut x).to_le_bytes();
        let mut j = 0;
        while j < 8 && i < len {
            unsafe { *buf.add(i) = v[j] };
            i += 1;
            j += 1;
        }
    }
    len as isize
}
