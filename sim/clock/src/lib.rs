//! The fine step clock. In the instrumented build (check.sh) the compiler calls
//! this at every basic block of the library, of pest and of the simulator: it
//! counts steps and is the preemption point of the simulated threads of C09.
use std::cell::Cell;

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
    let _ = N.try_with(|n| {
        let x = n.get() + 1;
        n.set(x);
        if x > LIMIT.get() {
            LIMIT.set(u64::MAX);
            over();
        }
        if let Some(f) = HOOK.get() {
            // not for the hook itself
            HOOK.set(None);
            f();
            HOOK.set(Some(f));
        }
    });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        unsafe {
            *p = 1;
            p = p.add(1);
        }
    }
}
#[cold]
fn over() -> ! {
    eprintln!("simulation step budget exceeded (basic blocks)");
    std::process::exit(97);
}
pub fn steps() -> u64 {
    N.get()
}
/// the steps from now on that end the run
pub fn limit(n: u64) {
    LIMIT.set(N.get().saturating_add(n));
}
pub fn hook(f: Option<fn()>) {
    HOOK.set(f);
}
