//! Threads under a schedule. Every simulated thread is a real one, but only the
//! holder of the token runs; at each basic block (the step clock) it may have to
//! pass it on, as the run's explicit schedule says. Waiting for a lock of the
//! library passes the token on, too.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Default)]
struct State {
    /// who runs next and for how many steps
    slices: Vec<(u8, u32)>,
    next: usize,
    alive: Vec<bool>,
    /// steps of the slice just picked
    left: u64,
    /// after the end of the schedule: turns
    rr: usize,
    switches: Vec<(u32, u64)>,
    waits: u64,
    fruitless: u64,
}
struct Cellar(UnsafeCell<State>);
/// only the holder of the token touches it
unsafe impl Sync for Cellar {}
static S: Cellar = Cellar(UnsafeCell::new(State {
    slices: vec![],
    next: 0,
    alive: vec![],
    left: 0,
    rr: 0,
    switches: vec![],
    waits: 0,
    fruitless: 0,
}));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { &mut *S.0.get() }
}
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
const NOBODY: u32 = u32::MAX;
/// slices after the end of the schedule
const REST: u64 = 1 << 22;
thread_local! {
    static ME: Cell<u32> = const { Cell::new(NOBODY) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    /// steps this thread made under the schedule
    static MADE: Cell<u64> = const { Cell::new(0) };
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}
const FUTEX: i64 = 202;
fn turn_wait(me: u32) {
    loop {
        let t = TURN.load(SeqCst);
        if t == me {
            return;
        }
        // FUTEX_WAIT_PRIVATE
        unsafe { raw(FUTEX, &TURN as *const _ as usize, 128, t as usize, 0, 0, 0) };
    }
}
fn turn_give(to: u32) {
    TURN.store(to, SeqCst);
    // FUTEX_WAKE_PRIVATE, everybody
    unsafe { raw(FUTEX, &TURN as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
}
/// what the standard library blocks on
///
/// # Safety
/// as syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY);
    // FUTEX_WAIT, FUTEX_WAIT_BITSET
    if n == FUTEX && me != NOBODY && matches!(b & 127, 0 | 9) {
        let now = (*(a as *const AtomicU32)).load(SeqCst);
        if now != c as u32 {
            *__errno_location() = 11;
            return -1;
        }
        quiet(|| wait(me));
        return 0;
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// run without being preempted
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            QUIET.set(QUIET.get() - 1);
        }
    }
    QUIET.set(QUIET.get() + 1);
    let _b = Back;
    f()
}
fn pick(not: Option<u32>) -> u32 {
    let s = st();
    while s.next < s.slices.len() {
        let (w, n) = s.slices[s.next];
        s.next += 1;
        let w = w as usize % s.alive.len();
        if s.alive[w] && not != Some(w as u32) && n > 0 {
            s.left = n as u64;
            return w as u32;
        }
    }
    for _ in 0..s.alive.len() {
        s.rr = (s.rr + 1) % s.alive.len();
        if s.alive[s.rr] && not != Some(s.rr as u32) {
            s.left = REST;
            return s.rr as u32;
        }
    }
    NOBODY
}
fn pass_to(me: u32, to: u32) {
    if to != me {
        st().switches.push((to, MADE.get()));
        turn_give(to);
        turn_wait(me);
    }
    LEFT.set(st().left);
}
fn tick() {
    if QUIET.get() > 0 {
        return;
    }
    MADE.set(MADE.get() + 1);
    let l = LEFT.get();
    if l > 1 {
        LEFT.set(l - 1);
        return;
    }
    st().fruitless = 0;
    let me = ME.get();
    let to = pick(None);
    pass_to(me, to);
}
/// the thread waits for a lock: somebody else has to run
fn wait(me: u32) {
    let s = st();
    s.waits += 1;
    s.fruitless += 1;
    let to = pick(Some(me));
    if to == NOBODY || s.fruitless > 100_000 {
        eprintln!("simulated threads wait for each other");
        std::process::exit(97);
    }
    pass_to(me, to);
}
fn finish(me: u32) {
    let s = st();
    s.alive[me as usize] = false;
    s.fruitless = 0;
    ME.set(NOBODY);
    LEFT.set(0);
    turn_give(pick(None));
}
pub struct Stats {
    pub switches: Vec<(u32, u64)>,
    pub waits: u64,
    pub steps: u64,
}
/// run all tasks to the end
pub fn run<T: Send>(tasks: Vec<Box<dyn FnOnce() -> T + Send + '_>>, slices: &[(u8, u32)]) -> (Vec<Result<T, String>>, Stats) {
    let n = tasks.len();
    *st() = State { slices: slices.to_vec(), alive: vec![true; n], ..Default::default() };
    TURN.store(NOBODY, SeqCst);
    let steps = AtomicU32::new(0);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                let steps = &steps;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let me = i as u32;
                        turn_wait(me);
                        crate::alloc::limit(crate::parent::STEP_LIMIT);
                        ME.set(me);
                        LEFT.set(st().left);
                        crate::cov::hook(Some(tick));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                        crate::cov::hook(None);
                        steps.fetch_add((MADE.get() >> 4) as u32, SeqCst);
                        finish(me);
                        r.map_err(|_| crate::core::last_panic())
                    })
                    .expect("thread")
            })
            .collect();
        turn_give(pick(None));
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let s = std::mem::take(st());
    (out, Stats { switches: s.switches, waits: s.waits, steps: (steps.load(SeqCst) as u64) << 4 })
}
