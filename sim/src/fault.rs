//! Failures of the caller's own code. Every callback of the simulated programs
//! is a point; the run's plan arms one of them, which then fails by an error
//! or by a panic.
use std::cell::RefCell;

#[derive(Default)]
pub struct Faults {
    pub count: u64,
    pub arm: u64,
    pub panic: bool,
    /// enclosing callbacks handle the failure and go on
    pub recover: bool,
    pub fired: bool,
    /// callbacks that ran after the failure
    pub after: u64,
    pub msg: String,
    /// where the serializing program is in its value
    pub path: Vec<usize>,
    /// what an enclosing program left out after a failure
    pub removed: Option<Vec<usize>>,
}
thread_local! {
    static F: RefCell<Faults> = RefCell::new(Faults::default());
}
thread_local! {
    static POINT: std::cell::Cell<Option<fn(u64)>> = const { std::cell::Cell::new(None) };
}
/// called at the beginning of every callback, with its number
pub fn each_point(f: Option<fn(u64)>) {
    POINT.set(f)
}
pub fn with<T>(f: impl FnOnce(&mut Faults) -> T) -> T {
    F.with(|x| f(&mut x.borrow_mut()))
}
/// start of an attempt; `arm` 0: nothing fails
pub fn start(arm: u64, panic: bool, recover: bool, msg: &str) {
    with(|f| *f = Faults { arm, panic, recover, msg: msg.to_string(), ..Default::default() });
}
/// the payload of the simulated programs' panics
pub struct Payload(pub String);
pub fn point<E>(mk: impl Fn(String) -> E) -> Result<(), E> {
    if let Some(f) = POINT.get() {
        f(with(|f| f.count) + 1)
    }
    let hit = with(|f| {
        f.count += 1;
        if f.fired {
            f.after += 1;
        }
        if f.arm != 0 && f.count == f.arm {
            f.fired = true;
            Some((f.panic, f.msg.clone()))
        } else {
            None
        }
    });
    match hit {
        None => Ok(()),
        Some((false, m)) => Err(mk(m)),
        Some((true, m)) => std::panic::panic_any(Payload(m)),
    }
}
pub fn fired() -> bool {
    with(|f| f.fired)
}
/// run a step of an enclosing callback that may be prepared for failures:
/// None means the step failed and the callback goes on
pub fn step<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<Option<T>, E> {
    if !with(|f| f.recover) {
        return f().map(Some);
    }
    let before = fired();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(e)) if before || !fired() => Err(e),
        Ok(Err(_)) => Ok(None),
        Err(p) if before || !p.is::<Payload>() => std::panic::resume_unwind(p),
        Err(_) => Ok(None),
    }
}
/// a step into child `i` of a serialized value
pub fn child<T, E>(i: usize, f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
    let depth = with(|s| {
        s.path.push(i);
        s.path.len()
    });
    let r = f();
    with(|s| s.path.truncate(depth - 1));
    r
}
