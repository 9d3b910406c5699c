//! What every simulation shares: the run context, violations, guarded calls
//! into the library.
use std::cell::RefCell;
use std::collections::BTreeMap;

/// JSON without a limit of the depth
pub fn from_json<'a, T: serde::Deserialize<'a>>(text: &'a str) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    T::deserialize(&mut d)
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res<T = ()> = Result<T, Violation>;
pub fn violation<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.to_string(), detail: detail.into() })
}

pub struct Ctx {
    pub trace: bool,
    pub log: Vec<String>,
    /// rolling hash over the event log
    pub h: u64,
    /// rolling hash over scheduling decisions and faults only
    pub sched: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub now: u64,
    pub nontrivial: bool,
    /// simulated time that is added at the end of the run
    pub later: u64,
    pub hseed: u64,
}
pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;
impl Ctx {
    pub fn new(trace: bool) -> Ctx {
        Ctx {
            trace,
            log: vec![],
            h: FNV0,
            sched: FNV0,
            counters: BTreeMap::new(),
            states: vec![],
            now: 0,
            nontrivial: false,
            later: 0,
            hseed: 0,
        }
    }
    /// an event of the run; part of the event log
    pub fn ev(&mut self, tag: &'static str, a: u64, b: u64) {
        self.h = fnv(self.h, tag.as_bytes());
        self.h = fnv(self.h, &a.to_le_bytes());
        self.h = fnv(self.h, &b.to_le_bytes());
        self.h = fnv(self.h, &self.now.to_le_bytes());
        if self.trace {
            self.log.push(format!("t={}us {tag} {a} {b}", self.now));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.log.push(format!("t={}us   {s}", self.now));
        }
    }
    /// a scheduling decision or fault (for the interleaving measure)
    pub fn decide(&mut self, tag: &'static str, a: u64) {
        self.sched = fnv(self.sched, tag.as_bytes());
        self.sched = fnv(self.sched, &a.to_le_bytes());
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn state(&mut self, b: &[u8]) {
        let h = fnv(FNV0, b);
        self.h = fnv(self.h, &h.to_le_bytes());
        self.states.push(h);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = payload_str(i.payload());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{msg} ({loc})"))
            }
        });
    }));
}
pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// A call into the library: a panic that comes out of it is a violation.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => violation("panic", format!("{what} panicked: {}", last_panic())),
    }
}
