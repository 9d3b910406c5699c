//! C06: the caller's own code fails, by an error or a panic, at any of its
//! callbacks while it reads or writes. The failure arrives, nothing else is
//! called, nothing is kept, and the next attempt knows nothing of it.
use crate::c01::{gen_mutation, mutate, Mutation};
use crate::c07::{attempt, root_of};
use crate::core::*;
use crate::fault::{self, Payload};
use crate::gen::Gen;
use crate::model::*;
use crate::pull;
use crate::reader::*;
use crate::rng::Rng;
use crate::typed::*;
use crate::world::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::{Document, Yaml, YamlDeserializer, YamlSerializer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub at: u16,
    pub panic: bool,
    pub recover: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Change(Mutation),
    /// attempts to read the document
    Read { script: Vec<u8>, via: u8, fails: Vec<Fail> },
    /// attempts to write a value and to read it again
    Typed { t: Ty, v: TV, fails: Vec<Fail> },
}
pub type Plan = WPlan<Op>;
const MESSAGES: [&str; 11] = ["out of quota", "", "missing field `a`", "unknown field `x`, expected `y`", "invalid type: map, expected a string", "EOF", "null", "\n", "caller: 'x' \"y\"\n: # - &a *b", "expected string", "ünï"];

enum Out<T> {
    Done(T),
    Error(String),
    Panic(String),
}
/// run an attempt with one failure planned
fn run_one<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Res<Out<T>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(Out::Done(v)),
        Ok(Err(e)) => Ok(Out::Error(e.to_string())),
        Err(p) => match p.downcast::<Payload>() {
            Ok(m) => Ok(Out::Panic(m.0)),
            Err(_) => violation("panic", format!("the library panicked: {}", last_panic())),
        },
    }
}
/// judge an attempt in which the caller failed
fn judge<T>(c: &mut Ctx, what: &str, fail: &Fail, at: u64, msg: &str, out: Out<T>) -> Res<Option<T>> {
    c.nontrivial = true;
    let (fired, after) = fault::with(|f| (f.fired, f.after));
    if !fired {
        return violation("retry", format!("{what}: callback {at} was not reached this time"));
    }
    c.count(match (fail.panic, fail.recover) {
        (false, false) => "fault: caller error",
        (true, false) => "fault: caller panic",
        (false, true) => "fault: caller error, handled by an enclosing callback",
        (true, true) => "fault: caller panic, handled by an enclosing callback",
    });
    if !fail.recover && after > 0 {
        return violation("called", format!("{what}: {after} callbacks after the failure at callback {at}"));
    }
    let panic = fail.panic;
    match out {
        Out::Done(v) if fail.recover => Ok(Some(v)),
        Out::Done(_) => violation("swallowed", format!("{what}: the failure at callback {at} (panic: {panic}) did not arrive")),
        Out::Error(e) if !panic && e == msg => Ok(None),
        Out::Panic(e) if panic && e == msg => Ok(None),
        // an undefined alias after a handled failure
        Out::Error(e) if fail.recover && pull::with(|s| s.undefined.clone()).map_or(false, |u| e.contains(&u)) => Ok(None),
        Out::Error(e) => violation("message", format!("{what}: the failure at callback {at} said {msg:?} (panic: {panic}), what arrived says {e:?}")),
        Out::Panic(e) => violation("message", format!("{what}: the failure at callback {at} said {msg:?}, a panic with {e:?} arrived")),
    }
}
fn pulled(y: &Yaml, text: &str, via: u8) -> Res<Out<()>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| attempt(y, Some(text), via))) {
        Ok(r) => Ok(match r? {
            None => Out::Done(()),
            Some(e) => Out::Error(e),
        }),
        Err(p) => match p.downcast::<Payload>() {
            Ok(m) => Ok(Out::Panic(m.0)),
            Err(p) => std::panic::resume_unwind(p),
        },
    }
}
fn leaks(what: &str) -> Res {
    match pull::with(|s| (s.live, s.made)) {
        (0, _) => Ok(()),
        (n, made) => violation("drop", format!("{what}: {n} of the caller's {made} values are still there")),
    }
}
/// everything observable of an undisturbed read
fn clean(root: &std::rc::Rc<RNode>, y: &Yaml, text: &str, script: &[u8], via: u8) -> Res<(u64, u64, u64, Option<String>)> {
    fault::start(0, false, false, "");
    pull::start(root, script, false);
    let out = attempt(y, Some(text), via)?;
    leaks("an undisturbed read")?;
    let (h, read, u) = pull::with(|s| (s.h, s.read, s.undefined.clone()));
    if out.is_some() && u.is_none() {
        return violation("read", format!("an undisturbed read fails: {}", out.unwrap()));
    }
    Ok((fault::with(|f| f.count), h, read, out))
}
struct Callers;
impl Sem for Callers {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        match e {
            Op::Change(e) => {
                c.count("op: document changed");
                mutate(m, e);
                *d = to_doc(m);
            }
            Op::Read { script, via, fails } => {
                let text = save(d)?;
                let before = d.clone();
                let Some(y) = root_of(&before) else { return violation("content", "no root") };
                let root = bind(&m.root, &mut Default::default());
                let first = clean(&root, y, &text, script, *via)?;
                c.ev("read", first.0, first.1);
                for (i, f) in fails.iter().enumerate() {
                    let at = f.at as u64 % first.0 + 1;
                    let msg = MESSAGES[(i + f.at as usize) % MESSAGES.len()];
                    c.decide("fail", at * 4 + f.panic as u64 * 2 + f.recover as u64);
                    c.note(|| format!("read again; callback {at} of {} fails, {f:?}", first.0));
                    fault::start(at, f.panic, f.recover, msg);
                    pull::start(&root, script, false);
                    let out = pulled(y, &text, *via)?;
                    judge(c, "reading", f, at, msg, out)?;
                    leaks("a failed read")?;
                    if *d != before {
                        return violation("changed", "a failed read changed the document");
                    }
                    let again = clean(&root, y, &text, script, *via)?;
                    if again != first {
                        return violation("retry", format!("after a failure at callback {at}, reading gives {again:?}, before it gave {first:?}"));
                    }
                    c.ev("failed", at, again.1);
                }
            }
            Op::Typed { t, v, fails } => {
                fault::start(0, false, false, "");
                let write = || Ser(t, v).serialize(YamlSerializer);
                let y = match lib("serialize", write)? {
                    Ok(y) => y,
                    Err(e) => return violation("serialize", format!("{v:?} of type {t:?} cannot be written: {e}")),
                };
                let writes = fault::with(|f| f.count);
                let read = |y: &Yaml| Seed(t).deserialize(YamlDeserializer::new(y.clone()));
                fault::start(0, false, false, "");
                match lib("deserialize", || read(&y))? {
                    Ok(x) if x == *v => {}
                    o => return violation("typed-value", format!("read {o:?}, written {v:?}")),
                }
                let reads = fault::with(|f| f.count);
                for (i, f) in fails.iter().enumerate() {
                    let msg = MESSAGES[(i + f.at as usize) % MESSAGES.len()];
                    let at = f.at as u64 % writes + 1;
                    c.decide("failw", at * 4 + f.panic as u64 * 2 + f.recover as u64);
                    c.note(|| format!("write {v:?}; callback {at} of {writes} fails, {f:?}"));
                    fault::start(at, f.panic, f.recover, msg);
                    let out = run_one(write)?;
                    if let Some(got) = judge(c, "writing", f, at, msg, out)? {
                        let Some(path) = fault::with(|f| f.removed.clone()) else {
                            return violation("swallowed", "a failed write gives a value");
                        };
                        // a program that leaves the failed part out
                        fault::start(0, false, false, "");
                        let less = without(v, &path);
                        match lib("serialize", || Ser(t, &less).serialize(YamlSerializer))? {
                            Ok(want) if want == got => {}
                            o => {
                                return violation("retry", format!("leaving out the failed part {path:?} of {v:?} gives {got:?}, not {o:?}"))
                            }
                        }
                    }
                    fault::start(0, false, false, "");
                    match lib("serialize", write)? {
                        Ok(again) if again == y => {}
                        o => return violation("retry", format!("after a failure at callback {at}, writing gives {o:?}, before it gave {y:?}")),
                    }
                    let at = f.at as u64 % reads + 1;
                    c.note(|| format!("read it; callback {at} of {reads} fails, {f:?}"));
                    let f = &Fail { recover: false, ..f.clone() };
                    fault::start(at, f.panic, false, msg);
                    let out = run_one(|| read(&y))?;
                    judge(c, "reading a typed value", f, at, msg, out)?;
                    fault::start(0, false, false, "");
                    match lib("deserialize", || read(&y))? {
                        Ok(x) if x == *v && fault::with(|f| f.count) == reads => {}
                        o => return violation("retry", format!("after a failure at callback {at}, reading gives {o:?}, written {v:?}")),
                    }
                    c.ev("failed typed", writes, reads);
                }
            }
        }
        Ok(())
    }
}
pub fn gen(r: &mut Rng) -> Plan {
    let fails = |g: &mut Gen| -> Vec<Fail> {
        let n = g.r.range(1, 5);
        let all_panic = g.r.range(0, 100) as u32;
        (0..n)
            .map(|_| Fail { at: g.r.below(500) as u16, panic: g.r.pct(all_panic), recover: g.r.pct(35) })
            .collect()
    };
    gen_plan(
        r,
        1,
        |r, k| {
            k.aliases = *r.pick(&[0, 0, 15, 40]);
            k.comments = k.comments.min(15);
        },
        |g, _: &mut MDoc| match g.r.below(10) {
            0 | 1 => Op::Change(gen_mutation(g)),
            2..=5 => {
                let script = pull::gen_script(g.r);
                Op::Read { script, via: g.r.below(3) as u8, fails: fails(g) }
            }
            _ => {
                let depth = g.r.range(0, 4);
                let t = gen_ty(g, depth);
                let v = gen_val(g, &t);
                Op::Typed { t, v, fails: fails(g) }
            }
        },
        3,
    )
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
        && p.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(|e| match e {
                Op::Typed { t, v, .. } => valid_ty(t, 0) && conforms(t, v),
                _ => true,
            }),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    let r = run(p, &mut Callers, c);
    fault::start(0, false, false, "");
    r
}
