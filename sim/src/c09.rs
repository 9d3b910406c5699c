//! C09: uses of the library do not influence each other. Tasks work on their own
//! documents on threads that are switched at basic blocks, or by turns on one
//! thread; their callbacks call the library again, fail or panic. Every single
//! call has to give what it gives in a process in which nothing ever ran.
use crate::c02::{gen_edit, lib_edit, lib_path, path_ok, Edit, MPath};
use crate::c03::pretty_doc;
use crate::c07::root_of;
use crate::core::*;
use crate::fault::{self, Payload};
use crate::gen::{knobs, Gen};
use crate::model::*;
use crate::reader::Val;
use crate::rng::Rng;
use crate::sched;
use crate::text;
use crate::typed::{self, Seed, Ser, Ty, TV};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use yaml_subset::yaml::{
    from_yaml, from_yaml_str, parse_yaml_file, AliasedYaml, Document, DocumentData, HashData, HashElement,
    MapYaml, MyVec, VisitYaml, Yaml, YamlDeserializer, YamlInsert, YamlSerializer,
};
use yaml_subset::YamlPath;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Error,
    Panic,
    /// the callback uses the library itself
    Nest(Vec<TOp>),
}
/// what happens in a callback of the caller
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cb {
    pub at: u8,
    pub how: How,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Parse { t: u8 },
    ReadText { t: u8, as_: u16, cb: Option<Cb> },
    Read { as_: u16, cb: Option<Cb> },
    Format,
    Pretty { level: u8 },
    Edit(Edit),
    Path { text: String },
    Typed { ty: Ty, v: TV, cb: Option<Cb> },
    Each { path: MPath, level: u8, change: bool, cb: Option<Cb> },
    Slots { path: MPath, cb: Option<Cb> },
    Map { change: bool, cb: Option<Cb> },
    Visit { cb: Option<Cb> },
    Insert { path: MPath, overwrite: bool, cb: Option<Cb> },
    /// the same call on the same document again and again
    Again { n: u16, op: Box<TOp> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub texts: Vec<String>,
    pub tasks: Vec<Vec<TOp>>,
    /// by turns on one thread, call by call
    pub turns: bool,
    /// who runs for how many steps
    pub slices: Vec<(u8, u32)>,
    /// no switch while a text is parsed: all of them fall into the other calls,
    /// which take far fewer steps
    #[serde(default)]
    pub calm: bool,
}

/// a finished call: everything it depends on and everything it gave
struct Entry {
    op: TOp,
    before: Before,
    result: String,
    fired: bool,
}
enum Before {
    None,
    Doc(Box<MDoc>),
    /// not of the kind that can be handed over
    Odd,
}
#[derive(Serialize, Deserialize)]
struct Question {
    op: TOp,
    texts: Vec<String>,
    doc: Option<MDoc>,
    hseed: u64,
}
thread_local! {
    static HINT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static NEST: RefCell<Option<(u64, Vec<TOp>)>> = const { RefCell::new(None) };
    static TEXTS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static REC: RefCell<Vec<Entry>> = const { RefCell::new(vec![]) };
    static CALM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn cb_of(op: &mut TOp) -> Option<&mut Option<Cb>> {
    match op {
        TOp::ReadText { cb, .. }
        | TOp::Read { cb, .. }
        | TOp::Typed { cb, .. }
        | TOp::Each { cb, .. }
        | TOp::Slots { cb, .. }
        | TOp::Map { cb, .. }
        | TOp::Visit { cb }
        | TOp::Insert { cb, .. } => Some(cb),
        _ => None,
    }
}
/// the callback number `n` of the running call begins
fn nested(n: u64) {
    let ops = NEST.with(|x| {
        let mut x = x.borrow_mut();
        match &*x {
            Some((at, _)) if *at == n => x.take().map(|y| y.1),
            _ => None,
        }
    });
    let Some(ops) = ops else { return };
    let saved = fault::with(std::mem::take);
    let hint = HINT.with(|h| h.get());
    let mut doc = None;
    for op in &ops {
        run_op(op, &mut doc);
    }
    NEST.with(|x| *x.borrow_mut() = None);
    HINT.with(|h| h.set(hint));
    fault::with(|f| *f = saved);
    fault::each_point(Some(nested));
}
fn point() {
    if let Err(m) = fault::point(|m| m) {
        std::panic::panic_any(Payload(m))
    }
}
fn run_op(op: &TOp, doc: &mut Option<Document>) {
    let TOp::Again { n, op } = op else { return run_once(op, doc) };
    let recorded = || REC.with(|x| x.borrow().len());
    let start = recorded();
    let before = doc.clone();
    run_op(op, doc);
    let first = recorded();
    for _ in 1..*n {
        *doc = before.clone();
        run_op(op, doc);
        // repetitions that give the same are not kept, the first other one is
        let same = REC.with(|x| {
            let mut x = x.borrow_mut();
            let same = {
                let (a, b) = (&x[start..first], &x[first..]);
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.result == b.result)
            };
            if same {
                x.truncate(first);
            }
            same
        });
        if !same {
            return;
        }
    }
}
fn run_once(op: &TOp, doc: &mut Option<Document>) {
    let before = sched::quiet(|| match doc {
        None => Before::None,
        Some(d) => match proj_doc(d) {
            Some(m) if to_doc(&m) == *d => Before::Doc(Box::new(m)),
            _ => Before::Odd,
        },
    });
    let mut plain = op.clone();
    let mut arm = (0, false);
    if let Some(cb) = cb_of(&mut plain) {
        match cb {
            Some(Cb { at, how: How::Nest(ops) }) => {
                NEST.with(|x| *x.borrow_mut() = Some((*at as u64, std::mem::take(ops))));
                *cb = None;
            }
            Some(Cb { at, how }) => arm = (*at as u64, matches!(how, How::Panic)),
            None => {}
        }
    }
    let had_nest = NEST.with(|x| x.borrow().is_some());
    fault::start(arm.0, arm.1, false, "stopped by the caller");
    fault::each_point(if had_nest { Some(nested) } else { None });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if CALM.get() && matches!(plain, TOp::Parse { .. }) {
            sched::quiet(|| call(&plain, doc))
        } else {
            call(&plain, doc)
        }
    }));
    fault::each_point(None);
    sched::quiet(|| {
        let left = NEST.with(|x| x.borrow_mut().take().is_some());
        let mut result = match r {
            Ok(s) => s,
            Err(p) if p.is::<Payload>() => "the caller's panic".to_string(),
            Err(_) => format!("panic: {}", last_panic()),
        };
        result.push_str(&format!("\ndocument afterwards: {doc:?}"));
        let fired = fault::fired() || (had_nest && !left);
        REC.with(|x| x.borrow_mut().push(Entry { op: plain, before, result, fired }));
    });
}
fn text(t: u8) -> String {
    TEXTS.with(|x| {
        let x = x.borrow();
        if x.is_empty() {
            String::new()
        } else {
            x[t as usize % x.len()].clone()
        }
    })
}
struct Json(serde_json::Value);
impl<'de> Deserialize<'de> for Json {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        fault::point(<D::Error as serde::de::Error>::custom)?;
        serde_json::Value::deserialize(d).map(Json)
    }
}
/// reads every value by a type it asks for
struct Hinted(String);
struct HintedV;
impl<'de> Deserialize<'de> for Hinted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        fault::point(<D::Error as serde::de::Error>::custom)?;
        let n = HINT.with(|h| {
            let n = h.get();
            // 2: always the same
            if n != 2 {
                h.set(n.wrapping_mul(1664525).wrapping_add(1013904223) | 4);
            }
            if n == 2 {
                0
            } else {
                n >> 3 & 31
            }
        });
        match n {
            0..=11 => d.deserialize_option(HintedV),
            12..=14 => d.deserialize_newtype_struct("New", HintedV),
            15 | 16 => d.deserialize_str(HintedV),
            17 => d.deserialize_seq(HintedV),
            18 => d.deserialize_map(HintedV),
            19 => d.deserialize_i64(HintedV),
            20 => d.deserialize_struct("Rec", &["a"], HintedV),
            21 => d.deserialize_ignored_any(HintedV),
            _ => d.deserialize_any(HintedV),
        }
    }
}
impl<'de> serde::de::Visitor<'de> for HintedV {
    type Value = Hinted;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a value")
    }
    fn visit_unit<E>(self) -> Result<Hinted, E> {
        Ok(Hinted("unit".into()))
    }
    fn visit_none<E>(self) -> Result<Hinted, E> {
        Ok(Hinted("none".into()))
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Hinted, D::Error> {
        fault::point(<D::Error as serde::de::Error>::custom)?;
        d.deserialize_any(HintedV).map(|h| Hinted(format!("some {}", h.0)))
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Hinted, D::Error> {
        d.deserialize_any(HintedV).map(|h| Hinted(format!("new {}", h.0)))
    }
    fn visit_bool<E>(self, v: bool) -> Result<Hinted, E> {
        Ok(Hinted(v.to_string()))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Hinted, E> {
        Ok(Hinted(v.to_string()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Hinted, E> {
        Ok(Hinted(v.to_string()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Hinted, E> {
        Ok(Hinted(format!("{v:?}")))
    }
    fn visit_str<E>(self, v: &str) -> Result<Hinted, E> {
        Ok(Hinted(format!("{v:?}")))
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
        let mut s = String::from("[");
        while let Some(Hinted(x)) = a.next_element()? {
            s.push_str(&x);
            s.push(',');
        }
        Ok(Hinted(s + "]"))
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
        let mut s = String::from("{");
        while let Some(k) = a.next_key::<String>()? {
            s.push_str(&k);
            s.push(':');
            s.push_str(&a.next_value::<Hinted>()?.0);
            s.push(',');
        }
        Ok(Hinted(s + "}"))
    }
}
fn reader(r: &mut Rng) -> u16 {
    match r.below(8) {
        0..=2 => 0,
        3 => 1,
        4 | 5 => 2,
        _ => r.below(60000) as u16,
    }
}
fn read_to<E: std::fmt::Display, T: std::fmt::Debug>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error: {e}"),
    }
}
/// one use of the library; everything it gives, as text
fn call(op: &TOp, doc: &mut Option<Document>) -> String {
    match op {
        TOp::Parse { t } => match parse_yaml_file(&text(*t)) {
            Ok(d) => {
                *doc = Some(d);
                "parsed".into()
            }
            Err(e) => {
                *doc = None;
                format!("refused: {e} {:?} {e:?}", e.location())
            }
        },
        TOp::ReadText { t, as_, .. } => match as_ {
            0 => read_to(from_yaml_str::<Val>(&text(*t))),
            1 => read_to(from_yaml_str::<Json>(&text(*t)).map(|j| j.0)),
            n => {
                HINT.with(|h| h.set(*n as u32));
                read_to(from_yaml_str::<Hinted>(&text(*t)).map(|j| j.0))
            }
        },
        TOp::Path { text } => match text.parse::<YamlPath>() {
            Ok(p) => format!("{p:?}"),
            Err(e) => format!("refused: {e}"),
        },
        TOp::Typed { ty, v, .. } => {
            let y = match Ser(ty, v).serialize(YamlSerializer) {
                Ok(y) => y,
                Err(e) => return format!("not written: {e}"),
            };
            let mut s = format!("{y:?}");
            let d = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y.clone())] };
            s.push_str(&format!("\nstored as {:?}", d.format()));
            s.push_str(&format!("\nread: {}", read_to(Seed(ty).deserialize(YamlDeserializer::new(y)))));
            s
        }
        other => match doc {
            None => "nothing to work on".into(),
            Some(d) => on_doc(other, d),
        },
    }
}
fn on_doc(op: &TOp, d: &mut Document) -> String {
    match op {
        TOp::Read { as_, .. } => match (root_of(d), as_) {
            (None, _) => "no root".into(),
            (Some(y), 0) => read_to(from_yaml::<Val>(y.clone())),
            (Some(y), 1) => read_to(from_yaml::<Json>(y.clone()).map(|j| j.0)),
            (Some(y), n) => {
                HINT.with(|h| h.set(*n as u32));
                read_to(from_yaml::<Hinted>(y.clone()).map(|j| j.0))
            }
        },
        TOp::Format => format!("{:?}", d.format()),
        TOp::Pretty { level } => {
            let old = std::mem::replace(d, Document { leading_comments: vec![], items: vec![] });
            match pretty_doc(old, *level) {
                Ok(n) => {
                    *d = n;
                    "prettified".into()
                }
                Err(e) => e.detail,
            }
        }
        TOp::Edit(e) => {
            let lp = match lib_path(&e.path) {
                Ok(p) => p,
                Err(e) => return e.detail,
            };
            let i = d.items.iter().position(|i| matches!(i, DocumentData::Yaml(_)));
            let r = match (e.level % 3, i) {
                (1, Some(i)) => lib_edit(&mut d.items[i], &lp, &e.op),
                (2, Some(i)) => match &mut d.items[i] {
                    DocumentData::Yaml(y) => lib_edit(y, &lp, &e.op),
                    _ => unreachable!(),
                },
                _ => lib_edit(d, &lp, &e.op),
            };
            format!("{r:?}")
        }
        TOp::Each { path, level, change, .. } => {
            let lp = match lib_path(path) {
                Ok(p) => p,
                Err(e) => return e.detail,
            };
            let f = |e: &mut HashElement| {
                point();
                let v = (e.key.clone(), e.value.clone());
                if *change {
                    e.value.value = Yaml::UnquotedString("changed".into());
                }
                MyVec(vec![format!("{v:?}")])
            };
            let r = |y: &mut Yaml| {
                point();
                let v = y.clone();
                MyVec(vec![format!("{v:?}")])
            };
            let i = d.items.iter().position(|i| matches!(i, DocumentData::Yaml(_)));
            let MyVec(v) = match (level % 2, i) {
                (1, Some(i)) => d.items[i].for_hash(&lp, &f, &r),
                _ => d.for_hash(&lp, &f, &r),
            };
            format!("{v:?}")
        }
        TOp::Slots { path, .. } => {
            let lp = match lib_path(path) {
                Ok(p) => p,
                Err(e) => return e.detail,
            };
            let seen = RefCell::new(vec![]);
            let n: usize = d.edit_hash_structure(&lp, &|h: &mut Vec<HashData>, k: String, i: Option<usize>| {
                point();
                seen.borrow_mut().push(format!("{k} {i:?} {h:?}"));
                1
            });
            format!("{n} {:?}", seen.into_inner())
        }
        TOp::Insert { path, overwrite, .. } => {
            let lp = match lib_path(path) {
                Ok(p) => p,
                Err(e) => return e.detail,
            };
            let n = d.insert_into_hash_by_call(
                &lp,
                || {
                    point();
                    AliasedYaml { alias: Some("new".into()), value: Yaml::UnquotedString("put".into()) }
                },
                *overwrite,
            );
            n.to_string()
        }
        TOp::Map { change, .. } => {
            let mut seen = vec![];
            let Some(i) = d.items.iter().position(|i| matches!(i, DocumentData::Yaml(_))) else {
                return "no root".into();
            };
            if let DocumentData::Yaml(y) = &mut d.items[i] {
                let out = y.clone().map_yaml(&mut |y: Yaml| {
                    point();
                    seen.push(format!("{y:?}"));
                    match y {
                        Yaml::UnquotedString(_) if *change => Yaml::UnquotedString("mapped".into()),
                        y => y,
                    }
                });
                *y = out;
            }
            format!("{seen:?}")
        }
        TOp::Visit { .. } => {
            let mut seen = vec![];
            let mut f = |y: &AliasedYaml| {
                point();
                seen.push(format!("{y:?}"));
            };
            for i in &d.items {
                if let DocumentData::Yaml(y) = i {
                    y.visit_yaml(&mut f);
                }
            }
            format!("{seen:?}")
        }
        _ => unreachable!(),
    }
}

/// in a fresh process: the call as if it were the only one ever
pub fn answer(q: &[u8]) -> Vec<u8> {
    let q: Question = match crate::core::from_json(std::str::from_utf8(q).unwrap_or("")) {
        Ok(q) => q,
        Err(e) => return format!("bad question: {e}").into_bytes(),
    };
    let r = crate::parent::contained(q.hseed, || {
        TEXTS.with(|t| *t.borrow_mut() = q.texts);
        let mut doc = q.doc.as_ref().map(to_doc);
        run_op(&q.op, &mut doc);
        REC.with(|r| r.borrow_mut().pop()).map(|e| e.result).unwrap_or_default()
    });
    r.unwrap_or_else(|e| format!("harness: {e}")).into_bytes()
}
fn first_difference(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(n.saturating_sub(60)).take(200).collect::<String>();
    format!("...{:?}\ninstead of ...{:?}", cut(a), cut(b))
}
fn name(op: &TOp) -> &'static str {
    match op {
        TOp::Parse { .. } => "call: parse",
        TOp::ReadText { .. } => "call: read text",
        TOp::Read { .. } => "call: read document",
        TOp::Format => "call: format",
        TOp::Pretty { .. } => "call: prettify",
        TOp::Edit(_) => "call: edit",
        TOp::Path { .. } => "call: parse path",
        TOp::Typed { .. } => "call: write and read typed value",
        TOp::Each { .. } => "call: edit by closure",
        TOp::Slots { .. } => "call: edit structure by closure",
        TOp::Map { .. } => "call: map",
        TOp::Visit { .. } => "call: visit",
        TOp::Insert { .. } => "call: insert by call",
        TOp::Again { .. } => unreachable!(),
    }
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    let hseed = c.hseed;
    let logs: Vec<Vec<Entry>> = if p.turns {
        let mut docs: Vec<Option<Document>> = p.tasks.iter().map(|_| None).collect();
        let mut next = vec![0; p.tasks.len()];
        let mut logs: Vec<Vec<Entry>> = p.tasks.iter().map(|_| vec![]).collect();
        TEXTS.with(|t| *t.borrow_mut() = p.texts.clone());
        let turns = p.slices.iter().map(|s| s.0 as usize % p.tasks.len());
        let rest = (0..p.tasks.len()).flat_map(|i| std::iter::repeat(i).take(p.tasks[i].len()));
        for i in turns.chain(rest) {
            if next[i] < p.tasks[i].len() {
                c.decide("turn", i as u64);
                c.count("schedule: turn on one thread");
                run_op(&p.tasks[i][next[i]], &mut docs[i]);
                next[i] += 1;
                logs[i].extend(REC.with(|r| std::mem::take(&mut *r.borrow_mut())));
            }
        }
        c.nontrivial = p.tasks.len() > 1 || p.tasks[0].len() > 2;
        logs
    } else {
        let tasks: Vec<Box<dyn FnOnce() -> Vec<Entry> + Send + '_>> = p
            .tasks
            .iter()
            .map(|ops| {
                let f = move || {
                    sched::quiet(|| {
                        TEXTS.with(|t| *t.borrow_mut() = p.texts.clone());
                        CALM.set(p.calm);
                    });
                    let mut doc = None;
                    for op in ops {
                        run_op(op, &mut doc);
                    }
                    REC.with(|r| std::mem::take(&mut *r.borrow_mut()))
                };
                Box::new(f) as Box<dyn FnOnce() -> Vec<Entry> + Send + '_>
            })
            .collect();
        let (out, stats) = sched::run(tasks, &p.slices);
        for (to, at) in &stats.switches {
            c.decide("switch", *to as u64);
            c.decide("at", *at);
        }
        for _ in 0..stats.switches.len() {
            c.count("schedule: switch at a basic block");
        }
        for _ in 0..stats.waits {
            c.count("schedule: thread waits for a lock");
        }
        c.nontrivial = stats.switches.len() > p.tasks.len();
        c.later += stats.steps / 1000;
        let mut logs = vec![];
        for o in out {
            match o {
                Ok(l) => logs.push(l),
                Err(e) => return violation("harness", e),
            }
        }
        logs
    };
    for o in p.tasks.iter().flatten() {
        if let TOp::Again { n, .. } = o {
            c.count(match n {
                0..=100 => "schedule: call repeated",
                _ => "schedule: call repeated more than a hundred times",
            })
        }
    }
    for (i, log) in logs.iter().enumerate() {
        for (k, e) in log.iter().enumerate() {
            c.count(name(&e.op));
            let mut op = e.op.clone();
            if e.fired {
                c.nontrivial = true;
                c.count(match cb_of(&mut op) {
                    Some(Some(Cb { how: How::Error, .. })) => "fault: caller error",
                    Some(Some(_)) => "fault: caller panic",
                    _ => "schedule: call inside a callback",
                });
            }
            let h = fnv(FNV0, e.result.as_bytes());
            c.ev("call", (i * 1000 + k) as u64, h);
            c.state(&h.to_le_bytes());
            let doc = match &e.before {
                Before::None => None,
                Before::Doc(m) => Some((**m).clone()),
                Before::Odd => {
                    c.count("call not judged: odd document");
                    continue;
                }
            };
            let q = Question { op: op.clone(), texts: p.texts.clone(), doc, hseed: crate::rng::mix(hseed, 77 + k as u64) };
            let q = serde_json::to_vec(&q).map_err(|e| Violation { class: "harness".into(), detail: e.to_string() })?;
            let want = match crate::zygote::ask(&q) {
                Err(e) => return violation("harness", e),
                Ok(Err(e)) => return violation("crash", format!("{op:?} on its own: {e}")),
                Ok(Ok(b)) => String::from_utf8_lossy(&b).into_owned(),
            };
            if want.starts_with("harness: ") || want.starts_with("bad question: ") {
                return violation("harness", want);
            }
            c.note(|| format!("task {i}, call {k}: {op:?}\n    {}", e.result.lines().next().unwrap_or("")));
            if want != e.result {
                return violation(
                    "influenced",
                    format!("task {i}, call {k}, {op:?}: a process that never did anything else gets another result\n{}", first_difference(&e.result, &want)),
                );
            }
        }
    }
    c.now += std::mem::take(&mut c.later);
    Ok(())
}

// --------------------------------------------------------------- generation
fn variant(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return String::new();
    }
    let letters: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_ascii_alphanumeric()).collect();
    match r.below(6) {
        // same length, another letter
        0 | 1 if !letters.is_empty() => {
            let i = *r.pick(&letters);
            let mut d = cs.clone();
            d[i] = if d[i] == 'q' { 'p' } else { 'q' };
            d.into_iter().collect()
        }
        2 => cs[..r.below(cs.len())].iter().collect(),
        3 => {
            // without one of its anchors
            match s.match_indices('&').map(|x| x.0).collect::<Vec<_>>() {
                v if v.is_empty() => format!("{s}\n"),
                v => {
                    let i = *r.pick(&v);
                    let n = s[i..].find([' ', '\n']).map_or(s.len() - i, |n| n + 1);
                    format!("{}{}", &s[..i], &s[i + n..])
                }
            }
        }
        4 => {
            let mut d = cs.clone();
            d[r.below(cs.len())] = *r.pick(&[':', '"', '[', ' ', '\n', '&', '-']);
            d.into_iter().collect()
        }
        _ => format!("{s}\nlast: *undefined"),
    }
}
fn gen_cb(g: &mut Gen, depth: usize, nt: usize, pool: &[MDoc]) -> Option<Cb> {
    if !g.r.pct(45) {
        return None;
    }
    let at = 1 + g.r.below(*g.r.clone().pick(&[1, 3, 12, 40])) as u8;
    let how = match g.r.below(4) {
        0 => How::Error,
        1 => How::Panic,
        _ if depth == 0 => How::Panic,
        _ => {
            let n = g.r.range(1, 3);
            let mut sh = None;
            How::Nest((0..n).map(|i| gen_op(g, depth - 1, nt, pool, &mut sh, i == 0)).collect())
        }
    };
    Some(Cb { at, how })
}
fn gen_op(g: &mut Gen, depth: usize, nt: usize, pool: &[MDoc], sh: &mut Option<MDoc>, first: bool) -> TOp {
    if first && g.r.pct(80) {
        let t = g.r.below(nt) as u8;
        *sh = pool.get(t as usize).cloned();
        return TOp::Parse { t };
    }
    let path = |g: &mut Gen, sh: &Option<MDoc>| match sh {
        Some(m) => crate::c02::gen_path(g, &m.root, false).0,
        None => MPath { root: vec![], parts: vec![], pieces: false },
    };
    match g.r.below(15) {
        0 | 1 => {
            let t = g.r.below(nt) as u8;
            *sh = pool.get(t as usize).cloned();
            TOp::Parse { t }
        }
        2 | 3 => TOp::ReadText { t: g.r.below(nt) as u8, as_: reader(g.r), cb: gen_cb(g, depth, nt, pool) },
        4 => TOp::Read { as_: reader(g.r), cb: gen_cb(g, depth, nt, pool) },
        5 => TOp::Format,
        6 => TOp::Pretty { level: g.r.below(3) as u8 },
        7 | 8 => match sh {
            Some(m) => TOp::Edit(gen_edit(g, m)),
            None => TOp::Format,
        },
        9 => {
            let mut s = path(g, sh);
            s.pieces = false;
            let mut t = crate::c02::path_text(&s).unwrap_or_else(|| "a.b".into());
            if g.r.pct(30) {
                t = variant(g.r, &t);
            }
            TOp::Path { text: t }
        }
        10 => {
            let ty = typed::gen_ty(g, 2);
            let v = typed::gen_val(g, &ty);
            TOp::Typed { ty, v, cb: gen_cb(g, depth, nt, pool) }
        }
        11 => TOp::Each { path: path(g, sh), level: g.r.below(2) as u8, change: g.r.pct(40), cb: gen_cb(g, depth, nt, pool) },
        12 => TOp::Slots { path: path(g, sh), cb: gen_cb(g, depth, nt, pool) },
        13 => {
            if g.r.pct(50) {
                TOp::Map { change: g.r.pct(50), cb: gen_cb(g, depth, nt, pool) }
            } else {
                TOp::Visit { cb: gen_cb(g, depth, nt, pool) }
            }
        }
        _ => TOp::Insert { path: path(g, sh), overwrite: g.r.pct(50), cb: gen_cb(g, depth, nt, pool) },
    }
}
/// A call that fails, panics or simply runs, again and again on one thread, and
/// then a choice of other calls there: what piles up must not be seen.
fn gen_worn(g: &mut Gen, nt: usize, pool: &[MDoc]) -> Vec<TOp> {
    let mut sh = None;
    let t = g.r.below(pool.len()) as u8;
    let mut ops = vec![TOp::Parse { t }];
    let set = |sh: &mut Option<MDoc>| *sh = Some(pool[t as usize].clone());
    set(&mut sh);
    // most often one with a callback that fails
    let mut op = TOp::Format;
    for _ in 0..12 {
        op = gen_op(g, 0, nt, pool, &mut sh, false);
        set(&mut sh);
        let keep = g.r.pct(15);
        if let Some(cb) = cb_of(&mut op) {
            let at = 1 + g.r.below(*g.r.clone().pick(&[1, 1, 3, 8])) as u8;
            let how = if g.r.pct(50) { How::Error } else { How::Panic };
            *cb = if g.r.pct(75) { Some(Cb { at, how }) } else { None };
            break;
        } else if keep {
            break;
        }
    }
    match g.r.below(10) {
        // a failure of the document's own
        0 | 1 => op = TOp::ReadText { t: nt as u8 - 1, as_: reader(g.r), cb: None },
        2 => op = TOp::Parse { t: g.r.below(nt) as u8 },
        _ => {}
    }
    let mut bare = op.clone();
    if let Some(cb) = cb_of(&mut bare) {
        *cb = None
    }
    let n = *g.r.pick(&[20, 80, 150, 300, 600, 600, 1000]);
    ops.push(TOp::Again { n, op: Box::new(op) });
    ops.push(TOp::Parse { t });
    ops.push(bare);
    ops.push(TOp::ReadText { t, as_: reader(g.r), cb: None });
    for _ in 0..6 {
        if g.r.pct(30) {
            ops.push(TOp::Parse { t });
        }
        ops.push(gen_op(g, 1, nt, pool, &mut sh, false));
    }
    ops
}
pub fn gen(r: &mut Rng) -> Plan {
    let mut k = knobs(r);
    let worn = r.pct(2);
    k.depth = k.depth.min(if worn { 2 } else { 3 });
    k.width = k.width.min(if worn { 3 } else { 4 });
    if r.pct(50) {
        k.aliases = 40;
    }
    let nd = r.range(1, 3);
    let mut pool = vec![];
    let mut texts = vec![];
    for _ in 0..nd {
        let mut g = Gen::new(r, k.clone());
        let doc = g.doc();
        let layout = g.layout();
        texts.push(text::write_doc(&doc, &layout));
        pool.push(doc);
    }
    for _ in 0..r.range(1, 4) {
        let s = r.pick(&texts).clone();
        let v = variant(r, &s);
        texts.push(v);
    }
    let nt = texts.len();
    if worn {
        texts.push(format!("{}\nlast: *undefined", texts[0]));
        let nt = texts.len();
        let mut g = Gen::new(r, k);
        let tasks = vec![gen_worn(&mut g, nt, &pool)];
        return Plan { texts, tasks, turns: true, slices: vec![], calm: false };
    }
    let ntasks = r.range(2, 4);
    let turns = r.pct(30);
    let calm = !turns && r.pct(50);
    let mut tasks = vec![];
    for _ in 0..ntasks {
        let mut sh = None;
        let mut g = Gen::new(r, k.clone());
        let n = g.r.range(1, if calm { 8 } else { 5 });
        let mut ops: Vec<TOp> = (0..n)
            .map(|i| match gen_op(&mut g, 2, nt, &pool, &mut sh, i == 0) {
                // these parse, too, and that takes most of the steps
                TOp::ReadText { .. } if calm => TOp::Format,
                op => op,
            })
            .collect();
        if g.r.pct(1) {
            let i = g.r.below(ops.len());
            let n = *g.r.pick(&[2, 9, 40, 150, 150, 600]);
            let op = Box::new(ops[i].clone());
            ops[i] = TOp::Again { n, op };
        }
        tasks.push(ops);
    }
    let top = if calm { r.range(2, 9) } else { r.range(4, 17) };
    let n = if calm { r.range(10, 150) } else { r.range(3, 40) };
    let slices = (0..n)
        .map(|_| {
            let bits = r.below(top);
            (r.below(ntasks) as u8, (1u32 << bits) + r.below(1 << bits) as u32)
        })
        .collect();
    Plan { texts, tasks, turns, slices, calm }
}
fn op_ok(op: &TOp, depth: usize) -> bool {
    if let TOp::Again { n, op } = op {
        return *n <= 1000 && depth == 3 && !matches!(**op, TOp::Again { .. }) && op_ok(op, depth);
    }
    let mut o = op.clone();
    if let Some(Some(cb)) = cb_of(&mut o) {
        if let How::Nest(v) = &cb.how {
            if depth == 0 || !v.iter().all(|o| op_ok(o, depth - 1)) {
                return false;
            }
        }
    }
    match op {
        TOp::Edit(e) => crate::c02::edit_ok(e),
        TOp::Each { path, .. } | TOp::Slots { path, .. } | TOp::Insert { path, .. } => path_ok(path),
        TOp::Typed { ty, v, .. } => typed::valid_ty(ty, 0) && typed::conforms(ty, v),
        _ => true,
    }
}
pub fn valid(p: &Plan) -> bool {
    !p.texts.is_empty()
        && !p.tasks.is_empty()
        && p.tasks.len() <= 8
        && p.tasks.iter().all(|t| t.iter().all(|o| op_ok(o, 3)))
}
