//! C08: edits by closure, mapping and visiting call the caller's code once for
//! every place, in order; a caller that panics leaves complete places behind.
use crate::c01::{gen_mutation, mutate, storable, Mutation};
use crate::c02::{self, at, at_mut, lib_edit, lib_path, same_node, select, slots, Edit, MPath, Place};
use crate::core::*;
use crate::fault::Payload;
use crate::gen::Gen;
use crate::model::*;
use crate::rng::Rng;
use crate::text;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use yaml_subset::yaml::{ArrayData, 
    AliasedYaml, Document, DocumentData, HashData, HashElement, MapYaml, MyVec, VisitYaml, Yaml,
    YamlInsert,
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Stop {
    /// which call panics
    pub at: u16,
    /// after it changed its place
    pub after: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Style {
    Nothing,
    Value,
    Key,
    Alias,
    /// the closure edits below its place with the library
    Inner(Box<Edit>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Change(Mutation),
    Edit(Edit),
    Each { path: MPath, level: u8, style: Style, list: bool, stop: Option<Stop> },
    Slots { path: MPath, level: u8, style: u8, stop: Option<Stop> },
    ByCall { path: MPath, level: u8, overwrite: bool, stop: Option<Stop> },
    Map { level: u8, style: u8, every: u8, stop: Option<Stop> },
    Visit { level: u8, stop: Option<Stop> },
    /// on a tree of the program's own, which is not stored
    Own { shape: u8, op: Box<Op> },
}
pub type Plan = WPlan<Op>;

/// what the caller's code saw and whether it is to fail
struct Calls {
    n: Cell<usize>,
    stop: Option<(usize, bool)>,
    /// it failed already
    dead: Cell<bool>,
    after: Cell<usize>,
    seen: RefCell<Vec<(String, MNode)>>,
}
impl Calls {
    /// `n` calls are expected
    fn new(n: usize, stop: &Option<Stop>) -> Calls {
        let stop = match stop {
            Some(s) if n > 0 => Some((s.at as usize % n, s.after)),
            _ => None,
        };
        Calls { n: Cell::new(0), stop, dead: Cell::new(false), after: Cell::new(0), seen: RefCell::new(vec![]) }
    }
    /// the caller's code: `f` changes the place
    fn call<T>(&self, tag: String, node: MNode, f: impl FnOnce(usize) -> T) -> T {
        let i = self.n.get();
        self.n.set(i + 1);
        if self.dead.get() {
            self.after.set(self.after.get() + 1);
        }
        self.seen.borrow_mut().push((tag, node));
        if self.stop == Some((i, false)) {
            self.dead.set(true);
            std::panic::panic_any(Payload("interrupted".into()))
        }
        let t = f(i);
        if self.stop == Some((i, true)) {
            self.dead.set(true);
            std::panic::panic_any(Payload("interrupted".into()))
        }
        t
    }
    /// how many places are changed in the end, if `n` are selected
    fn done(&self, n: usize) -> usize {
        match self.stop {
            Some((i, after)) => i + after as usize,
            None => n,
        }
    }
    /// compare the calls with the places
    fn judge<T>(&self, c: &mut Ctx, what: &str, want: &[(String, MNode)], got: Result<T, Box<dyn std::any::Any + Send>>) -> Res<Option<T>> {
        let out = match got {
            Ok(v) => Some(v),
            Err(p) if p.is::<Payload>() => None,
            Err(_) => return violation("panic", format!("{what} panicked: {}", last_panic())),
        };
        if self.stop.is_some() {
            c.nontrivial = true;
            c.count(if self.stop.unwrap().1 { "fault: caller panic after its change" } else { "fault: caller panic before its change" });
        }
        let seen = self.seen.borrow();
        c.ev("calls", seen.len() as u64, want.len() as u64);
        if self.after.get() > 0 {
            return violation("called", format!("{what}: {} calls after the one that panicked", self.after.get()));
        }
        for (i, (w, s)) in want.iter().zip(seen.iter()).enumerate() {
            if w.0 != s.0 {
                return violation("order", format!("{what}: call {i} is for {:?}, expected {:?}", s.0, w.0));
            }
            if let Some(x) = same_node(&w.1, &s.1) {
                return violation("order", format!("{what}: call {i} ({:?}) is not for its place: {x}", s.0));
            }
        }
        let n = match self.stop {
            Some((i, _)) => i + 1,
            None => want.len(),
        };
        if seen.len() != n {
            return violation("calls", format!("{what}: {} calls, {n} expected", seen.len()));
        }
        match (&out, self.stop) {
            (Some(_), Some(_)) => violation("swallowed", format!("{what}: the caller's panic did not arrive")),
            _ => Ok(out),
        }
    }
}
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}
/// run on the document, its item, its tree, or its tree with an anchor around
macro_rules! on_level {
    ($d:expr, $level:expr, |$t:ident| $body:expr) => {{
        let i = $d.items.iter().position(|i| matches!(i, DocumentData::Yaml(_)));
        match ($level % 4, i) {
            (1, Some(i)) => {
                let $t = &mut $d.items[i];
                guarded(|| $body)
            }
            (2, Some(i)) => match &mut $d.items[i] {
                DocumentData::Yaml($t) => guarded(|| $body),
                _ => unreachable!(),
            },
            (3, Some(i)) => match &mut $d.items[i] {
                DocumentData::Yaml(y) => {
                    let value = std::mem::replace(y, Yaml::Hash(vec![]));
                    let mut a = AliasedYaml { alias: None, value };
                    let r = {
                        let $t = &mut a;
                        guarded(|| $body)
                    };
                    *y = a.value;
                    r
                }
                _ => unreachable!(),
            },
            _ => {
                let $t = &mut *$d;
                guarded(|| $body)
            }
        }
    }};
}
fn mark(i: usize) -> MNode {
    MNode::Sc(Scalar::Plain(format!("m{i}")))
}
thread_local! {
    static OWN: Cell<bool> = const { Cell::new(false) };
}
/// only what is stored has to be storable
fn keepable(m: &MDoc) -> bool {
    OWN.get() || storable(m)
}
/// block collections in flow collections, and fields that are there twice
fn own(n: &mut MNode, shape: u8, i: &mut u32) {
    let bit = |i: &mut u32| {
        *i += 1;
        (shape as u32 ^ *i).wrapping_mul(0x9e37_79b9) >> 30
    };
    match n {
        MNode::Map { flow, ents } => {
            for e in ents.iter_mut() {
                if let Ent::Kv { val, .. } = e {
                    own(val, shape, i)
                }
            }
            if ents.iter().all(|e| matches!(e, Ent::Kv { alias: None, .. })) {
                *flow |= bit(i) == 0;
                if *flow && bit(i) == 0 && !ents.is_empty() && ents.len() < 100 {
                    let j = *i as usize % ents.len();
                    ents.insert(j, ents[j].clone());
                }
            }
        }
        MNode::Seq { flow, items } => {
            for e in items.iter_mut() {
                if let Item::El { val, .. } = e {
                    own(val, shape, i)
                }
            }
            *flow |= items.iter().all(|e| matches!(e, Item::El { alias: None, .. })) && bit(i) < 2;
        }
        _ => {}
    }
}
fn node_path(p: &Place) -> Vec<usize> {
    match p {
        Place::Node(p) => p.clone(),
        Place::Entry(p, i) => p.iter().copied().chain([*i]).collect(),
    }
}
fn inner_model(n: &mut MNode, e: &Edit) {
    let mut m = MDoc { lead: vec![], pre: vec![], root: n.clone(), post: vec![] };
    c02::apply(&mut m, e);
    *n = m.root
}
fn wrap(i: usize, old: MNode) -> MNode {
    MNode::Map { flow: false, ents: vec![Ent::Kv { key: format!("m{i}"), alias: None, val: old }] }
}
/// the change of call i, on the reference
fn change(root: &mut MNode, p: &Place, i: usize, style: &Style) {
    if let (Place::Entry(p, j), Style::Key | Style::Alias) = (p, style) {
        if let MNode::Map { ents, .. } = at_mut(root, p) {
            if let Ent::Kv { key, alias, val } = &mut ents[*j] {
                match style {
                    Style::Key => *key = format!("m{i}"),
                    _ if matches!(val, MNode::Ref(_)) => {}
                    _ => *alias = Some(format!("m{i}")),
                }
            }
        }
        return;
    }
    let path = node_path(p);
    let n = at_mut(root, &path);
    match style {
        Style::Value | Style::Key if path.is_empty() => *n = wrap(i, n.clone()),
        Style::Value | Style::Key => *n = mark(i),
        Style::Inner(e) => inner_model(n, e),
        _ => {}
    }
}
fn each(c: &mut Ctx, d: &mut Document, m: &mut MDoc, path: &MPath, level: u8, style: &Style, list: bool, stop: &Option<Stop>) -> Res {
    let places = select(&m.root, path);
    let calls = Calls::new(places.len(), stop);
    let mut m2 = m.clone();
    let done = calls.done(places.len());
    for (i, p) in places.iter().enumerate().take(done) {
        change(&mut m2.root, p, i, style);
    }
    if !keepable(&m2) {
        c.count("edit skipped: result could not be stored");
        return Ok(());
    }
    let want: Vec<(String, MNode)> = places
        .iter()
        .map(|p| {
            let n = at(&m.root, &node_path(p)).clone();
            match p {
                Place::Node(_) => ("(value)".to_string(), n),
                Place::Entry(q, j) => match at(&m.root, q) {
                    MNode::Map { ents, .. } => match &ents[*j] {
                        Ent::Kv { key, alias, .. } => (format!("{key} &{alias:?}"), n),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                },
            }
        })
        .collect();
    let lp = lib_path(path)?;
    let inner = match style {
        Style::Inner(e) => Some((lib_path(&e.path)?, e.op.clone())),
        _ => None,
    };
    let below = |y: &mut Yaml| {
        if let Some((p, op)) = &inner {
            lib_edit(y, p, op);
        }
    };
    let at_root = path.parts.is_empty();
    let f = |e: &mut HashElement| {
        calls.call(format!("{} &{:?}", e.key, e.value.alias), proj(&e.value.value), |i| {
            match style {
                Style::Nothing => {}
                Style::Value => e.value.value = to_yaml(&mark(i)),
                Style::Key => e.key = format!("m{i}"),
                Style::Alias if matches!(e.value.value, Yaml::Anchor(_)) => {}
                Style::Alias => e.value.alias = Some(format!("m{i}")),
                Style::Inner(_) => below(&mut e.value.value),
            }
            i
        })
    };
    let r = |y: &mut Yaml| {
        calls.call("(value)".into(), proj(y), |i| {
            match style {
                Style::Nothing | Style::Alias => {}
                Style::Value | Style::Key if at_root => {
                    *y = Yaml::Hash(vec![HashData::Element(HashElement {
                        key: format!("m{i}"),
                        value: AliasedYaml { alias: None, value: y.clone() },
                    })])
                }
                Style::Value | Style::Key => *y = to_yaml(&mark(i)),
                Style::Inner(_) => below(y),
            }
            i
        })
    };
    c.note(|| format!("for_hash {lp:?} {style:?}, {} places, stop {:?}", places.len(), calls.stop));
    let got = if list {
        c.count("edit: by closure, collecting a list");
        on_level!(d, level, |t| t.for_hash(&lp, &|e: &mut HashElement| MyVec(vec![f(e)]), &|y: &mut Yaml| MyVec(vec![r(y)]))).map(|MyVec(v)| v)
    } else {
        c.count("edit: by closure, counting");
        on_level!(d, level, |t| t.for_hash(&lp, &|e: &mut HashElement| f(e) + 1, &|y: &mut Yaml| r(y) + 1)).map(|n: usize| {
            let full = (1..=places.len()).sum::<usize>();
            if n == full {
                (0..places.len()).collect()
            } else {
                vec![n]
            }
        })
    };
    if places.len() > 1 {
        c.count("edit hit: several places");
    }
    if let Some(v) = calls.judge(c, "for_hash", &want, got)? {
        if v != (0..places.len()).collect::<Vec<_>>() {
            return violation("result", format!("for_hash: {} places, but the results add up to {v:?}", places.len()));
        }
    }
    *m = m2;
    Ok(())
}
fn key_at(data: &[HashData], i: Option<usize>) -> Option<String> {
    match data.get(i?) {
        Some(HashData::Element(e)) => Some(e.key.clone()),
        _ => Some("(no field)".into()),
    }
}
/// which one of several fields of the same name
fn nth(data: &[HashData], key: &str, i: Option<usize>) -> usize {
    data.iter().take(i.unwrap_or(0)).filter(|e| matches!(e, HashData::Element(e) if e.key == key)).count()
}
fn put(m: &mut MNode, key: &str, idx: Option<usize>, val: MNode) {
    if let MNode::Map { ents, .. } = m {
        let e = Ent::Kv { key: key.into(), alias: None, val };
        match idx {
            Some(i) => ents[i] = e,
            None => ents.push(e),
        }
    }
}
fn by_slots(c: &mut Ctx, d: &mut Document, m: &mut MDoc, path: &MPath, level: u8, style: u8, stop: &Option<Stop>) -> Res {
    let sl = slots(&m.root, path);
    let calls = Calls::new(sl.len(), stop);
    let mut m2 = m.clone();
    for (i, (p, key, idx)) in sl.iter().enumerate().take(calls.done(sl.len())) {
        match style % 3 {
            0 => put(at_mut(&mut m2.root, p), &format!("m{i}"), None, mark(i)),
            1 => put(at_mut(&mut m2.root, p), key, *idx, mark(i)),
            _ => {}
        }
    }
    if !keepable(&m2) {
        c.count("edit skipped: result could not be stored");
        return Ok(());
    }
    let want: Vec<(String, MNode)> = sl
        .iter()
        .map(|(p, key, idx)| (format!("{key}: {:?}, 0 before", idx.map(|_| key)), at(&m.root, p).clone()))
        .collect();
    let lp = lib_path(path)?;
    let f = |data: &mut Vec<HashData>, key: String, idx: Option<usize>| {
        let tag = format!("{key}: {:?}, {} before", key_at(data, idx), nth(data, &key, idx));
        calls.call(tag, proj(&Yaml::Hash(data.clone())), |i| {
            let new = |key: &str| {
                HashData::Element(HashElement {
                    key: key.to_string(),
                    value: AliasedYaml { alias: None, value: to_yaml(&mark(i)) },
                })
            };
            match (style % 3, idx) {
                (0, _) => data.push(new(&format!("m{i}"))),
                (1, Some(j)) => data[j] = new(&key),
                (1, None) => data.push(new(&key)),
                _ => {}
            }
            i + 1
        })
    };
    c.note(|| format!("edit_hash_structure {lp:?}, {} slots, stop {:?}", sl.len(), calls.stop));
    c.count("edit: structure by closure");
    let got = on_level!(d, level, |t| t.edit_hash_structure(&lp, &f));
    if let Some(v) = calls.judge(c, "edit_hash_structure", &want, got)? {
        let full = (1..=sl.len()).sum::<usize>();
        if v != full {
            return violation("result", format!("edit_hash_structure reports {v}, its calls {full}"));
        }
    }
    *m = m2;
    Ok(())
}
fn by_call(c: &mut Ctx, d: &mut Document, m: &mut MDoc, path: &MPath, level: u8, overwrite: bool, stop: &Option<Stop>) -> Res {
    let sl = slots(&m.root, path);
    // a value may be asked for where a field stays as it is, or not
    let put_at: Vec<bool> = sl.iter().map(|s| s.2.is_none() || overwrite).collect();
    let puts = put_at.iter().filter(|x| **x).count();
    let lp = lib_path(path)?;
    let before = m.clone();
    // index of the call that panics: it has to exist in either case
    let stop = stop.as_ref().filter(|_| puts > 0).map(|s| s.at as usize % puts);
    let model = |eager: bool| -> MDoc {
        let mut m2 = before.clone();
        let mut call = 0;
        for ((p, key, idx), put_it) in sl.iter().zip(&put_at) {
            if !eager && !put_it {
                continue;
            }
            if stop == Some(call) {
                break;
            }
            if *put_it {
                put(at_mut(&mut m2.root, p), key, *idx, mark(call));
            }
            call += 1;
        }
        m2
    };
    let (eager, lazy) = (model(true), model(false));
    if !keepable(&eager) || !keepable(&lazy) {
        c.count("edit skipped: result could not be stored");
        return Ok(());
    }
    c.count("edit: insert by call");
    let calls = Calls { n: Cell::new(0), stop: stop.map(|i| (i, false)), dead: Cell::new(false), after: Cell::new(0), seen: RefCell::new(vec![]) };
    let h = || AliasedYaml { alias: None, value: calls.call(String::new(), mark(0), |i| to_yaml(&mark(i))) };
    c.note(|| format!("insert_into_hash_by_call {lp:?}, {} slots, {puts} to be filled, stop {stop:?}", sl.len()));
    let got = on_level!(d, level, |t| t.insert_into_hash_by_call(&lp, h, overwrite));
    let n = match stop {
        Some(i) => i + 1,
        None if calls.n.get() == puts => puts,
        None => sl.len(),
    };
    let want = vec![(String::new(), mark(0)); n];
    if let Some(v) = calls.judge(c, "insert_into_hash_by_call", &want, got)? {
        if v != puts {
            return violation("result", format!("{v} insertions reported, {puts} made"));
        }
    }
    let got = proj_doc(d).map(|g| g.root);
    *m = match &got {
        Some(g) if same_node(&lazy.root, g).is_none() => lazy,
        _ => eager,
    };
    Ok(())
}

// ------------------------------------------------------------ map and visit
pub fn count(n: &MNode) -> usize {
    1 + match n {
        MNode::Map { ents, .. } => ents.iter().map(|e| if let Ent::Kv { val, .. } = e { count(val) } else { 0 }).sum::<usize>(),
        MNode::Seq { items, .. } => items.iter().map(|e| if let Item::El { val, .. } = e { count(val) } else { 0 }).sum(),
        _ => 0,
    }
}
/// what the caller makes of node i, children first
fn map_one(n: MNode, i: usize, total: usize, style: u8, every: u8) -> MNode {
    let hit = i % (every as usize + 1) == 0;
    match (style % 4, n) {
        (1, MNode::Sc(_)) if hit => mark(i),
        (2, MNode::Map { flow, mut ents }) => {
            ents.push(Ent::Kv { key: format!("m{i}"), alias: None, val: mark(i) });
            MNode::Map { flow, ents }
        }
        (3, _) if hit && i + 1 < total => MNode::Sc(Scalar::Double(vec![QP::Text(format!("m{i}"))])),
        (_, n) => n,
    }
}
fn map_model(n: MNode, i: &mut usize, top: bool, f: &mut impl FnMut(MNode, usize) -> MNode) -> MNode {
    let n = match n {
        MNode::Map { flow, ents } => MNode::Map {
            flow,
            ents: ents
                .into_iter()
                .map(|e| match e {
                    Ent::Kv { key, alias, val } => Ent::Kv { key, alias, val: map_model(val, i, true, f) },
                    c => c,
                })
                .collect(),
        },
        MNode::Seq { flow, items } => MNode::Seq {
            flow,
            items: items
                .into_iter()
                .map(|e| match e {
                    Item::El { alias, val } => Item::El { alias, val: map_model(val, i, true, f) },
                    c => c,
                })
                .collect(),
        },
        n => n,
    };
    if !top {
        return n;
    }
    let k = *i;
    *i += 1;
    f(n, k)
}
fn root_pos(d: &Document) -> Res<usize> {
    match d.items.iter().position(|i| matches!(i, DocumentData::Yaml(_))) {
        Some(i) => Ok(i),
        None => violation("content", "no root"),
    }
}
fn map(c: &mut Ctx, d: &mut Document, m: &mut MDoc, level: u8, style: u8, every: u8, stop: &Option<Stop>) -> Res {
    let flow = matches!(m.root, MNode::Map { flow: true, .. } | MNode::Seq { flow: true, .. });
    // the collection's own implementation does not call for the collection
    let inner = level % 3 == 1 && !flow;
    let total = count(&m.root);
    let n = total - inner as usize;
    let mut want = Vec::new();
    let root = map_model(m.root.clone(), &mut 0, !inner, &mut |n, i| {
        want.push((String::new(), n.clone()));
        map_one(n, i, total, style, every)
    });
    let m2 = MDoc { root, ..m.clone() };
    if !keepable(&m2) {
        c.count("edit skipped: result could not be stored");
        return Ok(());
    }
    c.count("edit: map");
    let i = root_pos(d)?;
    let DocumentData::Yaml(y) = &mut d.items[i] else { unreachable!() };
    let copy = y.clone();
    let go = |y: Yaml, calls: &Calls| {
        let mut f = |y: Yaml| {
            let p = proj(&y);
            calls.call(String::new(), p.clone(), |i| match map_one(p.clone(), i, total, style, every) {
                n if n == p => y,
                n => to_yaml(&n),
            })
        };
        guarded(|| match (y, inner, level % 3) {
            (Yaml::Hash(v), true, _) => Yaml::Hash(v.map_yaml(&mut f)),
            (Yaml::Array(v), true, _) => Yaml::Array(v.map_yaml(&mut f)),
            (y, _, 2) => AliasedYaml { alias: None, value: y }.map_yaml(&mut f).value,
            (y, _, _) => y.map_yaml(&mut f),
        })
    };
    let calls = Calls::new(n, stop);
    let got = go(y.clone(), &calls);
    let out = calls.judge(c, "map_yaml", &want, got)?;
    let out = match out {
        Some(out) => out,
        None => {
            // what was moved into the call is gone; the copy is not
            if *y != copy {
                return violation("content", "an interrupted map_yaml changed another tree");
            }
            let calls = Calls::new(n, &None);
            let got = go(copy, &calls);
            match calls.judge(c, "map_yaml, second attempt", &want, got)? {
                Some(v) => v,
                None => return violation("swallowed", "map_yaml ended"),
            }
        }
    };
    *y = out;
    *m = m2;
    Ok(())
}
fn visited(n: &MNode, out: &mut Vec<(String, MNode)>) {
    match n {
        MNode::Map { flow: false, ents } => {
            for e in ents {
                if let Ent::Kv { alias, val, .. } = e {
                    out.push((format!("{alias:?}"), val.clone()));
                    visited(val, out)
                }
            }
        }
        MNode::Seq { flow: false, items } => {
            for e in items {
                if let Item::El { alias, val } = e {
                    out.push((format!("{alias:?}"), val.clone()));
                    visited(val, out)
                }
            }
        }
        // values in a flow collection have no anchor; what is in them has
        MNode::Map { ents, .. } => ents.iter().for_each(|e| {
            if let Ent::Kv { val, .. } = e {
                visited(val, out)
            }
        }),
        MNode::Seq { items, .. } => items.iter().for_each(|e| {
            if let Item::El { val, .. } = e {
                visited(val, out)
            }
        }),
        _ => {}
    }
}
fn visit(c: &mut Ctx, d: &mut Document, m: &mut MDoc, level: u8, stop: &Option<Stop>) -> Res {
    let mut want = Vec::new();
    if level % 3 == 2 {
        want.push(("None".to_string(), m.root.clone()));
    }
    visited(&m.root, &mut want);
    c.count("visit");
    let calls = Calls::new(want.len(), stop);
    let before = d.clone();
    let i = root_pos(d)?;
    let DocumentData::Yaml(y) = &d.items[i] else { unreachable!() };
    let mut f = |a: &AliasedYaml| calls.call(format!("{:?}", a.alias), proj(&a.value), |_| ());
    let got = guarded(|| match (y, level % 3) {
        (Yaml::Hash(v), 1) => v.visit_yaml(&mut f),
        (Yaml::Array(v), 1) => v.visit_yaml(&mut f),
        (y, 2) => AliasedYaml { alias: None, value: y.clone() }.visit_yaml(&mut f),
        (Yaml::Hash(v), 0) if level == 3 => v.iter().for_each(|d| match d {
            HashData::Element(e) => e.visit_yaml(&mut f),
            d => d.visit_yaml(&mut f),
        }),
        (Yaml::Array(v), 0) if level == 3 => v.iter().for_each(|d| match d {
            ArrayData::Element(e) => e.visit_yaml(&mut f),
            d => d.visit_yaml(&mut f),
        }),
        (y, _) => y.visit_yaml(&mut f),
    });
    calls.judge(c, "visit_yaml", &want, got)?;
    if *d != before {
        return violation("content", "visiting changed the document");
    }
    Ok(())
}

struct Closures;
impl Sem for Closures {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        match e {
            Op::Change(e) => {
                c.count("op: document changed");
                mutate(m, e);
                *d = to_doc(m);
                Ok(())
            }
            Op::Edit(e) => c02::step(c, d, m, e),
            Op::Each { path, level, style, list, stop } => each(c, d, m, path, *level, style, *list, stop),
            Op::Slots { path, level, style, stop } => by_slots(c, d, m, path, *level, *style, stop),
            Op::ByCall { path, level, overwrite, stop } => by_call(c, d, m, path, *level, *overwrite, stop),
            Op::Map { level, style, every, stop } => map(c, d, m, *level, *style, *every, stop),
            Op::Visit { level, stop } => visit(c, d, m, *level, stop),
            Op::Own { shape, op } => {
                let mut m2 = m.clone();
                own(&mut m2.root, *shape, &mut 0);
                if m2 == *m || size(&m2.root) > 3000 {
                    return Ok(());
                }
                c.count("op: on a tree of the program's own");
                let mut d2 = to_doc(&m2);
                OWN.set(true);
                let r = self.apply(c, &mut d2, &mut m2, op);
                OWN.set(false);
                r?;
                match proj_doc(&d2) {
                    Some(x) if x == m2 => Ok(()),
                    Some(x) => violation(
                        "content",
                        match same_node(&m2.root, &x.root) {
                            Some(x) => format!("a tree of the program's own: {x}"),
                            None => "comments of a tree of the program's own".to_string(),
                        },
                    ),
                    None => violation("content", "the document's root is lost"),
                }
            }
        }
    }
}
fn gen_stop(g: &mut Gen) -> Option<Stop> {
    if g.r.pct(60) {
        Some(Stop { at: g.r.below(64) as u16, after: g.r.pct(50) })
    } else {
        None
    }
}
fn gen_op(g: &mut Gen, shadow: &mut MDoc) -> Op {
    if g.r.pct(15) {
        // paths that fit the tree as it will be
        let shape = g.r.u64() as u8;
        let mut s = shadow.clone();
        own(&mut s.root, shape, &mut 0);
        let op = loop {
            match gen_op_on(g, &mut s) {
                Op::Change(_) | Op::Edit(_) => continue,
                op => break op,
            }
        };
        return Op::Own { shape, op: Box::new(op) };
    }
    gen_op_on(g, shadow)
}
fn gen_op_on(g: &mut Gen, shadow: &mut MDoc) -> Op {
    let level = g.r.below(4) as u8;
    match g.r.below(20) {
        0 => Op::Change(gen_mutation(g)),
        1 | 2 => Op::Edit(c02::gen_edit(g, shadow)),
        3..=9 => {
            let path = c02::gen_path(g, &shadow.root, false).0;
            let style = match g.r.below(8) {
                0 => Style::Nothing,
                1 | 2 => Style::Key,
                3 => Style::Alias,
                4 | 5 => {
                    // an edit that fits the first place
                    match select(&shadow.root, &path).first() {
                        Some(p) => {
                            let mut s = MDoc {
                                lead: vec![],
                                pre: vec![],
                                root: at(&shadow.root, &node_path(p)).clone(),
                                post: vec![],
                            };
                            Style::Inner(Box::new(c02::gen_edit(g, &mut s)))
                        }
                        None => Style::Value,
                    }
                }
                _ => Style::Value,
            };
            let (list, stop) = (g.r.pct(50), gen_stop(g));
            Op::Each { path, level, style, list, stop }
        }
        10..=12 => {
            let path = slot_path(g, shadow);
            Op::Slots { path, level, style: g.r.below(3) as u8, stop: gen_stop(g) }
        }
        13 | 14 => {
            let path = slot_path(g, shadow);
            Op::ByCall { path, level, overwrite: g.r.pct(60), stop: gen_stop(g) }
        }
        15 | 16 => Op::Map { level, style: g.r.below(4) as u8, every: g.r.below(4) as u8, stop: gen_stop(g) },
        _ => Op::Visit { level, stop: gen_stop(g) },
    }
}
fn slot_path(g: &mut Gen, shadow: &MDoc) -> MPath {
    let (mut path, here) = c02::gen_path(g, &shadow.root, true);
    if matches!(here, MNode::Map { flow: false, .. }) && g.r.pct(60) {
        path.root.clear();
        path.parts.push(c02::Part { step: c02::Step::Key(g.key()), conds: vec![] });
    }
    path
}
pub fn gen(r: &mut Rng) -> Plan {
    gen_plan(
        r,
        2,
        |r, k| {
            k.records = *r.pick(&[0, 30, 60]);
            k.width = k.width.max(2);
            k.depth = k.depth.max(2);
            if r.pct(60) {
                k.weird = 0;
            }
        },
        gen_op,
        5,
    )
}
pub fn valid(p: &Plan) -> bool {
    let edit_ok = |e: &Edit| {
        c02::path_ok(&e.path)
            && match &e.op {
                c02::EOp::Insert { val, .. } => size(val) < 500,
                c02::EOp::Rename { to } => text::valid_key(to),
                c02::EOp::ToObject { key } => text::valid_key(key),
                _ => true,
            }
    };
    valid_plan(p)
        && p.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(|e| match if let Op::Own { op, .. } = e { &**op } else { e } {
                Op::Own { .. } => false,
                Op::Edit(e) => edit_ok(e),
                Op::Each { path, style: Style::Inner(e), .. } => c02::path_ok(path) && edit_ok(e),
                Op::Each { path, .. } | Op::Slots { path, .. } | Op::ByCall { path, .. } => c02::path_ok(path),
                _ => true,
            }),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    run(p, &mut Closures, c)
}
