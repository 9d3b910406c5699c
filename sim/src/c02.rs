//! C02: histories of path edits refine a small reference model, also across
//! saves, crashes and reloads.
use crate::c01::storable;
use crate::core::*;
use crate::gen::Gen;
use crate::model::*;
use crate::rng::Rng;
use crate::text;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::str::FromStr;
use yaml_subset::yaml::{
    AliasedYaml, Document, DocumentData, HashElement, MyVec, Yaml, YamlInsert,
};
use yaml_subset::YamlPath;

pub type Cond = (String, String);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Key(String),
    All,
    At(Vec<usize>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub step: Step,
    pub conds: Vec<Cond>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MPath {
    /// conditions of the path that has no parts
    pub root: Vec<Cond>,
    pub parts: Vec<Part>,
    /// build it piece by piece even if it can be written
    pub pieces: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edit {
    pub path: MPath,
    /// on the document (0), on its item (1), on its tree (2)
    pub level: u8,
    pub op: EOp,
    /// on a tree of the program's own, with block values in flow lists
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub loose: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EOp {
    Insert { val: MNode, alias: Option<String>, overwrite: bool, by_call: bool },
    Remove,
    Rename { to: String },
    ToObject { key: String },
    Find,
    Tag,
    MoveSub { sub: String, fields: Vec<String> },
    MoveMap { old: String, sel: String, new: String, keeps: Vec<String> },
}

// ------------------------------------------------------------------- paths
fn cond_ok(c: &Cond) -> bool {
    let edge = |s: &str| s.starts_with(' ') || s.ends_with(' ');
    !c.0.is_empty()
        && !c.0.contains('=')
        && !edge(&c.0)
        && !c.1.is_empty()
        && !c.1.contains(['.', '|'])
        && !edge(&c.1)
}
fn key_ok(k: &str) -> bool {
    !k.is_empty() && !k.contains(['[', ']', '.', '|']) && !k.starts_with(' ') && !k.ends_with(' ')
}
pub fn path_ok(p: &MPath) -> bool {
    p.root.iter().all(cond_ok)
        && p.parts.len() <= 80
        && (p.parts.is_empty() || p.root.is_empty())
        && p.parts.iter().all(|x| {
            x.conds.iter().all(cond_ok)
                && match &x.step {
                    Step::Key(k) => key_ok(k),
                    Step::All => true,
                    Step::At(v) => {
                        !v.is_empty()
                            && v.iter().enumerate().all(|(i, a)| !v[..i].contains(a) && *a < 1 << 40)
                    }
                }
        })
}
fn conds_text(c: &[Cond]) -> String {
    c.iter().map(|(f, v)| format!("|{f}={v}")).collect()
}
fn part_text(x: &Part) -> String {
    match &x.step {
        Step::Key(k) => format!("{k}{}", conds_text(&x.conds)),
        Step::All => format!("[*]{}", conds_text(&x.conds)),
        Step::At(v) => format!("[{}]{}", v[0], conds_text(&x.conds)),
    }
}
/// the path as text, if it can be written at all
pub fn path_text(p: &MPath) -> Option<String> {
    if p.parts.is_empty() {
        return Some(conds_text(&p.root));
    }
    let mut s = String::new();
    let mut after_cond = false;
    for (i, x) in p.parts.iter().enumerate() {
        match &x.step {
            Step::Key(_) if i > 0 => s.push('.'),
            Step::Key(_) => {}
            // the value of a condition would swallow the index
            _ if i == 0 || after_cond => return None,
            Step::At(v) if v.len() != 1 => return None,
            _ => {}
        }
        s.push_str(&part_text(x));
        after_cond = !x.conds.is_empty();
    }
    Some(s)
}
fn parse(s: &str) -> Res<YamlPath> {
    match lib("YamlPath::from_str", || YamlPath::from_str(s))? {
        Ok(p) => Ok(p),
        Err(e) => violation("path", format!("path {s:?} is refused: {e}")),
    }
}
pub fn lib_path(p: &MPath) -> Res<YamlPath> {
    if !p.pieces {
        if let Some(t) = path_text(p) {
            return parse(&t);
        }
    }
    let mut out = parse(&conds_text(&p.root))?;
    for x in &p.parts {
        let mut piece = match &x.step {
            Step::Key(_) => parse(&part_text(x))?,
            _ => match parse(&format!("k{}", part_text(x)))? {
                YamlPath::Key(_, _, Some(rest)) => *rest,
                o => return violation("path", format!("index path read as {o:?}")),
            },
        };
        if let (Step::At(v), YamlPath::Indexes(w, _, _)) = (&x.step, &mut piece) {
            *w = v.clone();
        }
        lib("YamlPath::insert", || out.insert(piece))?;
    }
    Ok(out)
}

// ------------------------------------------------- which places a path selects
#[derive(Clone, Debug, PartialEq)]
pub enum Place {
    Node(Vec<usize>),
    /// entry of the map at this place
    Entry(Vec<usize>, usize),
}
pub fn at<'a>(n: &'a MNode, p: &[usize]) -> &'a MNode {
    let Some((&i, rest)) = p.split_first() else { return n };
    match n {
        MNode::Map { ents, .. } => match &ents[i] {
            Ent::Kv { val, .. } => at(val, rest),
            _ => unreachable!(),
        },
        MNode::Seq { items, .. } => match &items[i] {
            Item::El { val, .. } => at(val, rest),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
pub fn at_mut<'a>(n: &'a mut MNode, p: &[usize]) -> &'a mut MNode {
    let Some((&i, rest)) = p.split_first() else { return n };
    match n {
        MNode::Map { ents, .. } => match &mut ents[i] {
            Ent::Kv { val, .. } => at_mut(val, rest),
            _ => unreachable!(),
        },
        MNode::Seq { items, .. } => match &mut items[i] {
            Item::El { val, .. } => at_mut(val, rest),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn field(n: &MNode, key: &str) -> Option<usize> {
    match n {
        MNode::Map { flow: false, ents } => {
            ents.iter().position(|e| matches!(e, Ent::Kv{key:k,..} if k==key))
        }
        _ => None,
    }
}
fn field_val<'a>(n: &'a MNode, key: &str) -> Option<(&'a Option<String>, &'a MNode)> {
    let i = field(n, key)?;
    match n {
        MNode::Map { ents, .. } => match &ents[i] {
            Ent::Kv { alias, val, .. } => Some((alias, val)),
            _ => None,
        },
        _ => None,
    }
}
fn fits(n: &MNode, conds: &[Cond]) -> bool {
    conds.iter().all(|(f, v)| {
        field_val(n, f).and_then(|(_, x)| as_string(x)).map_or(false, |s| s == *v)
    })
}
fn elements(n: &MNode) -> Vec<usize> {
    match n {
        MNode::Seq { items, .. } => (0..items.len())
            .filter(|i| matches!(items[*i], Item::El { .. }))
            .collect(),
        _ => vec![],
    }
}
fn chosen(n: &MNode, step: &Step) -> Vec<usize> {
    let e = elements(n);
    match step {
        Step::All => e,
        Step::At(v) => v.iter().filter_map(|i| e.get(*i).copied()).collect(),
        Step::Key(_) => vec![],
    }
}
fn child(here: &[usize], i: usize) -> Vec<usize> {
    let mut v = here.to_vec();
    v.push(i);
    v
}
/// places that exist
pub fn select(root: &MNode, p: &MPath) -> Vec<Place> {
    fn go(root: &MNode, here: Vec<usize>, parts: &[Part], out: &mut Vec<Place>) {
        let n = at(root, &here);
        let Some((x, rest)) = parts.split_first() else {
            out.push(Place::Node(here));
            return;
        };
        match &x.step {
            Step::Key(k) => {
                if !fits(n, &x.conds) {
                    return;
                }
                if let Some(i) = field(n, k) {
                    if rest.is_empty() {
                        out.push(Place::Entry(here, i))
                    } else {
                        go(root, child(&here, i), rest, out)
                    }
                }
            }
            s => {
                for i in chosen(n, s) {
                    let c = child(&here, i);
                    if fits(at(root, &c), &x.conds) {
                        go(root, c, rest, out)
                    }
                }
            }
        }
    }
    let mut out = Vec::new();
    if p.parts.is_empty() && !fits(root, &p.root) {
        return out;
    }
    go(root, vec![], &p.parts, &mut out);
    out
}
/// maps in which a field may be put or taken away
pub fn slots(root: &MNode, p: &MPath) -> Vec<(Vec<usize>, String, Option<usize>)> {
    fn go(
        root: &MNode,
        here: Vec<usize>,
        parts: &[Part],
        out: &mut Vec<(Vec<usize>, String, Option<usize>)>,
    ) {
        let n = at(root, &here);
        let Some((x, rest)) = parts.split_first() else { return };
        match &x.step {
            Step::Key(k) => {
                if !fits(n, &x.conds) || !matches!(n, MNode::Map { flow: false, .. }) {
                    return;
                }
                let i = field(n, k);
                if rest.is_empty() {
                    out.push((here, k.clone(), i))
                } else if let Some(i) = i {
                    go(root, child(&here, i), rest, out)
                }
            }
            s => {
                for i in chosen(n, s) {
                    let c = child(&here, i);
                    if fits(at(root, &c), &x.conds) {
                        go(root, c, rest, out)
                    }
                }
            }
        }
    }
    let mut out = Vec::new();
    go(root, vec![], &p.parts, &mut out);
    out
}

// -------------------------------------------------------- what an edit does
fn remove_at(ents: &mut Vec<Ent>, i: usize) {
    ents.remove(i);
    if let Some(Ent::C { inline, .. }) = ents.get_mut(i) {
        *inline = false
    }
}
fn remove_field(n: &mut MNode, key: &str) {
    if let Some(i) = field(n, key) {
        if let MNode::Map { ents, .. } = n {
            remove_at(ents, i)
        }
    }
}
fn put(ents: &mut Vec<Ent>, key: &str, alias: Option<String>, val: MNode) {
    let e = Ent::Kv { key: key.to_string(), alias, val };
    match ents.iter().position(|e| matches!(e, Ent::Kv{key:k,..} if k==key)) {
        Some(i) => ents[i] = e,
        None => ents.push(e),
    }
}
pub fn move_sub(n: &mut MNode, sub: &str, fields: &[String]) -> usize {
    let mut moved: Vec<(String, Option<String>, MNode)> = Vec::new();
    for f in fields {
        if f == sub || moved.iter().any(|m| m.0 == *f) {
            continue;
        }
        if let Some((a, v)) = field_val(n, f) {
            moved.push((f.clone(), a.clone(), v.clone()));
        }
    }
    if moved.is_empty() {
        return 0;
    }
    match field(n, sub) {
        Some(i) => {
            let t = at_mut(n, &[i]);
            let MNode::Map { flow: false, ents } = t else { return 0 };
            for (k, a, v) in &moved {
                put(ents, k, a.clone(), v.clone());
            }
        }
        None => {
            let ents = moved
                .iter()
                .map(|(k, a, v)| Ent::Kv { key: k.clone(), alias: a.clone(), val: v.clone() })
                .collect();
            if let MNode::Map { ents: e, .. } = n {
                e.push(Ent::Kv {
                    key: sub.to_string(),
                    alias: None,
                    val: MNode::Map { flow: false, ents },
                })
            }
        }
    }
    for (k, _, _) in &moved {
        remove_field(n, k);
    }
    1
}
pub fn move_map(n: &mut MNode, old: &str, sel: &str, new: &str, keeps: &[String]) -> usize {
    if !matches!(n, MNode::Map { flow: false, .. }) || field(n, new).is_some() {
        return 0;
    }
    let Some((alias, MNode::Map { flow: false, ents })) = field_val(n, old) else { return 0 };
    let (alias, ents) = (alias.clone(), ents.clone());
    let mut groups: BTreeMap<String, Vec<Ent>> = BTreeMap::new();
    let mut stay: Vec<Ent> = Vec::new();
    // comments on their own lines go where the next field goes
    let mut pending: Vec<Ent> = Vec::new();
    let mut last: Option<String> = None;
    for e in ents {
        match e {
            Ent::C { inline: true, .. } if pending.is_empty() => match &last {
                Some(g) => groups.get_mut(g).unwrap().push(e),
                None => stay.push(e),
            },
            Ent::C { .. } => pending.push(e),
            Ent::Kv { key, alias, mut val } => {
                let group = field_val(&val, sel).and_then(|(_, v)| as_string(v));
                let to = match group {
                    None => None,
                    Some(g) => {
                        remove_field(&mut val, sel);
                        if g.is_empty() || keeps.contains(&g) {
                            None
                        } else {
                            Some(g)
                        }
                    }
                };
                let dest = match &to {
                    Some(g) => groups.entry(g.clone()).or_default(),
                    None => &mut stay,
                };
                dest.append(&mut pending);
                dest.push(Ent::Kv { key, alias, val });
                last = to;
            }
        }
    }
    match &last {
        Some(g) => groups.get_mut(g).unwrap().append(&mut pending),
        None => stay.append(&mut pending),
    }
    if groups.is_empty() {
        return 0;
    }
    let val = MNode::Map {
        flow: false,
        ents: groups
            .into_iter()
            .map(|(key, ents)| Ent::Kv {
                key,
                alias: None,
                val: MNode::Map { flow: false, ents },
            })
            .collect(),
    };
    if let MNode::Map { ents, .. } = n {
        ents.push(Ent::Kv { key: new.to_string(), alias: alias.clone(), val });
        put(ents, old, alias, MNode::Map { flow: false, ents: stay });
    }
    1
}
fn tag(i: usize) -> MNode {
    MNode::Sc(Scalar::Plain(format!("seen {i}")))
}
/// number of places, and the values found (for `Find`)
pub fn apply(m: &mut MDoc, e: &Edit) -> (usize, Vec<MNode>) {
    let root = &mut m.root;
    let entry_of = |p: &Place| match p {
        Place::Node(p) => p.clone(),
        Place::Entry(p, i) => child(p, *i),
    };
    match &e.op {
        EOp::Insert { val, alias, overwrite, .. } => {
            let mut n = 0;
            for (p, key, i) in slots(root, &e.path) {
                if i.is_none() || *overwrite {
                    if let MNode::Map { ents, .. } = at_mut(root, &p) {
                        put(ents, &key, alias.clone(), val.clone());
                        n += 1;
                    }
                }
            }
            (n, vec![])
        }
        EOp::Remove => {
            let mut n = 0;
            for (p, _, i) in slots(root, &e.path) {
                if let (Some(i), MNode::Map { ents, .. }) = (i, at_mut(root, &p)) {
                    remove_at(ents, i);
                    n += 1;
                }
            }
            (n, vec![])
        }
        EOp::Find => {
            let v: Vec<MNode> =
                select(root, &e.path).iter().map(|p| at(root, &entry_of(p)).clone()).collect();
            (v.len(), v)
        }
        EOp::Rename { to } => {
            let mut n = 0;
            for p in select(root, &e.path) {
                if let Place::Entry(p, i) = p {
                    if let MNode::Map { ents, .. } = at_mut(root, &p) {
                        if let Ent::Kv { key, .. } = &mut ents[i] {
                            *key = to.clone();
                            n += 1;
                        }
                    }
                }
            }
            (n, vec![])
        }
        EOp::ToObject { key: k } => {
            let mut n = 0;
            for p in select(root, &e.path) {
                if let Place::Entry(p, i) = p {
                    if let MNode::Map { ents, .. } = at_mut(root, &p) {
                        if let Ent::Kv { alias, val, .. } = &mut ents[i] {
                            let inner =
                                Ent::Kv { key: k.clone(), alias: alias.take(), val: val.clone() };
                            *val = MNode::Map { flow: false, ents: vec![inner] };
                            n += 1;
                        }
                    }
                }
            }
            (n, vec![])
        }
        EOp::Tag => {
            let ps = select(root, &e.path);
            for (i, p) in ps.iter().enumerate() {
                *at_mut(root, &entry_of(p)) = tag(i);
            }
            (ps.len(), vec![])
        }
        EOp::MoveSub { sub, fields } => {
            let mut n = 0;
            for p in select(root, &e.path) {
                n += move_sub(at_mut(root, &entry_of(&p)), sub, fields);
            }
            (n, vec![])
        }
        EOp::MoveMap { old, sel, new, keeps } => {
            let mut n = 0;
            for p in select(root, &e.path) {
                n += move_map(at_mut(root, &entry_of(&p)), old, sel, new, keeps);
            }
            (n, vec![])
        }
    }
}
pub fn lib_edit<T: YamlInsert>(t: &mut T, path: &YamlPath, op: &EOp) -> (usize, Vec<Yaml>) {
    match op {
        EOp::Insert { val, alias, overwrite, by_call } => {
            let v = AliasedYaml { alias: alias.clone(), value: to_yaml(val) };
            let n = if *by_call {
                t.insert_into_hash_by_call(path, || v.clone(), *overwrite)
            } else {
                t.insert_into_hash(path, &v, *overwrite)
            };
            (n, vec![])
        }
        EOp::Remove => (t.remove_from_hash(path), vec![]),
        EOp::Rename { to } => (t.rename_field(path, to.clone()), vec![]),
        EOp::ToObject { key } => (t.to_object(path, key.clone()), vec![]),
        EOp::Find => {
            let MyVec(v) = t.find_values(path);
            (v.len(), v)
        }
        EOp::Tag => {
            let seen = Cell::new(0usize);
            let next = || {
                let i = seen.get();
                seen.set(i + 1);
                to_yaml(&tag(i))
            };
            let f = |e: &mut HashElement| {
                e.value.value = next();
                1usize
            };
            let r = |y: &mut Yaml| {
                *y = next();
                1usize
            };
            (t.for_hash(path, &f, &r), vec![])
        }
        EOp::MoveSub { sub, fields } => {
            (t.move_to_subfield(path, sub.clone(), fields.clone()), vec![])
        }
        EOp::MoveMap { old, sel, new, keeps } => (
            t.move_to_map_with_field_as_key(
                path,
                old.clone(),
                sel.clone(),
                new.clone(),
                keeps.clone(),
            ),
            vec![],
        ),
    }
}
pub fn same_node(a: &MNode, b: &MNode) -> Option<String> {
    let (x, y) = (canon(a), canon(b));
    if x != y {
        return Some(first_diff(&x, &y, String::new()));
    }
    let (mut s, mut t) = (vec![], vec![]);
    stream_node(a, &mut s);
    stream_node(b, &mut t);
    if s != t {
        return Some("comments differ".into());
    }
    None
}
/// one edit on both sides, compared
/// block lists without comments and anchors as flow lists
fn loosen(n: &mut MNode) {
    match n {
        MNode::Map { ents, .. } => {
            for e in ents {
                if let Ent::Kv { val, .. } = e {
                    loosen(val)
                }
            }
        }
        MNode::Seq { flow, items } => {
            for e in items.iter_mut() {
                if let Item::El { val, .. } = e {
                    loosen(val)
                }
            }
            *flow |= items.iter().all(|e| matches!(e, Item::El { alias: None, .. }));
        }
        _ => {}
    }
}
pub fn step(c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Edit) -> Res {
    if !e.loose {
        return step_on(c, d, m, e);
    }
    // the tree is not stored in this form
    let mut m2 = m.clone();
    loosen(&mut m2.root);
    if m2 == *m {
        return Ok(());
    }
    c.count("edit of a program's own tree");
    let mut d2 = to_doc(&m2);
    step_on(c, &mut d2, &mut m2, e)?;
    match proj_doc(&d2) {
        Some(x) if x == m2 => Ok(()),
        Some(x) => violation(
            "content",
            match same_node(&m2.root, &x.root) {
                Some(x) => format!("a tree of the program's own, after an edit: {x}"),
                None => "comments of a tree of the program's own, after an edit".to_string(),
            },
        ),
        None => violation("content", "the edit loses the document's root"),
    }
}
fn step_on(c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Edit) -> Res {
    let mut m2 = m.clone();
    let (n, found) = apply(&mut m2, e);
    // documents that cannot be stored at all are not built here
    if !e.loose && !storable(&m2) {
        c.count("edit skipped: result could not be stored");
        return Ok(());
    }
    let name = match &e.op {
        EOp::Insert { overwrite: true, .. } => "edit: insert, overwriting",
        EOp::Insert { .. } => "edit: insert",
        EOp::Remove => "edit: remove",
        EOp::Rename { .. } => "edit: rename",
        EOp::ToObject { .. } => "edit: to object",
        EOp::Find => "edit: find",
        EOp::Tag => "edit: closure",
        EOp::MoveSub { .. } => "edit: move to subfield",
        EOp::MoveMap { .. } => "edit: move to map",
    };
    c.count(name);
    match &e.op {
        EOp::MoveSub { .. } if n > 0 => c.count("edit hit: move to subfield"),
        EOp::MoveMap { .. } if n > 0 => c.count("edit hit: move to map"),
        EOp::Rename { .. } if n > 0 => c.count("edit hit: rename"),
        EOp::Remove if n > 0 => c.count("edit hit: remove"),
        _ => {}
    }
    if n > 1 {
        c.count("edit hit: several places");
    }
    c.count(if n > 0 { "edit selected places" } else { "edit selected nothing" });
    let path = lib_path(&e.path)?;
    c.note(|| format!("edit {:?} by {path:?}", e.op));
    let (got, values) = lib("edit", || match (e.level % 3, d.items.iter_mut().position(|i| matches!(i, DocumentData::Yaml(_)))) {
        (1, Some(i)) => lib_edit(&mut d.items[i], &path, &e.op),
        (2, Some(i)) => match &mut d.items[i] {
            DocumentData::Yaml(y) => lib_edit(y, &path, &e.op),
            _ => unreachable!(),
        },
        _ => lib_edit(d, &path, &e.op),
    })?;
    c.ev("edit", got as u64, n as u64);
    if got != n {
        return violation("count", format!("{name}: {got} places reported, {n} expected"));
    }
    for (i, (want, v)) in found.iter().zip(&values).enumerate() {
        if let Some(x) = same_node(want, &proj(v)) {
            return violation("found", format!("value {i} found is not the one at its place: {x}"));
        }
    }
    *m = m2;
    Ok(())
}

pub struct Edits;
impl Sem for Edits {
    type E = Edit;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Edit) -> Res {
        step(c, d, m, e)
    }
}

// ---------------------------------------------------------------- generator
/// a condition that holds for this node, if it has a field that can be used
fn cond_for(g: &mut Gen, n: &MNode) -> Option<Cond> {
    let MNode::Map { flow: false, ents } = n else { return None };
    let c: Vec<Cond> = ents
        .iter()
        .filter_map(|e| match e {
            Ent::Kv { key, val, .. } => as_string(val).map(|v| (key.clone(), v)),
            _ => None,
        })
        .filter(cond_ok)
        .collect();
    if c.is_empty() {
        None
    } else {
        Some(g.r.pick(&c).clone())
    }
}
fn conds(g: &mut Gen, n: &MNode) -> Vec<Cond> {
    let mut v = Vec::new();
    while v.len() < 2 && g.r.pct(18) {
        let c = if g.r.pct(75) { cond_for(g, n) } else { None };
        v.push(c.unwrap_or_else(|| {
            let f = g.r.pick(&["name", "type", "id", "a", "k1"]).to_string();
            let t = g.r.pick(&["one", "two", "3", "x y"]).to_string();
            (f, t)
        }));
    }
    v
}
fn some_key(g: &mut Gen, n: &MNode) -> String {
    if let MNode::Map { ents, .. } = n {
        let k: Vec<&String> = ents
            .iter()
            .filter_map(|e| if let Ent::Kv { key, .. } = e { Some(key) } else { None })
            .filter(|k| key_ok(k))
            .collect();
        if !k.is_empty() && g.r.pct(80) {
            return (*g.r.pick(&k)).clone();
        }
    }
    g.key()
}
pub fn gen_path(g: &mut Gen, root: &MNode, want_map: bool) -> (MPath, MNode) {
    let mut here = root.clone();
    let mut parts: Vec<Part> = Vec::new();
    let stop = *g.r.pick(&[0, 20, 35, 60]);
    while parts.len() < 7 {
        let done = if want_map {
            matches!(here, MNode::Map { .. }) && g.r.pct(stop + 10)
        } else {
            !parts.is_empty() && g.r.pct(stop)
        };
        if done {
            break;
        }
        match &here {
            MNode::Map { flow, .. } => {
                if *flow && g.r.pct(80) {
                    break;
                }
                let k = some_key(g, &here);
                let cs = conds(g, &here);
                let next = field_val(&here, &k).map(|x| x.1.clone());
                parts.push(Part { step: Step::Key(k), conds: cs });
                match next {
                    Some(n) => here = n,
                    None => {
                        if g.r.pct(85) {
                            break;
                        }
                    }
                }
            }
            MNode::Seq { .. } => {
                let e = elements(&here);
                if e.is_empty() {
                    break;
                }
                let i = g.r.below(e.len());
                let next = at(&here, &[e[i]]).clone();
                let step = match g.r.below(10) {
                    0..=4 => Step::All,
                    5 | 6 if e.len() > 1 || g.r.pct(30) => {
                        let mut v: Vec<usize> = (0..e.len()).filter(|_| g.r.pct(60)).collect();
                        if v.is_empty() {
                            v.push(i)
                        }
                        if g.r.pct(30) {
                            v.reverse()
                        }
                        if g.r.pct(25) {
                            // one that is not there
                            let at = g.r.below(v.len() + 1);
                            v.insert(at, e.len() + g.r.below(3));
                        }
                        Step::At(v)
                    }
                    5 | 7 => Step::At(vec![g.r.below(e.len() + 2)]),
                    _ => Step::At(vec![i]),
                };
                let cs = conds(g, &next);
                parts.push(Part { step, conds: cs });
                here = next;
            }
            _ => {
                if g.r.pct(95) {
                    break;
                }
                parts.push(Part { step: Step::Key(g.key()), conds: vec![] });
            }
        }
    }
    let root_conds = if parts.is_empty() { conds(g, root) } else { vec![] };
    (MPath { root: root_conds, parts, pieces: g.r.pct(15) }, here)
}
/// paths to all nodes that satisfy `f`
fn paths_to(n: &MNode, here: &mut Vec<Step>, f: &impl Fn(&MNode) -> bool, out: &mut Vec<(Vec<Step>, MNode)>) {
    if f(n) {
        out.push((here.clone(), n.clone()));
    }
    match n {
        MNode::Map { flow: false, ents } => {
            for e in ents {
                if let Ent::Kv { key, val, .. } = e {
                    here.push(Step::Key(key.clone()));
                    paths_to(val, here, f, out);
                    here.pop();
                }
            }
        }
        MNode::Seq { items, .. } => {
            let vals = items.iter().filter_map(|i| if let Item::El { val, .. } = i { Some(val) } else { None });
            for (i, val) in vals.enumerate() {
                here.push(Step::At(vec![i]));
                paths_to(val, here, f, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn maps_of_maps(n: &MNode) -> bool {
    let map_of_maps = |v: &MNode| match v {
        MNode::Map { flow: false, ents } => {
            ents.iter().any(|e| matches!(e, Ent::Kv { val: MNode::Map { flow: false, .. }, .. }))
        }
        _ => false,
    };
    match n {
        MNode::Map { flow: false, ents } => {
            ents.iter().any(|e| matches!(e, Ent::Kv { val, .. } if map_of_maps(val)))
        }
        _ => false,
    }
}
pub fn gen_edit(g: &mut Gen, shadow: &mut MDoc) -> Edit {
    let kind = g.r.weighted(&[20, 14, 9, 8, 10, 6, 12, 12]);
    let want_map = kind >= 6 || (kind == 0 && g.r.pct(60));
    let (mut path, mut here) = gen_path(g, &shadow.root, want_map);
    if kind == 7 && g.r.pct(85) {
        let mut v = Vec::new();
        paths_to(&shadow.root, &mut vec![], &maps_of_maps, &mut v);
        if !v.is_empty() {
            let (steps, n) = g.r.pick(&v).clone();
            let all = g.r.pct(40);
            here = n;
            path.root.clear();
            path.parts = steps
                .into_iter()
                .map(|s| match s {
                    Step::At(_) if all => Part { step: Step::All, conds: vec![] },
                    step => Part { step, conds: vec![] },
                })
                .collect();
        }
    }
    let keys_of = |n: &MNode| -> Vec<String> {
        match n {
            MNode::Map { ents, .. } => ents
                .iter()
                .filter_map(|e| if let Ent::Kv { key, .. } = e { Some(key.clone()) } else { None })
                .collect(),
            _ => vec![],
        }
    };
    let op = match kind {
        0 => {
            if want_map && matches!(here, MNode::Map { flow: false, .. }) {
                let k = if g.r.pct(50) { g.key() } else { some_key(g, &here) };
                let cs = conds(g, &here);
                path.root.clear();
                path.parts.push(Part { step: Step::Key(k), conds: cs });
            }
            let d = g.r.below(3);
            let val = g.node(d, false);
            let alias = if !matches!(val, MNode::Ref(_)) && g.r.pct(g.k.aliases) {
                g.n += 1;
                Some(format!("i{}", g.n))
            } else {
                None
            };
            EOp::Insert { val, alias, overwrite: g.r.pct(55), by_call: g.r.pct(30) }
        }
        1 => EOp::Remove,
        2 => EOp::Rename { to: g.key() },
        3 => EOp::ToObject { key: g.key() },
        4 => EOp::Find,
        5 => EOp::Tag,
        6 => {
            let ks = keys_of(&here);
            let mut fields: Vec<String> = Vec::new();
            for k in &ks {
                if g.r.pct(45) {
                    fields.push(k.clone())
                }
            }
            if g.r.pct(25) {
                fields.push(g.key())
            }
            if g.r.pct(8) && !fields.is_empty() {
                let f = g.r.pick(&fields).clone();
                fields.push(f);
            }
            if g.r.pct(30) {
                fields.reverse()
            }
            let maps: Vec<String> = ks
                .iter()
                .filter(|k| matches!(field_val(&here, k), Some((_, MNode::Map { .. }))))
                .cloned()
                .collect();
            let sub = if !maps.is_empty() && g.r.pct(45) {
                g.r.pick(&maps).clone()
            } else if !ks.is_empty() && g.r.pct(15) {
                g.r.pick(&ks).clone()
            } else {
                g.key()
            };
            EOp::MoveSub { sub, fields }
        }
        _ => {
            // one level up from a map of maps
            let ks = keys_of(&here);
            let of_maps: Vec<String> = ks
                .iter()
                .filter(|k| match field_val(&here, k) {
                    Some((_, MNode::Map { flow: false, ents })) => ents.iter().any(
                        |e| matches!(e, Ent::Kv { val: MNode::Map { flow: false, .. }, .. }),
                    ),
                    _ => false,
                })
                .cloned()
                .collect();
            let old = if !of_maps.is_empty() { g.r.pick(&of_maps).clone() } else { some_key(g, &here) };
            let mut sel = g.r.pick(&["name", "type", "id"]).to_string();
            if g.r.pct(70) {
                if let Some((_, MNode::Map { ents, .. })) = field_val(&here, &old) {
                    let vals: Vec<&MNode> = ents
                        .iter()
                        .filter_map(|e| match e {
                            Ent::Kv { val: val @ MNode::Map { .. }, .. } => Some(val),
                            _ => None,
                        })
                        .collect();
                    if !vals.is_empty() {
                        let i = g.r.below(vals.len());
                        sel = some_key(g, vals[i]);
                    }
                }
            }
            let mut keeps = Vec::new();
            if g.r.pct(40) {
                keeps.push(g.r.pick(&["one", "two", "3", "x y"]).to_string())
            }
            let new = if g.r.pct(90) {
                g.n += 1;
                format!("m{}", g.n)
            } else {
                some_key(g, &here)
            };
            EOp::MoveMap { old, sel, new, keeps }
        }
    };
    let loose = g.r.pct(6);
    let e = Edit { path, level: g.r.below(3) as u8, op, loose };
    if loose {
        return e;
    }
    let mut m = shadow.clone();
    apply(&mut m, &e);
    if storable(&m) {
        *shadow = m;
    }
    e
}
pub type Plan = WPlan<Edit>;
pub fn gen(r: &mut Rng) -> Plan {
    gen_plan(
        r,
        2,
        |r, k| {
            k.records = *r.pick(&[0, 30, 60]);
            k.width = k.width.max(2);
            k.depth = k.depth.max(2);
            if r.pct(60) {
                k.weird = 0;
            }
        },
        gen_edit,
        5,
    )
}
pub fn edit_ok(e: &Edit) -> bool {
    path_ok(&e.path)
        && match &e.op {
            EOp::Insert { val, .. } => size(val) < 500,
            EOp::Rename { to } => text::valid_key(to),
            EOp::ToObject { key } => text::valid_key(key),
            _ => true,
        }
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
        && p.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(edit_ok),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    run(p, &mut Edits, c)
}
