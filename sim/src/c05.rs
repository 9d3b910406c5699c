//! C05: typed values written by some clients survive everything the others,
//! the disk and other tools do.
use crate::c01::{gen_mutation, mutate, Mutation};
use crate::c02::at;
use crate::c03::{pretty_step, view, view_diff};
use crate::core::*;
use crate::gen::Gen;
use crate::model::*;
use crate::reader::Val;
use crate::rng::Rng;
use crate::typed::*;
use crate::world::*;
use serde::de::{DeserializeSeed, Deserializer, IgnoredAny, MapAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use yaml_subset::yaml::{
    from_yaml, from_yaml_str, AliasedYaml, Document, DocumentData, Pretty, Yaml, YamlDeserializer,
    YamlInsert, YamlSerializer,
};
use yaml_subset::YamlPath;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Put { slot: u8, id: u32, val: TV, pretty: bool },
    Change(Mutation),
    Pretty { level: u8 },
    /// another tool writes a quoted text of a typed value as a block
    Block { slot: u8, site: u16, folded: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// one type: the documents are values of it; otherwise values are fields
    pub root: bool,
    pub types: Vec<Ty>,
    pub w: WPlan<Op>,
}
const SLOTS: [&str; 3] = ["typed0", "typed1", "typed2"];

pub struct Typed<'a> {
    p: &'a Plan,
    vals: BTreeMap<u32, (usize, &'a TV)>,
}
/// what a program that knows some of the fields reads
struct Known<'a>(&'a [Ty]);
impl<'de> DeserializeSeed<'de> for Known<'_> {
    type Value = Vec<Option<TV>>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_struct("Doc", &SLOTS, self)
    }
}
impl<'de> Visitor<'de> for Known<'_> {
    type Value = Vec<Option<TV>>;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("document")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut v = vec![None; self.0.len()];
        while let Some(Ident(k)) = a.next_key()? {
            match SLOTS.iter().position(|s| *s == k) {
                Some(i) if i < v.len() => v[i] = Some(a.next_value_seed(Seed(&self.0[i]))?),
                _ => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        Ok(v)
    }
}
fn lead_id(m: &MDoc, slot: usize) -> Option<u32> {
    m.lead.get(slot)?.split('=').nth(1)?.parse().ok()
}
fn slot_index(m: &MNode, slot: usize) -> Option<usize> {
    match m {
        MNode::Map { ents, .. } => {
            ents.iter().position(|e| matches!(e, Ent::Kv{key,..} if key == SLOTS[slot]))
        }
        _ => None,
    }
}
fn slot_node(m: &MNode, slot: usize) -> Option<&MNode> {
    slot_index(m, slot).map(|i| at(m, &[i]))
}
/// `w` in the style of `g`, which has the same content
fn restyle(w: &mut MNode, g: &MNode) {
    match (w, g) {
        (MNode::Map { flow, ents }, MNode::Map { flow: gf, ents: ge }) => {
            *flow = *gf;
            let gs = ge.iter().filter_map(|e| match e {
                Ent::Kv { val, .. } => Some(val),
                _ => None,
            });
            let ws = ents.iter_mut().filter_map(|e| match e {
                Ent::Kv { val, .. } => Some(val),
                _ => None,
            });
            ws.zip(gs).for_each(|(w, g)| restyle(w, g));
        }
        (MNode::Seq { flow, items }, MNode::Seq { flow: gf, items: gi }) => {
            *flow = *gf;
            let gs = gi.iter().filter_map(|e| match e {
                Item::El { val, .. } => Some(val),
                _ => None,
            });
            let ws = items.iter_mut().filter_map(|e| match e {
                Item::El { val, .. } => Some(val),
                _ => None,
            });
            ws.zip(gs).for_each(|(w, g)| restyle(w, g));
        }
        (w @ MNode::Sc(_), MNode::Sc(s)) => *w = MNode::Sc(s.clone()),
        _ => {}
    }
}
/// the quoted texts that may be blocks
fn quoted<'a>(n: &'a mut MNode, out: &mut Vec<&'a mut Scalar>) {
    match n {
        MNode::Map { flow: false, ents } => {
            for e in ents {
                if let Ent::Kv { val, .. } = e {
                    quoted(val, out)
                }
            }
        }
        MNode::Seq { flow: false, items } => {
            for e in items {
                if let Item::El { val, .. } = e {
                    quoted(val, out)
                }
            }
        }
        MNode::Sc(s @ (Scalar::Double(_) | Scalar::Single(_))) => out.push(s),
        _ => {}
    }
}
fn as_block(s: &Scalar, folded: bool) -> Option<Scalar> {
    let value = scalar_value(s);
    let body = value.trim_end_matches('\n');
    let ends = value.len() - body.len();
    let sep = if folded { "\n\n" } else { "\n" };
    let mut lines: Vec<String> = body.split('\n').collect::<Vec<_>>().join(sep).split('\n').map(String::from).collect();
    let chomp = match ends {
        0 => Chomp::Strip,
        1 => Chomp::Clip,
        n => {
            lines.extend(std::iter::repeat(String::new()).take(n - 1));
            Chomp::Keep
        }
    };
    let b = Scalar::Block { folded, chomp, lines: lines.clone() };
    (crate::text::valid_block_lines(&lines) && scalar_value(&b) == value).then_some(b)
}
fn root_of(d: &Document) -> Option<&Yaml> {
    d.items.iter().find_map(|i| match i {
        DocumentData::Yaml(y) => Some(y),
        _ => None,
    })
}
impl Typed<'_> {
    fn expected(&self, m: &MDoc, slot: usize) -> Option<&TV> {
        lead_id(m, slot).and_then(|id| self.vals.get(&id)).map(|x| x.1)
    }
    /// programs read their values
    fn read(&self, c: &mut Ctx, m: &MDoc, y: &Yaml, when: &str) -> Res {
        let wrong = |slot: usize, got: String, want: &TV| {
            violation(
                "typed-value",
                format!("{when}: value {slot} of type {:?}: read {got}, written {want:?}", self.p.types[slot]),
            )
        };
        if self.p.root {
            let Some(want) = self.expected(m, 0) else { return Ok(()) };
            c.count("typed read");
            let y = y.clone();
            match lib("deserialize", || Seed(&self.p.types[0]).deserialize(YamlDeserializer::new(y)))? {
                Ok(v) if v == *want => {}
                Ok(v) => return wrong(0, format!("{v:?}"), want),
                Err(e) => return wrong(0, format!("error {e}"), want),
            }
            return Ok(());
        }
        if !matches!(y, Yaml::Hash(_) | Yaml::InlineHash(_)) {
            return Ok(());
        }
        if (0..self.p.types.len()).all(|i| self.expected(m, i).is_none()) {
            return Ok(());
        }
        let y = y.clone();
        let got = match lib("deserialize", || Known(&self.p.types).deserialize(YamlDeserializer::new(y)))? {
            Ok(v) => v,
            Err(e) => return violation("typed-value", format!("{when}: the fields cannot be read: {e}")),
        };
        for i in 0..self.p.types.len() {
            if let Some(want) = self.expected(m, i) {
                c.count("typed read");
                match &got[i] {
                    Some(v) if v == want => {}
                    o => return wrong(i, format!("{o:?}"), want),
                }
            }
        }
        Ok(())
    }
}
impl Sem for Typed<'_> {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        match e {
            Op::Put { slot, id, val, pretty } => {
                let slot = *slot as usize;
                let t = &self.p.types[slot];
                if !self.p.root && !matches!(m.root, MNode::Map { flow: false, .. }) {
                    c.count("op: no place for the value");
                    return Ok(());
                }
                c.count("op: typed write");
                c.note(|| format!("write {val:?} as {t:?}"));
                let mut y = match lib("serialize", || Ser(t, val).serialize(YamlSerializer))? {
                    Ok(y) => y,
                    Err(e) => return violation("serialize", format!("{val:?} of type {t:?} cannot be written: {e}")),
                };
                let direct = y.clone();
                match lib("deserialize", || Seed(t).deserialize(YamlDeserializer::new(direct)))? {
                    Ok(v) if v == *val => {}
                    o => return violation("typed-value", format!("in memory: read {o:?}, written {val:?}")),
                }
                let copy = y.clone();
                match lib("deserialize", || from_yaml::<Val>(copy))? {
                    Ok(g) if fits(t, val, &g) => {}
                    o => return violation("typed-value", format!("a reader that asks for no type gets {o:?}, written {val:?}")),
                }
                if *pretty {
                    y = lib("pretty", || y.pretty())?;
                    c.count("op: prettified before writing");
                }
                let node = proj(&y);
                let mark = format!(" t{slot}={id}");
                d.leading_comments[slot] = mark.clone();
                m.lead[slot] = mark;
                if self.p.root {
                    d.items = vec![DocumentData::Yaml(y)];
                    m.root = node;
                    m.pre.clear();
                    m.post.clear();
                } else {
                    let path = YamlPath::from_str(SLOTS[slot]).unwrap();
                    let v = AliasedYaml { alias: None, value: y };
                    let n = lib("insert_into_hash", || d.insert_into_hash(&path, &v, true))?;
                    if n != 1 {
                        return violation("count", format!("{n} places reported for one insertion"));
                    }
                    let at = slot_index(&m.root, slot);
                    if let MNode::Map { ents, .. } = &mut m.root {
                        let e = Ent::Kv { key: SLOTS[slot].into(), alias: None, val: node };
                        match at {
                            Some(i) => ents[i] = e,
                            None => ents.push(e),
                        }
                    }
                }
                c.ev("put", slot as u64, *id as u64);
                Ok(())
            }
            Op::Change(e) => {
                if self.p.root {
                    return Ok(());
                }
                let before = m.clone();
                mutate(m, e);
                let lost = (0..SLOTS.len()).any(|i| {
                    slot_node(&before.root, i).is_some()
                        && slot_node(&before.root, i) != slot_node(&m.root, i)
                }) || m.lead[..3] != before.lead[..3];
                if lost {
                    *m = before;
                    c.count("op: change to a typed value left out");
                } else {
                    c.count("op: document changed");
                    *d = to_doc(m);
                }
                c.ev("mutate", e.site as u64, size(&m.root) as u64);
                Ok(())
            }
            Op::Block { slot, site, folded } => {
                let before = m.clone();
                let node = if self.p.root {
                    Some(&mut m.root)
                } else {
                    slot_index(&m.root, *slot as usize).map(|i| crate::c02::at_mut(&mut m.root, &[i]))
                };
                let mut v = vec![];
                if let Some(n) = node {
                    quoted(n, &mut v);
                }
                if !v.is_empty() {
                    let n = v.len();
                    if let Some(b) = as_block(v[*site as usize % n], *folded) {
                        *v[*site as usize % n] = b;
                        if crate::c01::storable(m) {
                            c.count("op: typed text restyled as block");
                            *d = to_doc(m);
                        } else {
                            *m = before;
                        }
                    }
                }
                Ok(())
            }
            Op::Pretty { level } => pretty_step(c, d, m, *level),
        }
    }
    fn changed(&mut self, c: &mut Ctx, want: &MDoc, d: &Document) -> Res {
        same(want, d, "in memory")?;
        match root_of(d) {
            Some(y) => self.read(c, want, y, "in memory"),
            None => violation("content", "no root"),
        }
    }
    fn loaded(&mut self, c: &mut Ctx, want: &MDoc, d: &Document, text: &str) -> Res<MDoc> {
        let Some(got) = proj_doc(d) else { return violation("content", "no single root after loading") };
        // the values that programs wrote may come back in another style
        let mut w = want.clone();
        let styled = |a: &MNode, b: &MNode| -> Res {
            match view_diff(&view(a), &view(b), String::new()) {
                Some(x) => violation("content", format!("after loading it: {x}")),
                None => Ok(()),
            }
        };
        if self.p.root {
            if lead_id(want, 0).is_some() {
                styled(&want.root, &got.root)?;
                restyle(&mut w.root, &got.root);
            }
        } else {
            for s in 0..self.p.types.len() {
                if let (Some(i), Some(j)) = (slot_index(&want.root, s), slot_index(&got.root, s)) {
                    let (a, b) = (at(&want.root, &[i]), at(&got.root, &[j]));
                    styled(a, b)?;
                    restyle(crate::c02::at_mut(&mut w.root, &[i]), b);
                }
            }
        }
        let m = same(&w, d, "after loading it")?;
        let y = root_of(d).unwrap();
        self.read(c, &m, y, "after loading it")?;
        let y = y.clone();
        let env = crate::reader::bind(&m.root, &mut Default::default());
        if crate::reader::weight(&env, 2000) < 2000 {
            let a: Result<Val, _> = lib("from_yaml", || from_yaml(y))?;
            let b: Result<Val, _> = lib("from_yaml_str", || from_yaml_str(text))?;
            if a.as_ref().ok() != b.as_ref().ok() {
                return violation("typed-value", format!("reading the text gives {b:?}, reading the document {a:?}"));
            }
        }
        Ok(m)
    }
    fn settle(&mut self, c: &mut Ctx, d: &Document, _text: &str) -> Res {
        let mut m = proj_doc(d).unwrap();
        let mut d = d.clone();
        pretty_step(c, &mut d, &mut m, 0)?;
        let t = save(&d)?;
        let d2 = load(&t)?;
        self.loaded(c, &m, &d2, &t).map(|_| ())
    }
}
pub fn gen(r: &mut Rng) -> Plan {
    let root = r.pct(35);
    let k = crate::gen::knobs(r);
    let mut types = Vec::new();
    {
        let mut g = Gen::new(r, k);
        let depth = g.r.range(0, 4);
        if root {
            // documents are collections
            types.push(loop {
                let t = gen_ty(&mut g, depth + 1);
                if matches!(t, Ty::Struct(_) | Ty::Map(..) | Ty::Seq(_) | Ty::Tuple(_)) {
                    break t;
                }
            });
        } else {
            let n = g.r.range(1, 3);
            for _ in 0..n {
                types.push(gen_ty(&mut g, depth));
            }
        }
    }
    let mut id = 0;
    let ts = types.clone();
    let mut w = gen_plan(
        r,
        2,
        |_, k| {
            k.depth = k.depth.min(3);
            k.width = k.width.min(3);
        },
        |g, _: &mut MDoc| match g.r.below(10) {
            0..=5 => {
                let slot = g.r.below(ts.len());
                id += 1;
                Op::Put { slot: slot as u8, id, val: gen_val(g, &ts[slot]), pretty: g.r.pct(40) }
            }
            7 | 8 => Op::Block { slot: g.r.below(ts.len()) as u8, site: g.r.below(50) as u16, folded: g.r.pct(30) },
            6 => Op::Pretty { level: g.r.below(3) as u8 },
            _ => Op::Change(gen_mutation(g)),
        },
        3,
    );
    for f in w.files.iter_mut() {
        f.doc.lead = vec![" t0=".into(), " t1=".into(), " t2=".into()];
    }
    Plan { root, types, w }
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(&p.w)
        && !p.types.is_empty()
        && p.types.len() <= SLOTS.len()
        && (!p.root || p.types.len() == 1 && matches!(p.types[0], Ty::Struct(_) | Ty::Map(..) | Ty::Seq(_) | Ty::Tuple(_)))
        && p.types.iter().all(|t| valid_ty(t, 0))
        && p.w.files.iter().all(|f| {
            f.doc.lead.len() == 3
                && (0..3).all(|i| lead_id(&f.doc, i).is_none() && slot_index(&f.doc.root, i).is_none())
        })
        && p.w.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(|e| match e {
                Op::Put { slot, val, .. } => {
                    (*slot as usize) < p.types.len() && conforms(&p.types[*slot as usize], val)
                }
                _ => true,
            }),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    let mut vals = BTreeMap::new();
    for o in &p.w.ops {
        if let Act::Edit(es) = &o.act {
            for e in es {
                if let Op::Put { slot, id, val, .. } = e {
                    vals.insert(*id, (*slot as usize, val));
                }
            }
        }
    }
    run(&p.w, &mut Typed { p, vals }, c)
}
