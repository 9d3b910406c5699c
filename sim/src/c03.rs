//! C03: a maintenance task prettifies documents that others edit; readers get
//! the same before and after, through any history and crash.
use crate::c01::{gen_mutation, mutate, Mutation};
use crate::core::*;
use crate::gen::Gen;
use crate::model::*;
use crate::reader::*;
use crate::rng::Rng;
use crate::text::{valid_key, valid_node, valid_plain};
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use yaml_subset::yaml::{from_yaml, Document, DocumentData, Pretty};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Change(Mutation),
    /// the whole document (0), its items (1), its tree (2)
    Pretty { level: u8 },
    /// a program puts together a flow value with block collections in it and
    /// prettifies the document before it saves it
    Assemble { key: String, val: MNode, level: u8 },
}
/// the value in flow style throughout; None: it has no such style
fn flowed(n: &MNode) -> Option<MNode> {
    Some(match n {
        MNode::Map { ents, .. } => MNode::Map {
            flow: true,
            ents: ents
                .iter()
                .map(|e| match e {
                    Ent::Kv { key, alias: None, val } => Some(Ent::Kv { key: key.clone(), alias: None, val: flowed(val)? }),
                    _ => None,
                })
                .collect::<Option<_>>()?,
        },
        MNode::Seq { items, .. } => MNode::Seq {
            flow: true,
            items: items
                .iter()
                .map(|e| match e {
                    Item::El { alias: None, val } => Some(Item::El { alias: None, val: flowed(val)? }),
                    _ => None,
                })
                .collect::<Option<_>>()?,
        },
        MNode::Sc(Scalar::Block { .. }) => return None,
        // in quotes where it has to be
        MNode::Sc(Scalar::Plain(s)) if valid_plain(s, false) => MNode::Sc(Scalar::Plain("x".into())),
        o => o.clone(),
    })
}
/// block style in some of the collections, plain text as in block style
fn assemble(g: &mut Gen, n: &mut MNode, root: bool) {
    match n {
        MNode::Map { flow, ents } => {
            *flow = root || g.r.pct(50);
            for e in ents {
                if let Ent::Kv { val, .. } = e {
                    assemble(g, val, false)
                }
            }
        }
        MNode::Seq { flow, items } => {
            *flow = root || g.r.pct(50);
            for e in items {
                if let Item::El { val, .. } = e {
                    assemble(g, val, false)
                }
            }
        }
        MNode::Sc(s) if matches!(s, Scalar::Plain(_)) && g.r.pct(30) => *s = g.plain(false),
        _ => {}
    }
}
/// what a reader sees, styles left out
#[derive(Clone, Debug, PartialEq)]
pub enum View {
    Map(Vec<(String, Option<String>, View)>),
    Seq(Vec<(Option<String>, View)>),
    Leaf(Val),
    Ref(String),
}
pub fn view(n: &MNode) -> View {
    match n {
        MNode::Map { ents, .. } => View::Map(
            ents.iter()
                .filter_map(|e| match e {
                    Ent::Kv { key, alias, val } => Some((key.clone(), alias.clone(), view(val))),
                    _ => None,
                })
                .collect(),
        ),
        MNode::Seq { items, .. } => View::Seq(
            items
                .iter()
                .filter_map(|e| match e {
                    Item::El { alias, val } => Some((alias.clone(), view(val))),
                    _ => None,
                })
                .collect(),
        ),
        MNode::Sc(s) => View::Leaf(scalar_val(s)),
        MNode::Ref(a) => View::Ref(a.clone()),
    }
}
pub fn view_diff(a: &View, b: &View, p: String) -> Option<String> {
    if a == b {
        return None;
    }
    match (a, b) {
        (View::Map(x), View::Map(y)) if x.len() == y.len() => {
            for ((k, al, v), (k2, al2, v2)) in x.iter().zip(y) {
                if (k, al) != (k2, al2) {
                    return Some(format!("{p}: {k:?} &{al:?} becomes {k2:?} &{al2:?}"));
                }
                if let Some(d) = view_diff(v, v2, format!("{p}.{k}")) {
                    return Some(d);
                }
            }
            None
        }
        (View::Seq(x), View::Seq(y)) if x.len() == y.len() => {
            for (i, ((al, v), (al2, v2))) in x.iter().zip(y).enumerate() {
                if al != al2 {
                    return Some(format!("{p}[{i}]: &{al:?} becomes &{al2:?}"));
                }
                if let Some(d) = view_diff(v, v2, format!("{p}[{i}]")) {
                    return Some(d);
                }
            }
            None
        }
        _ => Some(format!("{p}: {a:?} becomes {b:?}")),
    }
}
fn root(d: &Document) -> Option<&yaml_subset::yaml::Yaml> {
    d.items.iter().find_map(|i| match i {
        DocumentData::Yaml(y) => Some(y),
        _ => None,
    })
}
/// a reader of everything gets what the reference says
pub fn read_check(c: &mut Ctx, m: &MDoc, d: &Document, when: &str) -> Res {
    let want = bind(&m.root, &mut HashMap::new());
    if weight(&want, 3000) >= 3000 {
        c.count("read: skipped, too many aliases of aliases");
        return Ok(());
    }
    let want = read_all(&want);
    let Some(y) = root(d) else { return violation("content", "no root") };
    let y = y.clone();
    let got: Result<Val, _> = lib("from_yaml", || from_yaml(y))?;
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => {
            c.count("read: everything");
            Ok(())
        }
        (Err(a), Err(e)) if e.to_string().contains(&a) => {
            c.count("read: undefined anchor");
            Ok(())
        }
        (a, b) => violation("reader", format!("{when}: a reader gets {b:?} instead of {a:?}")),
    }
}
pub fn pretty_doc(d: Document, level: u8) -> Res<Document> {
    lib("pretty", || match level % 3 {
        0 => d.pretty(),
        1 => Document {
            leading_comments: d.leading_comments,
            items: d.items.into_iter().map(|i| i.pretty()).collect(),
        },
        _ => Document {
            leading_comments: d.leading_comments,
            items: d
                .items
                .into_iter()
                .map(|i| match i {
                    DocumentData::Yaml(y) => DocumentData::Yaml(y.pretty()),
                    o => o,
                })
                .collect(),
        },
    })
}
/// prettify and judge; returns the document as it is now
pub fn pretty_step(c: &mut Ctx, d: &mut Document, m: &mut MDoc, level: u8) -> Res {
    c.count("op: prettified");
    let old = std::mem::replace(d, Document { leading_comments: vec![], items: vec![] });
    *d = pretty_doc(old, level)?;
    let Some(m2) = proj_doc(d) else {
        return violation("pretty-shape", "prettifying loses the document's root");
    };
    c.note(|| format!("prettified: {m2:?}"));
    c.ev("pretty", level as u64, size(&m2.root) as u64);
    if let Some(x) = view_diff(&view(&m.root), &view(&m2.root), String::new()) {
        return violation("pretty-value", format!("prettifying changes a value: {x}"));
    }
    if stream(m) != stream(&m2) {
        return violation(
            "pretty-comments",
            format!("prettifying changes comments: {:?} -> {:?}", comments(m), comments(&m2)),
        );
    }
    if m2 != *m {
        c.count("pretty changed styles");
    }
    *m = m2;
    read_check(c, m, d, "after prettifying")
}
pub struct Maint;
impl Sem for Maint {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        match e {
            Op::Change(e) => {
                c.count("op: document changed");
                mutate(m, e);
                c.ev("mutate", e.site as u64, size(&m.root) as u64);
                *d = to_doc(m);
                Ok(())
            }
            Op::Pretty { level } => pretty_step(c, d, m, *level),
            Op::Assemble { key, val, level } => {
                let is = matches!(val, MNode::Map { flow: true, .. } | MNode::Seq { flow: true, .. });
                match flowed(val) {
                    Some(f) if is && valid_key(key) && valid_node(&f, true, 1) => {}
                    _ => return Ok(()),
                }
                match &mut m.root {
                    MNode::Map { flow: false, ents } if !ents.iter().any(|e| matches!(e, Ent::Kv { key: k, .. } if k == key)) => {
                        ents.push(Ent::Kv { key: key.clone(), alias: None, val: val.clone() })
                    }
                    MNode::Seq { flow: false, items } => items.push(Item::El { alias: None, val: val.clone() }),
                    _ => return Ok(()),
                }
                c.count("op: assembled");
                *d = to_doc(m);
                pretty_step(c, d, m, *level)
            }
        }
    }
    fn loaded(&mut self, c: &mut Ctx, want: &MDoc, d: &Document, _text: &str) -> Res<MDoc> {
        let m = same(want, d, "after loading it")?;
        read_check(c, &m, d, "after loading it")?;
        Ok(m)
    }
    fn settle(&mut self, c: &mut Ctx, d: &Document, _text: &str) -> Res {
        let mut d1 = d.clone();
        let mut m = proj_doc(d).unwrap();
        pretty_step(c, &mut d1, &mut m, 0)?;
        let t1 = save(&d1)?;
        let mut d2 = load(&t1)?;
        let mut m2 = same(&m, &d2, "after prettifying, saving and loading")?;
        let before = m2.clone();
        pretty_step(c, &mut d2, &mut m2, 0)?;
        if m2 != before {
            let t2 = save(&d2)?;
            return violation(
                "pretty-unstable",
                format!("prettifying again changes the document:\n{t1}\n---- becomes ----\n{t2}"),
            );
        }
        Ok(())
    }
}
pub type Plan = WPlan<Op>;
pub fn gen(r: &mut Rng) -> Plan {
    gen_plan(
        r,
        2,
        |r, k| {
            k.quoted = *r.pick(&[0, 30, 60, 90]);
            k.long = *r.pick(&[0, 8, 25]);
        },
        |g, _: &mut MDoc| {
            if g.r.pct(8) {
                let (key, depth, level) = (g.key(), g.r.range(1, 3), g.r.below(3) as u8);
                let mut val = if g.r.pct(50) { g.map(depth, true) } else { g.seq(depth, true) };
                assemble(g, &mut val, true);
                Op::Assemble { key, val, level }
            } else if g.r.pct(45) {
                Op::Pretty { level: g.r.below(3) as u8 }
            } else {
                Op::Change(gen_mutation(g))
            }
        },
        4,
    )
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    run(p, &mut Maint, c)
}
