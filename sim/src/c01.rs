//! C01: whatever history of saves, crashes and restarts, documents keep their
//! content and comments. Changes are made on the document tree itself (the
//! public enums), so they are trusted: what is judged is storing and reading.
use crate::core::*;
use crate::gen::Gen;
use crate::model::*;
use crate::rng::Rng;
use crate::text;
use crate::world::*;
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::Document;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mutation {
    pub site: u16,
    pub kind: MKind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MKind {
    Replace { val: MNode, alias: Option<String> },
    Add { key: String, val: MNode, alias: Option<String>, at: u16 },
    Remove { at: u16 },
    Clear,
    Comment { text: String, inline: bool, at: u16 },
    Swap { a: u16, b: u16 },
    Wrap { key: String, seq: bool, flow: bool },
    Lead { text: String, place: u8 },
}
fn sites<'a>(n: &'a mut MNode, out: &mut Vec<*mut MNode>) {
    out.push(n as *mut MNode);
    match n {
        MNode::Map { ents, .. } => {
            for e in ents {
                if let Ent::Kv { val, .. } = e {
                    sites(val, out)
                }
            }
        }
        MNode::Seq { items, .. } => {
            for e in items {
                if let Item::El { val, .. } = e {
                    sites(val, out)
                }
            }
        }
        _ => {}
    }
}
/// run `f` on the site-th node
pub fn at_site(root: &mut MNode, site: u16, f: impl FnOnce(&mut MNode)) {
    let mut v = Vec::new();
    sites(root, &mut v);
    let p = v[site as usize % v.len()];
    // the pointers are into `root`, which is borrowed mutably for this call
    f(unsafe { &mut *p })
}
pub fn mutate(m: &mut MDoc, e: &Mutation) {
    let before = m.clone();
    if let MKind::Lead { text, place } = &e.kind {
        match place % 3 {
            0 => m.lead.push(text.clone()),
            1 => m.pre.push(text.clone()),
            _ => m.post.push(text.clone()),
        }
    }
    at_site(&mut m.root, e.site, |n| match (&e.kind, n) {
        (MKind::Replace { val, .. }, n) => *n = val.clone(),
        (MKind::Wrap { key, seq, flow }, n) => {
            let old = n.clone();
            *n = if *seq {
                MNode::Seq { flow: *flow, items: vec![Item::El { alias: None, val: old }] }
            } else {
                MNode::Map {
                    flow: *flow,
                    ents: vec![Ent::Kv { key: key.clone(), alias: None, val: old }],
                }
            }
        }
        (MKind::Add { key, val, alias, at }, MNode::Map { ents, flow }) => {
            let i = *at as usize % (ents.len() + 1);
            let alias = if *flow { None } else { alias.clone() };
            if !ents.iter().any(|e| matches!(e, Ent::Kv{key:k,..} if k==key)) {
                ents.insert(i, Ent::Kv { key: key.clone(), alias, val: val.clone() })
            }
        }
        (MKind::Add { val, alias, at, .. }, MNode::Seq { items, flow }) => {
            let i = *at as usize % (items.len() + 1);
            let alias = if *flow { None } else { alias.clone() };
            items.insert(i, Item::El { alias, val: val.clone() })
        }
        (MKind::Remove { at }, MNode::Map { ents, .. }) if !ents.is_empty() => {
            ents.remove(*at as usize % ents.len());
        }
        (MKind::Remove { at }, MNode::Seq { items, .. }) if !items.is_empty() => {
            items.remove(*at as usize % items.len());
        }
        (MKind::Clear, MNode::Map { ents, .. }) => ents.clear(),
        (MKind::Clear, MNode::Seq { items, .. }) => items.clear(),
        (MKind::Comment { text, inline, at }, MNode::Map { ents, flow: false }) => {
            let i = *at as usize % (ents.len() + 1);
            ents.insert(i, Ent::C { text: text.clone(), inline: *inline })
        }
        (MKind::Comment { text, inline, at }, MNode::Seq { items, flow: false }) => {
            let i = *at as usize % (items.len() + 1);
            items.insert(i, Item::C { text: text.clone(), inline: *inline })
        }
        (MKind::Swap { a, b }, MNode::Map { ents, .. }) if !ents.is_empty() => {
            let n = ents.len();
            ents.swap(*a as usize % n, *b as usize % n)
        }
        (MKind::Swap { a, b }, MNode::Seq { items, .. }) if !items.is_empty() => {
            let n = items.len();
            items.swap(*a as usize % n, *b as usize % n)
        }
        _ => {}
    });
    if !storable(m) {
        *m = before;
    }
}
/// documents a program may build: like `valid_doc`, but collections may be
/// empty or hold only comments, and comments may stand anywhere
pub fn storable(m: &MDoc) -> bool {
    fn relax(n: &MNode) -> MNode {
        match n {
            MNode::Map { flow, ents } => {
                let e: Vec<Ent> = ents
                    .iter()
                    .filter_map(|e| match e {
                        Ent::C { .. } if !*flow => None,
                        Ent::Kv { key, alias, val } => Some(Ent::Kv {
                            key: key.clone(),
                            alias: alias.clone(),
                            val: relax(val),
                        }),
                        o => Some(o.clone()),
                    })
                    .collect();
                if e.is_empty() && !*flow {
                    return MNode::Sc(Scalar::Block {
                        folded: false,
                        chomp: Chomp::Clip,
                        lines: vec!["x".into()],
                    });
                }
                MNode::Map { flow: *flow, ents: e }
            }
            MNode::Seq { flow, items } => {
                let e: Vec<Item> = items
                    .iter()
                    .filter_map(|e| match e {
                        Item::C { .. } if !*flow => None,
                        Item::El { alias, val } => {
                            Some(Item::El { alias: alias.clone(), val: relax(val) })
                        }
                        o => Some(o.clone()),
                    })
                    .collect();
                if e.is_empty() && !*flow {
                    return MNode::Sc(Scalar::Block {
                        folded: false,
                        chomp: Chomp::Clip,
                        lines: vec!["x".into()],
                    });
                }
                MNode::Seq { flow: *flow, items: e }
            }
            o => o.clone(),
        }
    }
    fn comments_ok(n: &MNode) -> bool {
        match n {
            MNode::Map { ents, .. } => ents.iter().all(|e| match e {
                Ent::C { text, .. } => text::valid_comment(text),
                Ent::Kv { val, .. } => comments_ok(val),
            }),
            MNode::Seq { items, .. } => items.iter().all(|e| match e {
                Item::C { text, .. } => text::valid_comment(text),
                Item::El { val, .. } => comments_ok(val),
            }),
            _ => true,
        }
    }
    let root_ok = matches!(m.root, MNode::Map { .. } | MNode::Seq { .. });
    root_ok
        && text::valid_node(&relax(&m.root), false, 0)
        && comments_ok(&m.root)
        && m.lead.iter().chain(&m.pre).chain(&m.post).all(|c| text::valid_comment(c))
}
pub struct Store;
impl Sem for Store {
    type E = Mutation;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Mutation) -> Res {
        c.count("op: document changed");
        mutate(m, e);
        c.ev("mutate", e.site as u64, size(&m.root) as u64);
        *d = to_doc(m);
        Ok(())
    }
    fn changed(&mut self, _c: &mut Ctx, _want: &MDoc, _d: &Document) -> Res {
        Ok(())
    }
}
pub type Plan = WPlan<Mutation>;
pub fn gen_mutation(g: &mut Gen) -> Mutation {
    let site = g.r.below(64) as u16;
    let at = g.r.below(16) as u16;
    let kind = match g.r.below(12) {
        0 | 1 => {
            let d = g.r.below(3);
            let val = g.node(d, false);
            MKind::Replace { val, alias: None }
        }
        2..=4 => {
            let flow = g.r.pct(g.k.flow);
            let d = g.r.below(3);
            let val = g.node(d, flow);
            let alias = if g.r.pct(g.k.aliases) && !matches!(val, MNode::Ref(_)) {
                g.n += 1;
                Some(format!("n{}", g.n))
            } else {
                None
            };
            MKind::Add { key: g.key(), val, alias, at }
        }
        5 | 6 => MKind::Remove { at },
        7 => MKind::Clear,
        8 | 9 => MKind::Comment { text: g.comment(), inline: g.r.pct(40), at },
        10 => MKind::Swap { a: at, b: g.r.below(16) as u16 },
        _ if g.r.pct(50) => MKind::Lead { text: g.comment(), place: g.r.below(3) as u8 },
        _ => MKind::Wrap { key: g.key(), seq: g.r.pct(50), flow: g.r.pct(20) },
    };
    Mutation { site, kind }
}
pub fn gen(r: &mut Rng) -> Plan {
    gen_plan(r, 2, |_, _| {}, |g, _: &mut MDoc| gen_mutation(g), 4)
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    run(p, &mut Store, c)
}
