//! C07: whatever a consumer pulls, skips, ignores or leaves unread, it is given
//! what a consumer of everything is given; aliases are bound to what precedes
//! them in the document, and every read ends.
use crate::c01::{gen_mutation, mutate, storable, Mutation};
use crate::core::*;
use crate::fault;
use crate::gen::Gen;
use crate::model::*;
use crate::pull::{self, Pull, Top};
use crate::reader::*;
use crate::rng::Rng;
use crate::world::*;
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::{
    from_yaml, from_yaml_str, ArrayData, Document, DocumentData, HashData, Yaml, YamlDeserializer, YamlTypes,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Change(Mutation),
    /// the site-th element gets the anchor, or becomes an alias of it
    Anchor { site: u16, name: String, define: bool },
    Read { script: Vec<u8>, via: u8, lenient: bool },
}
pub type Plan = WPlan<Op>;
pub fn root_of(d: &Document) -> Option<&Yaml> {
    d.items.iter().find_map(|i| match i {
        DocumentData::Yaml(y) => Some(y),
        _ => None,
    })
}
fn elements<'a>(n: &'a mut MNode, out: &mut Vec<*mut MNode>, als: &mut Vec<Option<*mut Option<String>>>) {
    match n {
        MNode::Map { flow, ents } => {
            for e in ents {
                if let Ent::Kv { alias, val, .. } = e {
                    out.push(val);
                    als.push(if *flow { None } else { Some(alias) });
                    elements(val, out, als)
                }
            }
        }
        MNode::Seq { flow, items } => {
            for e in items {
                if let Item::El { alias, val } = e {
                    out.push(val);
                    als.push(if *flow { None } else { Some(alias) });
                    elements(val, out, als)
                }
            }
        }
        _ => {}
    }
}
fn anchor(m: &mut MDoc, site: u16, name: &str, define: bool) {
    let before = m.clone();
    let (mut v, mut a) = (vec![], vec![]);
    elements(&mut m.root, &mut v, &mut a);
    if v.is_empty() {
        return;
    }
    let i = site as usize % v.len();
    // the pointers are into `m`, which is borrowed mutably
    unsafe {
        if define {
            if let (Some(al), false) = (a[i], matches!(*v[i], MNode::Ref(_))) {
                *al = Some(name.to_string());
            }
        } else {
            if let Some(al) = a[i] {
                *al = None;
            }
            *v[i] = MNode::Ref(name.to_string());
        }
    }
    if !storable(m) {
        *m = before;
    }
}
/// one attempt to read; the consumer checks what it gets
pub fn attempt(y: &Yaml, text: Option<&str>, via: u8) -> Res<Option<String>> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (via % 3, text) {
        (1, _) => from_yaml::<Top>(y.clone()).map(|_| ()),
        (2, Some(t)) => from_yaml_str::<Top>(t).map(|_| ()),
        _ => {
            let root = pull::with(|s| s.root.clone());
            Pull(root).deserialize(YamlDeserializer::new(y.clone())).map(|_| ())
        }
    }));
    if let Some(b) = pull::with(|s| s.bad.clone()) {
        return violation("read", b);
    }
    match r {
        Ok(Ok(())) => Ok(None),
        Ok(Err(e)) => Ok(Some(e.to_string())),
        Err(p) if p.is::<fault::Payload>() => std::panic::resume_unwind(p),
        Err(_) => violation("panic", format!("reading panicked: {}", last_panic())),
    }
}
pub fn read(c: &mut Ctx, m: &MDoc, y: &Yaml, text: Option<&str>, script: &[u8], via: u8, lenient: bool) -> Res {
    let root = bind(&m.root, &mut Default::default());
    fault::start(0, false, false, "");
    pull::start(&root, script, lenient);
    let out = attempt(y, text, via)?;
    let (undefined, read, h, kinds) = pull::with(|s| (s.undefined.clone(), s.read, s.h, std::mem::take(&mut s.kinds)));
    for k in kinds {
        c.count(match k {
            "unread" => "pull: left unread",
            "ignored" => "pull: ignored",
            "stop" => "pull: stopped early",
            "undefined" => "pull: undefined alias",
            "refused" => "pull: asked for a type the value does not have",
            "enum" => "pull: read as enum",
            _ => "pull: read",
        });
    }
    c.ev("pull", read, h);
    match (out, undefined) {
        (None, None) => Ok(()),
        (Some(e), Some(n)) if e.contains(n.as_str()) => Ok(()),
        (Some(e), u) => violation("read", format!("reading fails with \"{e}\" (undefined alias or wrong type: {u:?})")),
        (None, Some(n)) if n.is_empty() => violation("read", "reading goes on after a value was refused"),
        (None, Some(n)) => violation("read", format!("the undefined alias {n} was read without an error")),
    }
}
/// `as_string` of every node
fn texts(n: &MNode, y: &Yaml) -> Res {
    let got = lib("as_string", || y.as_string())?;
    let want = as_string(n);
    if got != want {
        return violation("read", format!("as_string gives {got:?} for {n:?}"));
    }
    match (n, y) {
        (MNode::Map { ents, .. }, Yaml::Hash(d)) => {
            for (e, d) in ents.iter().zip(d) {
                if let (Ent::Kv { val, .. }, HashData::Element(e)) = (e, d) {
                    if lib("as_string", || e.value.as_string())? != as_string(val) {
                        return violation("read", format!("as_string gives another text for the value {val:?}"));
                    }
                    texts(val, &e.value.value)?
                }
            }
        }
        (MNode::Map { ents, .. }, Yaml::InlineHash(d)) => {
            for (e, d) in ents.iter().zip(d) {
                if let Ent::Kv { val, .. } = e {
                    texts(val, &d.1)?
                }
            }
        }
        (MNode::Seq { items, .. }, Yaml::Array(d)) => {
            for (e, d) in items.iter().zip(d) {
                if let (Item::El { val, .. }, ArrayData::Element(e)) = (e, d) {
                    texts(val, &e.value)?
                }
            }
        }
        (MNode::Seq { items, .. }, Yaml::InlineArray(d)) => {
            for (e, d) in items.iter().zip(d) {
                if let Item::El { val, .. } = e {
                    texts(val, d)?
                }
            }
        }
        _ => {}
    }
    Ok(())
}
struct Pulls;
impl Sem for Pulls {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        match e {
            Op::Change(e) => {
                c.count("op: document changed");
                mutate(m, e);
                *d = to_doc(m);
            }
            Op::Anchor { site, name, define } => {
                c.count("op: anchor or alias set");
                anchor(m, *site, name, *define);
                *d = to_doc(m);
            }
            Op::Read { script, via, lenient } => {
                let text = save(d)?;
                let Some(y) = root_of(d) else { return violation("content", "no root") };
                c.note(|| format!("read with {script:?} from\n{text}"));
                read(c, m, y, Some(&text), script, *via, *lenient)?;
            }
        }
        Ok(())
    }
    fn loaded(&mut self, c: &mut Ctx, want: &MDoc, d: &Document, text: &str) -> Res<MDoc> {
        let m = same(want, d, "after loading it")?;
        if let Some(y) = root_of(d) {
            texts(&m.root, y)?;
            read(c, &m, y, Some(text), &[], 0, true)?;
        }
        Ok(m)
    }
}
pub fn gen_anchor(g: &mut Gen) -> Op {
    Op::Anchor { site: g.r.below(40) as u16, name: g.r.pick(&["p", "p", "q", "r", "a1"]).to_string(), define: g.r.pct(55) }
}
pub fn gen(r: &mut Rng) -> Plan {
    gen_plan(
        r,
        1,
        |r, k| {
            k.aliases = *r.pick(&[0, 15, 40, 70]);
            k.comments = k.comments.min(15);
        },
        |g, _: &mut MDoc| match g.r.below(10) {
            0 | 1 => Op::Change(gen_mutation(g)),
            2..=4 => gen_anchor(g),
            _ => Op::Read { script: pull::gen_script(g.r), via: g.r.below(3) as u8, lenient: g.r.pct(50) },
        },
        6,
    )
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
        && p.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(|e| match e {
                Op::Anchor { name, .. } => crate::text::valid_name(name),
                _ => true,
            }),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    run(p, &mut Pulls, c)
}
