//! C10: whatever documents grow into, handling them takes a bounded number of
//! steps. Steps are basic blocks of the real code (instrumented build).
use crate::c01::{at_site, gen_mutation, mutate, storable, Mutation};
use crate::c02::{self, lib_edit, lib_path, Edit};
use crate::c03::pretty_doc;
use crate::c07::root_of;
use crate::core::*;
use crate::cov;
use crate::gen::Gen;
use crate::model::*;
use crate::reader::{bind, RNode, Val};
use crate::rng::Rng;
use crate::text;
use crate::world::*;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize, Serializer};
use yaml_subset::yaml::{from_yaml, parse_yaml_file, AliasedYaml, Document, DocumentData, MapYaml, VisitYaml, Yaml, YamlDeserializer, YamlSerializer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Change(Mutation),
    Edit(Edit),
    Grow { site: u16, kind: Grow },
    Pretty { level: u8 },
    /// reads it with a consumer of everything, and with one that ignores all
    Read,
    /// writes its content as a typed value
    Write,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Grow {
    /// wrap into n collections; bits choose between maps and lists
    Nest {
        n: u8,
        pat: u16,
        flow: bool,
        /// with an anchor on each level
        #[serde(default)]
        anchors: bool,
    },
    /// n more fields or items
    Widen { n: u16, what: u8 },
    /// n copies of the place beside it
    Copies { n: u8 },
    /// a scalar of n words or lines
    Long { n: u16, what: u8 },
    Comments { n: u16, inline: bool },
    /// n anchors, each of which refers `twice` to the one before
    Chain { n: u8, twice: bool },
    /// n anchors, each with an alias: of itself or of any before it
    Anchors { n: u16, far: bool },
}
pub type Plan = WPlan<Op>;
const NODES: usize = 1500;
const BYTES: usize = 60_000;

/// nodes of one that is long and flat
const BIG: usize = 20_000;
fn is_big(k: &Grow) -> bool {
    matches!(k, Grow::Widen { n, .. } | Grow::Long { n, .. } | Grow::Comments { n, .. } | Grow::Anchors { n, .. } if *n >= 2000)
}

// ------------------------------------------------------------------ growing
fn el(val: MNode) -> Item {
    Item::El { alias: None, val }
}
fn kv(key: String, val: MNode) -> Ent {
    Ent::Kv { key, alias: None, val }
}
fn plain(s: String) -> MNode {
    MNode::Sc(Scalar::Plain(s))
}
fn leaf(what: u8, i: usize, flow: bool) -> MNode {
    match what % 8 {
        1 => MNode::Sc(Scalar::Double(vec![QP::Text(format!("v {i}")), QP::Esc('n'), QP::Text("x: # y".into())])),
        2 => MNode::Sc(Scalar::Single(vec![QP::Text(format!("it {i}")), QP::Esc('\'')])),
        3 if !flow => MNode::Sc(Scalar::Block { folded: i % 2 == 0, chomp: Chomp::Clip, lines: vec![format!("l {i}"), "  more".into(), String::new(), "z".into()] }),
        4 => MNode::Map { flow: true, ents: vec![kv("a".into(), plain(format!("{i}")))] },
        5 => MNode::Seq { flow: true, items: vec![el(plain("x".into())), el(MNode::Seq { flow: true, items: vec![] })] },
        6 if !flow => MNode::Map { flow: false, ents: vec![kv("name".into(), plain(format!("n{i}"))), kv("id".into(), plain(format!("{i}")))] },
        7 if !flow => MNode::Seq { flow: false, items: vec![el(plain(format!("{i}"))), el(plain("true".into()))] },
        _ => plain(format!("v{i}")),
    }
}
fn long(n: u16, what: u8, flow: bool) -> MNode {
    let n = n.max(1) as usize;
    let words: String = (0..n).map(|i| format!("w{i} ")).collect::<String>().trim_end().to_string();
    let lines: Vec<String> = (0..n).map(|i| if i % 5 == 4 { String::new() } else { format!("line {i}") }).collect();
    let parts = |double: bool| -> Vec<QP> {
        let mut v = Vec::new();
        for i in 0..n {
            v.push(QP::Text(format!("w{i}")));
            v.push(match i % 4 {
                0 => QP::Nl,
                1 => QP::Blank(1),
                _ => QP::Esc(if double { 'n' } else { '\'' }),
            });
        }
        v.push(QP::Text("end".into()));
        v
    };
    MNode::Sc(match what % 6 {
        0 => Scalar::Double(vec![QP::Text(words)]),
        1 => Scalar::Single(parts(false)),
        2 => Scalar::Double(parts(true)),
        3 if !flow => Scalar::Block { folded: true, chomp: Chomp::Clip, lines },
        4 if !flow => Scalar::Block { folded: false, chomp: Chomp::Keep, lines },
        _ => Scalar::Plain(words),
    })
}
fn depth(n: &MNode) -> usize {
    match n {
        MNode::Map { ents, .. } => 1 + ents.iter().map(|e| if let Ent::Kv { val, .. } = e { depth(val) } else { 0 }).max().unwrap_or(0),
        MNode::Seq { items, .. } => 1 + items.iter().map(|e| if let Item::El { val, .. } = e { depth(val) } else { 0 }).max().unwrap_or(0),
        _ => 1,
    }
}
/// nodes and bytes of scalars and comments, roughly
fn bulk(n: &MNode) -> (usize, usize) {
    let add = |a: (usize, usize), b: (usize, usize)| (a.0 + b.0, a.1 + b.1);
    match n {
        MNode::Map { ents, .. } => ents.iter().fold((1, 2), |a, e| match e {
            Ent::Kv { key, val, .. } => add(add(a, (0, key.len() + 3)), bulk(val)),
            Ent::C { text, .. } => add(a, (1, text.len() + 4)),
        }),
        MNode::Seq { items, .. } => items.iter().fold((1, 2), |a, e| match e {
            Item::El { val, .. } => add(add(a, (0, 3)), bulk(val)),
            Item::C { text, .. } => add(a, (1, text.len() + 4)),
        }),
        MNode::Sc(s) => (1, scalar_value(s).len() + 2),
        MNode::Ref(_) => (1, 4),
    }
}
fn in_flow(root: &MNode, site: u16) -> bool {
    // the site-th node in the order of c01::sites, and whether it is below a flow collection
    fn go(n: &MNode, flow: bool, k: &mut usize) -> Option<bool> {
        if *k == 0 {
            return Some(flow);
        }
        *k -= 1;
        match n {
            MNode::Map { flow: f, ents } => ents.iter().find_map(|e| if let Ent::Kv { val, .. } = e { go(val, flow || *f, k) } else { None }),
            MNode::Seq { flow: f, items } => items.iter().find_map(|e| if let Item::El { val, .. } = e { go(val, flow || *f, k) } else { None }),
            _ => None,
        }
    }
    let total = crate::c08::count(root);
    go(root, false, &mut (site as usize % total)).unwrap_or(false)
}
pub fn grow(m: &mut MDoc, site: u16, kind: &Grow) {
    let before = m.clone();
    let flow = in_flow(&m.root, site);
    at_site(&mut m.root, site, |n| match kind {
        Grow::Nest { n: k, pat, flow: f, anchors } => {
            for i in 0..*k as usize {
                let old = std::mem::replace(n, plain("x".into()));
                let f = flow || *f;
                let alias = if *anchors && !f && !matches!(old, MNode::Ref(_)) { Some(format!("n{i}")) } else { None };
                *n = if pat >> (i % 16) & 1 == 1 {
                    MNode::Seq { flow: f, items: vec![Item::El { alias, val: old }] }
                } else {
                    MNode::Map { flow: f, ents: vec![Ent::Kv { key: format!("k{i}"), alias, val: old }] }
                };
                if pat >> ((i + 7) % 16) & 3 == 3 {
                    // not alone
                    match n {
                        MNode::Seq { items, .. } => items.push(el(plain("s".into()))),
                        MNode::Map { ents, .. } => ents.push(kv("s".into(), plain("1".into()))),
                        _ => {}
                    }
                }
            }
        }
        Grow::Widen { n: k, what } => match n {
            MNode::Map { flow, ents } => {
                let from = ents.len();
                let f = *flow;
                ents.extend((0..*k as usize).map(|i| kv(format!("w{}", from + i), leaf(*what, i, f))))
            }
            MNode::Seq { flow, items } => {
                let f = *flow;
                items.extend((0..*k as usize).map(|i| el(leaf(*what, i, f))))
            }
            _ => {}
        },
        Grow::Copies { n: k } => {
            let old = std::mem::replace(n, plain("x".into()));
            *n = if k % 2 == 0 {
                MNode::Seq { flow, items: (0..*k).map(|_| el(old.clone())).collect() }
            } else {
                MNode::Map { flow, ents: (0..*k).map(|i| kv(format!("c{i}"), old.clone())).collect() }
            };
        }
        Grow::Long { n: k, what } => match n {
            MNode::Map { ents, flow } => {
                let key = format!("l{}", ents.len());
                ents.push(kv(key, long(*k, *what, *flow)))
            }
            MNode::Seq { items, flow } => items.push(el(long(*k, *what, *flow))),
            n => *n = long(*k, *what, flow),
        },
        Grow::Comments { n: k, inline } => match n {
            MNode::Map { ents, flow: false } => {
                for i in 0..*k {
                    ents.push(Ent::C { text: format!(" c{i}"), inline: *inline && i == 0 })
                }
            }
            MNode::Seq { items, flow: false } => {
                for i in 0..*k {
                    items.push(Item::C { text: format!(" c{i}"), inline: *inline && i == 0 })
                }
            }
            _ => {}
        },
        Grow::Chain { n: k, twice } => {
            if flow {
                return;
            }
            let mut ents = vec![Ent::Kv { key: "d0".into(), alias: Some("d0".into()), val: plain("1".into()) }];
            for i in 1..=*k {
                let r = || el(MNode::Ref(format!("d{}", i - 1)));
                let items = if *twice { vec![r(), r()] } else { vec![r()] };
                ents.push(Ent::Kv { key: format!("d{i}"), alias: Some(format!("d{i}")), val: MNode::Seq { flow: false, items } })
            }
            *n = MNode::Map { flow: false, ents }
        }
        Grow::Anchors { n: k, far } => {
            if flow {
                return;
            }
            let name = |i: usize| format!("anchor_{i:05}");
            let mut items = Vec::new();
            for i in 0..*k as usize {
                items.push(Item::El { alias: Some(name(i)), val: plain(format!("v{i}")) });
                let to = if *far { i * 7919 % (i + 1) / 2 } else { i };
                items.push(el(MNode::Ref(name(to))));
            }
            *n = MNode::Seq { flow: false, items }
        }
    });
    let (nodes, bytes) = bulk(&m.root);
    let (most, most_bytes) = if is_big(kind) && depth(&m.root) < 8 { (BIG, BIG * 40) } else { (NODES, BYTES) };
    if nodes > most || bytes + nodes * 2 * depth(&m.root) > most_bytes || !storable(m) {
        *m = before;
    }
}

// ------------------------------------------------------------------ metering
/// steps one call may take on something of this size
#[derive(Clone, Copy)]
struct Due {
    size: u64,
    depth: u64,
}
fn due(text: &str, m: &MDoc) -> Due {
    Due { size: text.len() as u64 + 20, depth: depth(&m.root) as u64 }
}
/// steps, and bytes of memory asked for (what is copied), per byte and level
const RATES: [(&str, u64, u64); 10] = [
    ("parse", 600, 250),
    ("format", 25, 20),
    ("pretty", 40, 15),
    ("edit", 30, 160),
    ("read", 40, 250),
    ("ignore", 20, 20),
    ("write", 30, 20),
    ("path", 120, 20),
    ("visit", 2, 2),
    ("map", 3, 4),
];
fn meter<T>(c: &mut Ctx, what: &'static str, d: Due, f: impl FnOnce() -> T) -> Res<T> {
    let (rate, brate) = RATES.iter().find(|r| r.0 == what).map_or((100, 250), |r| (r.1, r.2));
    let unit = d.size * (d.depth + 4);
    let bound = 20_000 + rate * unit;
    let bbound = 400_000 + brate * unit;
    cov::limit(bound.saturating_mul(4));
    let a = cov::steps();
    let b = crate::alloc::bytes();
    let v = lib(what, f)?;
    let n = cov::steps() - a;
    let b = crate::alloc::bytes() - b;
    cov::limit(RUN);
    c.ev(what, n, d.size);
    if std::env::var_os("YAMLSIM_MEASURE").is_some() {
        eprintln!("{what} {:.2} {n} {} {} bytes {:.2} {b}", n as f64 / unit as f64, d.size, d.depth, b as f64 / unit as f64);
    }
    if n > bound {
        return violation(
            "steps",
            format!("{what} takes {n} steps, {bound} are due for {} bytes with {} levels", d.size, d.depth),
        );
    }
    if b > bbound {
        return violation(
            "steps",
            format!("{what} copies {b} bytes, {bbound} are due for {} bytes with {} levels", d.size, d.depth),
        );
    }
    Ok(v)
}
const RUN: u64 = 20_000_000_000;

/// the content of a document as a typed value
struct Content<'a>(&'a MNode);
impl Serialize for Content<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            MNode::Map { ents, .. } => {
                let mut m = s.serialize_map(None)?;
                for e in ents {
                    if let Ent::Kv { key, val, .. } = e {
                        m.serialize_entry(key, &Content(val))?;
                    }
                }
                m.end()
            }
            MNode::Seq { items, .. } => {
                let mut m = s.serialize_seq(None)?;
                for e in items {
                    if let Item::El { val, .. } = e {
                        m.serialize_element(&Content(val))?;
                    }
                }
                m.end()
            }
            MNode::Sc(x) => s.serialize_str(&scalar_value(x)),
            MNode::Ref(_) => s.serialize_unit(),
        }
    }
}
/// bytes a reader of everything gets, aliases counted each time
fn output(n: &RNode, cap: u64) -> u64 {
    let mut s = 8;
    match n {
        RNode::Seq(v) => {
            for x in v {
                if s >= cap {
                    break;
                }
                s += output(x, cap - s)
            }
        }
        RNode::Map(v) => {
            for (k, x) in v {
                if s >= cap {
                    break;
                }
                s += k.len() as u64 + output(x, cap - s)
            }
        }
        RNode::Scalar(x) => s += scalar_value(x).len() as u64,
        RNode::Undefined(_) => {}
    }
    s
}
struct Steps;
impl Steps {
    fn read(&self, c: &mut Ctx, d: &Document, m: &MDoc, text: &str) -> Res {
        let Some(y) = root_of(d) else { return violation("content", "no root") };
        let mut q = due(text, m);
        let y2 = y.clone();
        let r = meter(c, "ignore", q, move || serde::de::IgnoredAny::deserialize(YamlDeserializer::new(y2)))?;
        let _ = r;
        // a visitor and a mapping that do nothing
        let n = meter(c, "visit", q, || {
            let mut n = 0;
            y.visit_yaml(&mut |_: &AliasedYaml| n += 1);
            n
        })?;
        let mut k = 0u64;
        let y2 = y.clone();
        meter(c, "map", q, || {
            y2.map_yaml(&mut |y: Yaml| {
                k += 1;
                y
            })
        })?;
        c.ev("visited", n, k);
        let root = bind(&m.root, &mut Default::default());
        let w = output(&root, 200_000);
        if w >= 200_000 {
            c.count("read: too much to read everything");
            return Ok(());
        }
        // aliases are read each time
        q.size += w;
        let y2 = y.clone();
        let r = meter(c, "read", q, move || from_yaml::<Val>(y2).is_ok())?;
        c.count(if r { "read: everything" } else { "read: undefined alias" });
        Ok(())
    }
}
impl Sem for Steps {
    type E = Op;
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Op) -> Res {
        let text = save(d)?;
        let q = due(&text, m);
        match e {
            Op::Change(e) => {
                c.count("op: document changed");
                mutate(m, e);
                *d = to_doc(m);
            }
            Op::Grow { site, kind } => {
                grow(m, *site, kind);
                c.count(match kind {
                    Grow::Nest { .. } => "grow: nested",
                    Grow::Widen { .. } => "grow: widened",
                    Grow::Copies { .. } => "grow: copied",
                    Grow::Long { .. } => "grow: long scalar",
                    Grow::Comments { .. } => "grow: comments",
                    Grow::Chain { .. } => "grow: chain of aliases",
                    Grow::Anchors { .. } => "grow: many anchors",
                });
                *d = to_doc(m);
            }
            Op::Edit(e) => {
                let mut m2 = m.clone();
                let (n, _) = c02::apply(&mut m2, e);
                // a list of fields is looked through for each field
                let nodes = bulk(&m.root).0 as u64;
                let args = format!("{:?}", e.op).len() as u64
                    + match &e.op {
                        c02::EOp::MoveSub { fields, .. } => fields.len() as u64 * nodes,
                        c02::EOp::MoveMap { keeps, .. } => keeps.len() as u64 * nodes,
                        _ => 0,
                    };
                let q = Due { size: q.size + args + n as u64 * 50 + bulk(&m2.root).1 as u64, depth: q.depth };
                let pq = Due { size: 20 + format!("{:?}", e.path).len() as u64, depth: e.path.parts.len() as u64 };
                let path = meter(c, "path", pq, || lib_path(&e.path))??;
                let mut copy = d.clone();
                meter(c, "edit", q, || lib_edit(&mut copy, &path, &e.op))?;
                c02::step(c, d, m, e)?;
            }
            Op::Pretty { level } => {
                c.count("op: prettified");
                let old = std::mem::replace(d, Document { leading_comments: vec![], items: vec![] });
                *d = meter(c, "pretty", q, || pretty_doc(old, *level))??;
                match proj_doc(d) {
                    Some(m2) => *m = m2,
                    None => return violation("content", "no root"),
                }
            }
            Op::Read => self.read(c, d, m, &text)?,
            Op::Write => {
                let m2 = m.clone();
                let y = meter(c, "write", q, || Content(&m2.root).serialize(YamlSerializer))?;
                c.count(if y.is_ok() { "write: done" } else { "write: refused" });
                if let Ok(y) = y {
                    let doc = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(y)] };
                    let t = meter(c, "format", q, || doc.format())?;
                    if let Ok(t) = t {
                        let q = Due { size: t.len() as u64 + 20, ..q };
                        meter(c, "parse", q, || parse_yaml_file(&t).is_ok())?;
                    }
                }
            }
        }
        Ok(())
    }
    fn changed(&mut self, c: &mut Ctx, want: &MDoc, d: &Document) -> Res {
        let m = same(want, d, "in memory")?;
        let bulk = bulk(&m.root);
        let dp = depth(&m.root) as u64;
        let around: usize = [&m.lead, &m.pre, &m.post].iter().flat_map(|v| v.iter()).map(|t| t.len() + 4).sum();
        let q = Due { size: (bulk.1 + bulk.0 * 2 + around) as u64 * 2 + dp * bulk.0 as u64, depth: dp };
        let text = meter(c, "format", q, || d.format())?;
        let Ok(text) = text else { return violation("reject", "format reports an error") };
        c.state(text.as_bytes());
        let q = due(&text, &m);
        match meter(c, "parse", q, || parse_yaml_file(&text))? {
            Ok(_) => Ok(()),
            Err(e) => violation("reject", format!("what is saved is rejected: {e}")),
        }
    }
    fn loaded(&mut self, c: &mut Ctx, want: &MDoc, d: &Document, text: &str) -> Res<MDoc> {
        let m = same(want, d, "after loading it")?;
        let q = due(text, &m);
        let again = meter(c, "parse", q, || parse_yaml_file(text).is_ok())?;
        if !again {
            return violation("reject", "a document that was read is rejected when it is read again");
        }
        c.count(match depth(&m.root) {
            0..=10 => "read: up to 10 levels",
            11..=30 => "read: up to 30 levels",
            _ => "read: up to 60 levels",
        });
        c.count(match text.len() {
            0..=999 => "read: up to 1 KB",
            1000..=9999 => "read: up to 10 KB",
            _ => "read: more than 10 KB",
        });
        Ok(m)
    }
    fn settle(&mut self, c: &mut Ctx, d: &Document, text: &str) -> Res {
        let Some(m) = proj_doc(d) else { return violation("content", "no root") };
        self.read(c, d, &m, text)?;
        let q = due(text, &m);
        let copy = d.clone();
        let p = meter(c, "pretty", q, || pretty_doc(copy, 0))??;
        let t = meter(c, "format", q, || p.format())?;
        if let (Ok(t), Some(m)) = (t, proj_doc(&p)) {
            meter(c, "parse", due(&t, &m), || parse_yaml_file(&t).is_ok())?;
        }
        Ok(())
    }
}
fn gen_grow(g: &mut Gen) -> Grow {
    let big = g.r.pct(40);
    match g.r.below(12) {
        0..=3 => Grow::Nest { n: g.r.range(2, if big { 55 } else { 15 }) as u8, pat: *g.r.pick(&[0, 0xffff, 0x5555, 0x1234, 0x9d61, 0x00ff]), flow: g.r.pct(15), anchors: g.r.pct(30) },
        4 | 5 => Grow::Widen { n: g.r.range(2, if big { 600 } else { 40 }) as u16, what: g.r.below(8) as u8 },
        6 => Grow::Copies { n: g.r.range(2, if big { 40 } else { 6 }) as u8 },
        7 | 8 => Grow::Long { n: g.r.range(2, if big { 1500 } else { 60 }) as u16, what: g.r.below(6) as u8 },
        9 => Grow::Comments { n: g.r.range(2, if big { 400 } else { 20 }) as u16, inline: g.r.pct(50) },
        10 => Grow::Anchors { n: g.r.range(2, if big { 400 } else { 20 }) as u16, far: g.r.pct(50) },
        _ => Grow::Chain { n: g.r.range(2, if big { 60 } else { 12 }) as u8, twice: g.r.pct(50) },
    }
}
pub fn gen(r: &mut Rng) -> Plan {
    // few of them are really long
    let big = r.below(100) == 0;
    gen_plan(
        r,
        1,
        |r, k| {
            k.aliases = *r.pick(&[0, 0, 15]);
            k.depth = k.depth.min(4);
            k.width = k.width.min(4);
        },
        |g, shadow: &mut MDoc| match g.r.below(12) {
            0 => Op::Change(gen_mutation(g)),
            1..=6 => {
                let site = if g.r.pct(30) { 0 } else { g.r.below(2000) as u16 };
                let mut kind = gen_grow(g);
                if big {
                    let n = g.r.range(2000, 7000) as u16;
                    kind = match g.r.below(6) {
                        5 => Grow::Anchors { n, far: g.r.pct(50) },
                        0..=2 => Grow::Widen { n, what: g.r.below(8) as u8 },
                        3 => Grow::Long { n, what: g.r.below(6) as u8 },
                        _ => Grow::Comments { n, inline: false },
                    };
                }
                grow(shadow, site, &kind);
                Op::Grow { site, kind }
            }
            7 | 8 => Op::Edit(c02::gen_edit(g, shadow)),
            9 => Op::Pretty { level: g.r.below(3) as u8 },
            10 => Op::Write,
            _ => Op::Read,
        },
        4,
    )
}
pub fn valid(p: &Plan) -> bool {
    valid_plan(p)
        && p.ops.iter().all(|o| match &o.act {
            Act::Edit(es) => es.iter().all(|e| match e {
                Op::Edit(e) => {
                    c02::path_ok(&e.path)
                        && match &e.op {
                            c02::EOp::Insert { val, .. } => size(val) < 500,
                            c02::EOp::Rename { to } => text::valid_key(to),
                            c02::EOp::ToObject { key } => text::valid_key(key),
                            _ => true,
                        }
                }
                _ => true,
            }),
            _ => true,
        })
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    let a = cov::steps();
    std::hint::black_box(depth(std::hint::black_box(&p.files[0].doc.root)));
    if cov::steps() == a {
        return violation("harness", "steps are not counted in this build");
    }
    cov::limit(RUN);
    run(p, &mut Steps, c)
}
