//! The reference model: what a document *is*, independent of the library's own
//! types. `proj` reads the library's tree into it, everything else is ours.
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::string::{
    DoubleQuotedStringEscapedChar as DE, SingleQuotedStringEscapedChar as SE,
};
use yaml_subset::yaml::{
    AliasedYaml, ArrayData, BlockChomping, Document, DocumentData, DoubleQuotedStringPart as DP,
    HashData, HashElement, SingleQuotedStringPart as SP, Yaml,
};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum QP {
    Text(String),
    /// written escape: the character after the backslash (or `'`)
    Esc(char),
    /// n empty lines
    Blank(usize),
    /// a line break that carries no content
    Nl,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Chomp {
    Clip,
    Strip,
    Keep,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Scalar {
    Plain(String),
    Single(Vec<QP>),
    Double(Vec<QP>),
    Block { folded: bool, chomp: Chomp, lines: Vec<String> },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ent {
    C { text: String, inline: bool },
    Kv { key: String, alias: Option<String>, val: MNode },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Item {
    C { text: String, inline: bool },
    El { alias: Option<String>, val: MNode },
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MNode {
    Map { flow: bool, ents: Vec<Ent> },
    Seq { flow: bool, items: Vec<Item> },
    Sc(Scalar),
    Ref(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MDoc {
    pub lead: Vec<String>,
    pub pre: Vec<String>,
    pub root: MNode,
    pub post: Vec<String>,
}

// ---------------------------------------------------------------- projection
fn qnorm(v: Vec<QP>) -> Vec<QP> {
    let mut out: Vec<QP> = Vec::new();
    for p in v {
        match (&p, out.last_mut()) {
            (QP::Text(t), Some(QP::Text(last))) => last.push_str(t),
            (QP::Text(t), _) if t.is_empty() => {}
            _ => out.push(p),
        }
    }
    out
}
pub fn chomp_of(c: &BlockChomping) -> Chomp {
    match c {
        BlockChomping::Clip => Chomp::Clip,
        BlockChomping::Strip => Chomp::Strip,
        BlockChomping::Keep => Chomp::Keep,
    }
}
fn chomp_to(c: Chomp) -> BlockChomping {
    match c {
        Chomp::Clip => BlockChomping::Clip,
        Chomp::Strip => BlockChomping::Strip,
        Chomp::Keep => BlockChomping::Keep,
    }
}
pub fn proj(y: &Yaml) -> MNode {
    match y {
        Yaml::InlineHash(v) => MNode::Map {
            flow: true,
            ents: v
                .iter()
                .map(|(k, v)| Ent::Kv { key: k.clone(), alias: None, val: proj(v) })
                .collect(),
        },
        Yaml::Hash(v) => MNode::Map {
            flow: false,
            ents: v
                .iter()
                .map(|h| match h {
                    HashData::Comment(c) => Ent::C { text: c.clone(), inline: false },
                    HashData::InlineComment(c) => Ent::C { text: c.clone(), inline: true },
                    HashData::Element(e) => Ent::Kv {
                        key: e.key.clone(),
                        alias: e.value.alias.clone(),
                        val: proj(&e.value.value),
                    },
                })
                .collect(),
        },
        Yaml::InlineArray(v) => MNode::Seq {
            flow: true,
            items: v.iter().map(|x| Item::El { alias: None, val: proj(x) }).collect(),
        },
        Yaml::Array(v) => MNode::Seq {
            flow: false,
            items: v
                .iter()
                .map(|h| match h {
                    ArrayData::Comment(c) => Item::C { text: c.clone(), inline: false },
                    ArrayData::InlineComment(c) => Item::C { text: c.clone(), inline: true },
                    ArrayData::Element(e) => {
                        Item::El { alias: e.alias.clone(), val: proj(&e.value) }
                    }
                })
                .collect(),
        },
        Yaml::UnquotedString(s) => MNode::Sc(Scalar::Plain(s.clone())),
        Yaml::SingleQuotedString(p) => MNode::Sc(Scalar::Single(qnorm(
            p.iter()
                .map(|x| match x {
                    SP::String(s) => QP::Text(s.clone()),
                    SP::EscapedChar(SE::SingleQuote) => QP::Esc('\''),
                    SP::BlankLines(n) => QP::Blank(*n),
                    SP::RemovableNewline => QP::Nl,
                })
                .collect(),
        ))),
        Yaml::DoubleQuotedString(p) => MNode::Sc(Scalar::Double(qnorm(
            p.iter()
                .map(|x| match x {
                    DP::String(s) => QP::Text(s.clone()),
                    DP::EscapedChar(c) => QP::Esc(match c {
                        DE::Quote => '"',
                        DE::Backslash => '\\',
                        DE::Tab => 't',
                        DE::CarriageReturn => 'r',
                        DE::Newline => 'n',
                        DE::RealNewline => '\n',
                    }),
                    DP::BlankLines(n) => QP::Blank(*n),
                    DP::RemovableNewline => QP::Nl,
                })
                .collect(),
        ))),
        Yaml::FoldedString(l, c) => {
            MNode::Sc(Scalar::Block { folded: true, chomp: chomp_of(c), lines: l.clone() })
        }
        Yaml::LiteralString(l, c) => {
            MNode::Sc(Scalar::Block { folded: false, chomp: chomp_of(c), lines: l.clone() })
        }
        Yaml::Anchor(a) => MNode::Ref(a.clone()),
    }
}
pub fn proj_doc(d: &Document) -> Option<MDoc> {
    let mut pre = Vec::new();
    let mut post = Vec::new();
    let mut root = None;
    for i in &d.items {
        match i {
            DocumentData::Comment(c) => {
                if root.is_none() {
                    pre.push(c.clone())
                } else {
                    post.push(c.clone())
                }
            }
            DocumentData::Yaml(y) => {
                if root.is_some() {
                    return None;
                }
                root = Some(proj(y));
            }
        }
    }
    Some(MDoc { lead: d.leading_comments.clone(), pre, root: root?, post })
}
// ------------------------------------------------------- model -> library
pub fn to_yaml(n: &MNode) -> Yaml {
    match n {
        MNode::Map { flow: true, ents } => Yaml::InlineHash(
            ents.iter()
                .filter_map(|e| match e {
                    Ent::Kv { key, val, .. } => Some((key.clone(), to_yaml(val))),
                    _ => None,
                })
                .collect(),
        ),
        MNode::Map { flow: false, ents } => Yaml::Hash(
            ents.iter()
                .map(|e| match e {
                    Ent::C { text, inline: true } => HashData::InlineComment(text.clone()),
                    Ent::C { text, inline: false } => HashData::Comment(text.clone()),
                    Ent::Kv { key, alias, val } => HashData::Element(HashElement {
                        key: key.clone(),
                        value: AliasedYaml { alias: alias.clone(), value: to_yaml(val) },
                    }),
                })
                .collect(),
        ),
        MNode::Seq { flow: true, items } => Yaml::InlineArray(
            items
                .iter()
                .filter_map(|e| match e {
                    Item::El { val, .. } => Some(to_yaml(val)),
                    _ => None,
                })
                .collect(),
        ),
        MNode::Seq { flow: false, items } => Yaml::Array(
            items
                .iter()
                .map(|e| match e {
                    Item::C { text, inline: true } => ArrayData::InlineComment(text.clone()),
                    Item::C { text, inline: false } => ArrayData::Comment(text.clone()),
                    Item::El { alias, val } => ArrayData::Element(AliasedYaml {
                        alias: alias.clone(),
                        value: to_yaml(val),
                    }),
                })
                .collect(),
        ),
        MNode::Sc(Scalar::Plain(s)) => Yaml::UnquotedString(s.clone()),
        MNode::Sc(Scalar::Single(p)) => Yaml::SingleQuotedString(
            p.iter()
                .map(|x| match x {
                    QP::Text(s) => SP::String(s.clone()),
                    QP::Esc(_) => SP::EscapedChar(SE::SingleQuote),
                    QP::Blank(n) => SP::BlankLines(*n),
                    QP::Nl => SP::RemovableNewline,
                })
                .collect(),
        ),
        MNode::Sc(Scalar::Double(p)) => Yaml::DoubleQuotedString(
            p.iter()
                .map(|x| match x {
                    QP::Text(s) => DP::String(s.clone()),
                    QP::Esc(c) => DP::EscapedChar(match c {
                        '"' => DE::Quote,
                        '\\' => DE::Backslash,
                        't' => DE::Tab,
                        'r' => DE::CarriageReturn,
                        'n' => DE::Newline,
                        _ => DE::RealNewline,
                    }),
                    QP::Blank(n) => DP::BlankLines(*n),
                    QP::Nl => DP::RemovableNewline,
                })
                .collect(),
        ),
        MNode::Sc(Scalar::Block { folded, chomp, lines }) => {
            if *folded {
                Yaml::FoldedString(lines.clone(), chomp_to(*chomp))
            } else {
                Yaml::LiteralString(lines.clone(), chomp_to(*chomp))
            }
        }
        MNode::Ref(a) => Yaml::Anchor(a.clone()),
    }
}
pub fn to_doc(m: &MDoc) -> Document {
    let mut items: Vec<DocumentData> =
        m.pre.iter().map(|c| DocumentData::Comment(c.clone())).collect();
    items.push(DocumentData::Yaml(to_yaml(&m.root)));
    items.extend(m.post.iter().map(|c| DocumentData::Comment(c.clone())));
    Document { leading_comments: m.lead.clone(), items }
}

// ---------------------------------------------------------------- comparison
/// Comments removed; a block collection without entries is the same document
/// as the empty flow collection it is written as.
pub fn canon(n: &MNode) -> MNode {
    match n {
        MNode::Map { flow, ents } => {
            let e: Vec<Ent> = ents
                .iter()
                .filter_map(|e| match e {
                    Ent::C { .. } => None,
                    Ent::Kv { key, alias, val } => Some(Ent::Kv {
                        key: key.clone(),
                        alias: alias.clone(),
                        val: canon(val),
                    }),
                })
                .collect();
            MNode::Map { flow: *flow || e.is_empty(), ents: e }
        }
        MNode::Seq { flow, items } => {
            let e: Vec<Item> = items
                .iter()
                .filter_map(|e| match e {
                    Item::C { .. } => None,
                    Item::El { alias, val } => {
                        Some(Item::El { alias: alias.clone(), val: canon(val) })
                    }
                })
                .collect();
            MNode::Seq { flow: *flow || e.is_empty(), items: e }
        }
        // empty lines at the end only count when they are kept
        MNode::Sc(Scalar::Block { folded, chomp, lines }) if *chomp != Chomp::Keep => {
            let mut lines = lines.clone();
            while lines.last().map_or(false, |l| l.is_empty()) {
                lines.pop();
            }
            MNode::Sc(Scalar::Block { folded: *folded, chomp: *chomp, lines })
        }
        other => other.clone(),
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    C(String),
    K(String),
    I,
    Leaf,
    Start,
}
/// Document order of comments, keys, items and leaves, nesting dropped.
pub fn stream_node(n: &MNode, out: &mut Vec<Tok>) {
    match n {
        MNode::Map { ents, .. } => {
            if !ents.iter().any(|e| matches!(e, Ent::Kv { .. })) {
                out.push(Tok::Leaf);
            }
            for e in ents {
                match e {
                    Ent::C { text, .. } => out.push(Tok::C(text.clone())),
                    Ent::Kv { key, val, .. } => {
                        out.push(Tok::K(key.clone()));
                        stream_node(val, out)
                    }
                }
            }
        }
        MNode::Seq { items, .. } => {
            if !items.iter().any(|e| matches!(e, Item::El { .. })) {
                out.push(Tok::Leaf);
            }
            for e in items {
                match e {
                    Item::C { text, .. } => out.push(Tok::C(text.clone())),
                    Item::El { val, .. } => {
                        out.push(Tok::I);
                        stream_node(val, out)
                    }
                }
            }
        }
        _ => out.push(Tok::Leaf),
    }
}
pub fn stream(d: &MDoc) -> Vec<Tok> {
    let mut v = Vec::new();
    for c in &d.lead {
        v.push(Tok::C(c.clone()));
    }
    v.push(Tok::Start);
    for c in &d.pre {
        v.push(Tok::C(c.clone()));
    }
    stream_node(&d.root, &mut v);
    for c in &d.post {
        v.push(Tok::C(c.clone()));
    }
    v
}
pub fn comments(d: &MDoc) -> Vec<String> {
    stream(d)
        .into_iter()
        .filter_map(|t| if let Tok::C(c) = t { Some(c) } else { None })
        .collect()
}
/// None when both hold the same content, otherwise what differs.
pub fn diff_docs(want: &MDoc, got: &MDoc) -> Option<(&'static str, String)> {
    let (a, b) = (canon(&want.root), canon(&got.root));
    if a != b {
        return Some(("content", format!("{}", first_diff(&a, &b, String::new()))));
    }
    let (a, b) = (stream(want), stream(got));
    if a != b {
        let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
        return Some((
            "comments",
            format!(
                "comment stream differs at {}: want {:?} got {:?}",
                i,
                a.iter().skip(i).take(4).collect::<Vec<_>>(),
                b.iter().skip(i).take(4).collect::<Vec<_>>()
            ),
        ));
    }
    None
}
pub fn first_diff(a: &MNode, b: &MNode, path: String) -> String {
    match (a, b) {
        (MNode::Map { flow: f1, ents: e1 }, MNode::Map { flow: f2, ents: e2 }) if f1 == f2 => {
            for (i, (x, y)) in e1.iter().zip(e2.iter()).enumerate() {
                if x != y {
                    if let (
                        Ent::Kv { key: k1, alias: a1, val: v1 },
                        Ent::Kv { key: k2, alias: a2, val: v2 },
                    ) = (x, y)
                    {
                        if k1 == k2 && a1 == a2 {
                            return first_diff(v1, v2, format!("{path}.{k1}"));
                        }
                        return format!("{path}#{i}: want {k1:?} &{a1:?}, got {k2:?} &{a2:?}");
                    }
                    return format!("{path}#{i}: want {x:?} got {y:?}");
                }
            }
            format!(
                "{path}: want {} entries, got {}: want {:?} got {:?}",
                e1.len(),
                e2.len(),
                e1.get(e2.len()),
                e2.get(e1.len())
            )
        }
        (MNode::Seq { flow: f1, items: e1 }, MNode::Seq { flow: f2, items: e2 }) if f1 == f2 => {
            for (i, (x, y)) in e1.iter().zip(e2.iter()).enumerate() {
                if x != y {
                    if let (Item::El { alias: a1, val: v1 }, Item::El { alias: a2, val: v2 }) =
                        (x, y)
                    {
                        if a1 == a2 {
                            return first_diff(v1, v2, format!("{path}[{i}]"));
                        }
                    }
                    return format!("{path}[{i}]: want {x:?} got {y:?}");
                }
            }
            format!(
                "{path}: want {} items, got {}: want {:?} got {:?}",
                e1.len(),
                e2.len(),
                e1.get(e2.len()),
                e2.get(e1.len())
            )
        }
        _ => format!("{path}: want {a:?} got {b:?}"),
    }
}
pub fn size(n: &MNode) -> usize {
    match n {
        MNode::Map { ents, .. } => {
            1 + ents
                .iter()
                .map(|e| match e {
                    Ent::Kv { val, .. } => size(val),
                    _ => 1,
                })
                .sum::<usize>()
        }
        MNode::Seq { items, .. } => {
            1 + items
                .iter()
                .map(|e| match e {
                    Item::El { val, .. } => size(val),
                    _ => 1,
                })
                .sum::<usize>()
        }
        _ => 1,
    }
}

// ------------------------------------------------------------------- values
pub fn q_value(p: &[QP], double: bool) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            QP::Text(t) => s.push_str(t),
            QP::Esc(c) => s.push(if double {
                match c {
                    't' => '\t',
                    'r' => '\r',
                    'n' => '\n',
                    c => *c,
                }
            } else {
                *c
            }),
            QP::Blank(n) => (0..*n).for_each(|_| s.push('\n')),
            QP::Nl => {}
        }
    }
    s
}
pub fn chomp_end(s: String, c: Chomp) -> String {
    match c {
        Chomp::Keep => s + "\n",
        Chomp::Clip => s.trim_end_matches('\n').to_string() + "\n",
        Chomp::Strip => s.trim_end_matches('\n').to_string(),
    }
}
pub fn scalar_value(s: &Scalar) -> String {
    match s {
        Scalar::Plain(s) => s.clone(),
        Scalar::Single(p) => q_value(p, false),
        Scalar::Double(p) => q_value(p, true),
        Scalar::Block { folded: false, chomp, lines } => chomp_end(lines.join("\n"), *chomp),
        Scalar::Block { folded: true, chomp, lines } => {
            if lines.is_empty() {
                return String::new();
            }
            let mut out = lines[0].clone();
            let mut brk = false;
            for l in &lines[1..] {
                if l.is_empty() {
                    out.push('\n');
                    brk = true;
                } else if l.starts_with(' ') {
                    out.push('\n');
                    out.push_str(l);
                    out.push('\n');
                    brk = true;
                } else {
                    if !brk {
                        out.push(' ');
                    }
                    out.push_str(l);
                    brk = false;
                }
            }
            chomp_end(out, *chomp)
        }
    }
}
/// string view of a value as path conditions see it
pub fn as_string(n: &MNode) -> Option<String> {
    match n {
        MNode::Sc(s) => Some(scalar_value(s)),
        _ => None,
    }
}
