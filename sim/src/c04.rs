//! C04: what is on the disk may be torn, rotten or spliced. Reading it never
//! panics, never runs away, names a place inside the text when it is refused,
//! and what is accepted can be stored and read again. A torn file never makes
//! up content that was not written.
use crate::core::*;
use crate::gen::{knobs, Gen};
use crate::model::*;
use crate::rng::Rng;
use crate::text;
use crate::world::{save, FileInit};
use serde::{Deserialize, Serialize};
use yaml_subset::yaml::{parse_yaml_file, YamlInsert};
use yaml_subset::YamlPath;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub versions: Vec<FileInit>,
    /// the library's own writing instead of the foreign one
    pub own: bool,
    pub sector: u16,
    pub events: Vec<Ev>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    /// overwritten in place; power is lost after `sectors` sectors, which reach
    /// the platter in order or back to front
    InPlace { version: u8, truncate: bool, sectors: u16, backwards: bool },
    /// a copy that stopped after some bytes
    Torn { version: u8, at: u16 },
    Flip { at: u16, bit: u8 },
    /// bytes replaced by others
    Rot { at: u16, with: String },
    Lose { at: u16, len: u8 },
    Dup { at: u16, len: u8 },
    /// the byte after one of the characters that mean something
    After { kind: u8, nth: u16, with: char },
    /// bytes repeated over and over
    Stutter { at: u16, len: u8, n: u8 },
    Zero { at: u16, len: u8 },
    DropLine { at: u16 },
    SwapLines { at: u16 },
    /// a sector of another version
    Stale { version: u8, at: u16 },
    /// a path expression from a damaged configuration is used on the document
    Path { text: String },
}

/// parse with the step budget that is due for a text of this size
pub fn budget(len: usize) -> usize {
    400_000 + 6_000 * len
}
pub fn set_budget(n: Option<usize>) {
    pest::set_call_limit(n.and_then(std::num::NonZeroUsize::new));
}
enum Seen {
    Refused,
    Read(MDoc),
}
fn read(c: &mut Ctx, text: &str) -> Res<Seen> {
    set_budget(Some(budget(text.len())));
    let r = lib("parse_yaml_file", || parse_yaml_file(text));
    set_budget(None);
    match r? {
        Err(e) => {
            c.count("read: refused");
            let msg = lib("Display of the error", || format!("{e}"))?;
            if msg.contains("call limit reached") {
                return violation(
                    "runaway",
                    format!("reading {} bytes exceeds {} parser steps:\n{text}", text.len(), budget(text.len())),
                );
            }
            if msg.trim().is_empty() {
                return violation("error", "an error without a message");
            }
            let (line, col) = lib("location of the error", || e.location())?;
            let lines: Vec<&str> = text.split('\n').collect();
            let ok = line >= 1
                && line <= lines.len()
                && col >= 1
                && col <= lines[line - 1].chars().count() + 1;
            if !ok {
                return violation(
                    "error",
                    format!("the error is located at {line}:{col}, outside of the text\n{text}"),
                );
            }
            Ok(Seen::Refused)
        }
        Ok(d) => {
            c.count("read: accepted");
            let Some(m) = proj_doc(&d) else {
                return violation("content", format!("accepted a document without a single root:\n{text}"));
            };
            if !crate::c01::storable(&m) {
                // read leniently into something the subset cannot express
                c.count("read: accepted outside of the subset");
                save(&d)?;
                return Ok(Seen::Read(m));
            }
            let t = save(&d)?;
            c.state(t.as_bytes());
            let d2 = match lib("parse_yaml_file", || parse_yaml_file(&t))? {
                Ok(d) => d,
                Err(e) => {
                    return violation("reject", format!("accepted, but what it is saved as is refused: {e}\n{text}\n---- saved as ----\n{t}"))
                }
            };
            let Some(m2) = proj_doc(&d2) else {
                return violation("content", "no single root");
            };
            if let Some((class, x)) = diff_docs(&m, &m2) {
                return violation(class, format!("accepted, but reads differently once saved: {x}\n{text}\n---- saved as ----\n{t}"));
            }
            Ok(Seen::Read(m))
        }
    }
}
#[derive(PartialEq, Debug, Clone)]
enum T {
    C(String),
    K(String),
    I,
    V(String),
    A(String),
}
fn toks(n: &MNode, out: &mut Vec<T>) {
    match n {
        MNode::Map { ents, .. } => {
            for e in ents {
                match e {
                    Ent::C { text, .. } => out.push(T::C(text.clone())),
                    Ent::Kv { key, alias, val } => {
                        out.push(T::K(key.clone()));
                        if let Some(a) = alias {
                            out.push(T::A(a.clone()))
                        }
                        toks(val, out)
                    }
                }
            }
        }
        MNode::Seq { items, .. } => {
            for e in items {
                match e {
                    Item::C { text, .. } => out.push(T::C(text.clone())),
                    Item::El { alias, val } => {
                        out.push(T::I);
                        if let Some(a) = alias {
                            out.push(T::A(a.clone()))
                        }
                        toks(val, out)
                    }
                }
            }
        }
        MNode::Ref(a) => out.push(T::V(format!("*{a}"))),
        // spelling of empty ends aside
        n => out.push(T::V(format!("{:?}", canon(n)))),
    }
}
fn doc_toks(d: &MDoc) -> Vec<T> {
    let mut v: Vec<T> = d.lead.iter().chain(&d.pre).map(|c| T::C(c.clone())).collect();
    toks(&d.root, &mut v);
    v.extend(d.post.iter().map(|c| T::C(c.clone())));
    v
}
/// what a torn copy of `whole` may hold: everything but the last, unfinished
/// things must have been written just like that
fn torn_ok(whole: &MDoc, got: &MDoc) -> Res {
    let (w, g) = (doc_toks(whole), doc_toks(got));
    // the last key, dash or value may be unfinished; comments may follow it
    let solid: Vec<usize> = (0..g.len()).filter(|i| !matches!(g[*i], T::C(_))).collect();
    let sure = if solid.len() < 2 { 0 } else { solid[solid.len() - 2] };
    for i in 0..sure {
        if w.get(i) != Some(&g[i]) {
            return violation(
                "fabricated",
                format!("a torn copy reads {:?} where {:?} was written (thing {i} of {})", g[i], w.get(i), g.len()),
            );
        }
    }
    Ok(())
}
pub fn exec(p: &Plan, c: &mut Ctx) -> Res {
    let mut texts: Vec<Vec<u8>> = Vec::new();
    for v in &p.versions {
        let t = if p.own {
            save(&to_doc(&v.doc))?
        } else {
            text::write_doc(&v.doc, &v.layout)
        };
        texts.push(t.into_bytes());
    }
    let n = texts.len();
    let mut disk = texts[0].clone();
    let sec = p.sector.max(1) as usize;
    for ev in &p.events {
        c.now += 1000;
        let len = disk.len();
        let pos = |at: u16, len: usize| if len == 0 { 0 } else { at as usize % len };
        let before = disk.clone();
        let mut whole: Option<usize> = None;
        match ev {
            Ev::InPlace { version, truncate, sectors, backwards } => {
                c.count("fault: torn in-place write");
                c.decide("inplace", *sectors as u64);
                let v = *version as usize % n;
                let new = &texts[v];
                let total = (new.len() + sec - 1) / sec;
                let k = (*sectors as usize) % (total + 1);
                if *truncate {
                    disk.clear();
                }
                if *backwards {
                    // lowest sectors missing: a hole in front reads as old bytes or zeros
                    let from = (total - k) * sec;
                    if disk.len() < new.len() {
                        disk.resize(new.len(), if *truncate { b' ' } else { 0 });
                    }
                    disk[from.min(new.len())..new.len()].copy_from_slice(&new[from.min(new.len())..]);
                } else {
                    let upto = (k * sec).min(new.len());
                    if disk.len() < upto {
                        disk.resize(upto, 0);
                    }
                    disk[..upto].copy_from_slice(&new[..upto]);
                    if *truncate {
                        whole = Some(v);
                    }
                }
            }
            Ev::Torn { version, at } => {
                c.count("fault: torn copy");
                c.decide("torn", *at as u64);
                let v = *version as usize % n;
                disk = texts[v].clone();
                let k = pos(*at, disk.len() + 1);
                disk.truncate(k);
                whole = Some(v);
            }
            Ev::Flip { at, bit } => {
                c.count("fault: bit flip");
                if len > 0 {
                    disk[pos(*at, len)] ^= 1 << (bit % 7);
                }
            }
            Ev::Rot { at, with } => {
                c.count("fault: bytes overwritten");
                let a = pos(*at, len + 1);
                let b = (a + with.len()).min(len);
                disk.splice(a..b, with.bytes());
            }
            Ev::Lose { at, len: l } => {
                c.count("fault: bytes lost");
                let a = pos(*at, len + 1);
                disk.drain(a..(a + *l as usize).min(len));
            }
            Ev::Dup { at, len: l } => {
                c.count("fault: bytes repeated");
                let a = pos(*at, len + 1);
                let s: Vec<u8> = disk[a..(a + *l as usize).min(len)].to_vec();
                disk.splice(a..a, s);
            }
            Ev::After { kind, nth, with } => {
                c.count("fault: byte after an indicator overwritten");
                let kinds: Vec<u8> = b"\\\"':-&*|>#\n,[]{}".iter().copied().filter(|k| disk.contains(k)).collect();
                let k = kinds.get(*kind as usize % kinds.len().max(1));
                let v: Vec<usize> = (0..len).filter(|i| Some(&disk[*i]) == k).collect();
                if !v.is_empty() {
                    let i = v[*nth as usize % v.len()] + 1;
                    let mut b = [0u8; 4];
                    let s = with.encode_utf8(&mut b);
                    disk.splice(i.min(len)..(i + 1).min(len), s.bytes());
                }
            }
            Ev::Stutter { at, len: l, n } => {
                c.count("fault: bytes repeated over and over");
                let a = pos(*at, len + 1);
                let s: Vec<u8> = disk[a..(a + *l as usize).min(len)].repeat(*n as usize);
                disk.splice(a..a, s);
            }
            Ev::Zero { at, len: l } => {
                c.count("fault: bytes zeroed");
                let a = pos(*at, len + 1);
                for b in &mut disk[a..(a + *l as usize).min(len)] {
                    *b = 0;
                }
            }
            Ev::DropLine { at } => {
                c.count("fault: line lost");
                let mut l: Vec<&[u8]> = before.split(|b| *b == b'\n').collect();
                if !l.is_empty() {
                    l.remove(*at as usize % l.len());
                }
                disk = l.join(&b'\n');
            }
            Ev::SwapLines { at } => {
                c.count("fault: lines reordered");
                let mut l: Vec<&[u8]> = before.split(|b| *b == b'\n').collect();
                if l.len() > 1 {
                    let i = *at as usize % (l.len() - 1);
                    l.swap(i, i + 1);
                }
                disk = l.join(&b'\n');
            }
            Ev::Stale { version, at } => {
                c.count("fault: stale sector");
                let t = &texts[*version as usize % n];
                let a = (pos(*at, len + 1) / sec) * sec;
                let b = (a + sec).min(len).min(t.len());
                if a < b {
                    disk[a..b].copy_from_slice(&t[a..b]);
                }
            }
            Ev::Path { text } => {
                c.count("fault: damaged path");
                let r = lib("parsing a path", || text.parse::<YamlPath>())?;
                match r {
                    Err(e) => {
                        c.count("path: refused");
                        let _ = lib("Display of a path error", || format!("{e}"))?;
                    }
                    Ok(path) => {
                        c.count("path: accepted");
                        let mut d = to_doc(&p.versions[0].doc);
                        let was = d.clone();
                        lib("find_values", || d.find_values(&path))?;
                        if d != was {
                            return violation("content", "looking something up changed the document");
                        }
                        lib("remove_from_hash", || d.remove_from_hash(&path))?;
                        lib("rename_field", || d.rename_field(&path, "zz".into()))?;
                        lib("to_object", || d.to_object(&path, "yy".into()))?;
                    }
                }
                continue;
            }
        }
        if disk != before {
            c.nontrivial = true;
        }
        if disk.len() > 1 << 16 {
            break;
        }
        let t = match String::from_utf8(disk.clone()) {
            Ok(t) => t,
            Err(_) => {
                c.count("read: not UTF-8");
                String::from_utf8_lossy(&disk).into_owned()
            }
        };
        c.note(|| format!("{ev:?}\n{t}"));
        c.ev("read", t.len() as u64, fnv(FNV0, t.as_bytes()));
        match read(c, &t)? {
            Seen::Refused => c.ev("refused", 0, 0),
            Seen::Read(m) => {
                c.ev("accepted", size(&m.root) as u64, 0);
                if let Some(v) = whole {
                    c.count("read: torn copy accepted");
                    if let Err(mut x) = torn_ok(&p.versions[v].doc, &m) {
                        x.detail.push_str(&format!("\n{t}"));
                        return Err(x);
                    }
                }
            }
        }
    }
    Ok(())
}
const FRAGS: &[&str] = &[
    "- ", "-", ": ", ":", "{", "}", "[", "]", ",", "\"", "'", "#", " #", "|", ">", "|2", ">-", "&a ", "*a", "\n", "\n\n",
    "\n  ", "  ", "\t", "\r\n", "\r", "---", "\n---\n", "- - ", "? ", "\\", "\\n", "\\u", "''", "\"\"", "\u{0}", "é", "\u{2028}",
    "\u{feff}", "- - - - - - ", "[[[[", "{a: {a: ", "a: a: a: ", "|9\n", ">0", "|99\n", "|+2", "&", "*", "- a: - a: - a: - a: - a: - a: ", "- &x - &y - &z - ", "[{a: [{a: [{a: ", "a:\n  a:\n    a:\n      a:\n        ", "a: \n  a: \n    a: \n      a: \n        ", "- \n  - \n    - \n      - \n        ", "# c\n# c\n# c\n", "%YAML", "!!str ", "\\\n",
];
const PFRAGS: &[&str] = &[
    ".", "[", "]", "[*]", "[0]", "[99999999999999999999]", "|", "=", "|a=b", "a", "b", " ", "*", "[-1]", "[ 1 ]", "..", "|=", "é", "\n",
    "key", "[1][*]", "|a=", "a.b", "\u{0}", "[18446744073709551615]", "[18446744073709551616]",
];
pub fn gen(r: &mut Rng) -> Plan {
    let mut k = knobs(r);
    let own = r.pct(30);
    let nv = r.range(1, 3);
    if r.pct(30) {
        k.depth = 2;
        k.width = 2;
    }
    let mut versions = Vec::new();
    for _ in 0..nv {
        let mut fk = k.clone();
        crate::gen::scale(r, &mut fk);
        let mut g = Gen::new(r, fk);
        let doc = g.doc();
        let layout = g.layout();
        versions.push(FileInit { doc, layout, odd: false });
    }
    let ne = r.range(1, 6);
    let on: Vec<u32> = (0..13).map(|_| if r.pct(60) { 10 } else { 0 }).collect();
    let mut events = Vec::new();
    for _ in 0..ne {
        let at = r.below(4096) as u16;
        let version = r.below(3) as u8;
        let len = r.range(1, 24) as u8;
        let ev = match r.weighted(&on) {
            0 => Ev::InPlace {
                version,
                truncate: r.pct(50),
                sectors: r.below(64) as u16,
                backwards: r.pct(30),
            },
            1 => Ev::Torn { version, at },
            2 => Ev::Flip { at, bit: r.below(7) as u8 },
            3 => {
                let mut s = String::new();
                if r.pct(15) {
                    s = r.pick(FRAGS).repeat(r.range(2, 40));
                }
                for _ in 0..r.range(1, 4) {
                    if r.pct(25) {
                        s.push_str(&crate::gen::soup(r, 3));
                    } else {
                        s.push_str(r.pick(FRAGS));
                    }
                }
                Ev::Rot { at, with: s }
            }
            4 => Ev::Lose { at, len },
            5 => Ev::Dup { at, len },
            6 => Ev::Zero { at, len },
            7 => Ev::DropLine { at },
            8 => Ev::SwapLines { at },
            11 => Ev::After { kind: r.below(30) as u8, nth: at, with: crate::gen::soup(r, 1).chars().next().unwrap() },
            10 => Ev::Stutter { at, len: len.min(*r.pick(&[2, 4, 8, 8, 30])).max(1), n: r.range(2, 40) as u8 },
            9 => Ev::Stale { version, at },
            _ => {
                let mut s = String::new();
                for _ in 0..r.range(0, 8) {
                    s.push_str(r.pick(PFRAGS));
                }
                Ev::Path { text: s }
            }
        };
        events.push(ev);
    }
    Plan { versions, own, sector: *r.pick(&[1, 8, 16, 32, 64]), events }
}
pub fn valid(p: &Plan) -> bool {
    !p.versions.is_empty()
        && p.versions.iter().all(|v| text::valid_doc(&v.doc))
        && p.events.len() <= 64
}
