//! The simulated deployment: clients that load, edit and save documents on a
//! simulated disk. Discrete events, one heap; every latency and fault comes
//! from the plan, so a plan is one exactly repeatable execution.
//!
//! A save is what careful programs do: write a temporary file, sync it, rename
//! it over the document if that is still the version that was loaded, sync the
//! directory. A crash may happen at every step of it.
use crate::core::*;
use crate::gen::{knobs, Gen};
use crate::model::*;
use crate::rng::Rng;
use crate::text;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_subset::yaml::{parse_yaml_file, Document};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WPlan<E> {
    pub files: Vec<FileInit>,
    pub ops: Vec<WOp<E>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileInit {
    pub doc: MDoc,
    pub layout: Vec<u8>,
    /// written with the layouts of the known findings; never generated
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub odd: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WOp<E> {
    pub client: u8,
    pub file: u8,
    /// pause before the operation starts
    pub gap: u32,
    /// latency of each phase
    pub lat: Vec<u32>,
    pub act: Act<E>,
    pub fault: Fault,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act<E> {
    /// load, change, save
    Edit(Vec<E>),
    /// another tool writes the same document its own way
    Foreign(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// the client dies right before this phase
    Crash { phase: u8 },
    /// the machine dies right before this phase; `renames` decides whether a
    /// rename that was not synced yet survives
    Power { phase: u8, renames: bool },
    /// reads fail a few times
    Eio { times: u8 },
    /// the disk is full: nothing or only part of the temporary file is written
    Full { times: u8 },
}
pub const LOAD: u8 = 0;
pub const CHANGE: u8 = 1;
pub const WRITE: u8 = 2;
pub const SYNC: u8 = 3;
pub const RENAME: u8 = 4;
pub const DIRSYNC: u8 = 5;
const PHASES: [&str; 6] = ["load", "change", "write", "sync", "rename", "dirsync"];

/// What a simulation adds to the world: what its edits mean and what its
/// readers look at.
pub trait Sem {
    type E: Clone;
    /// apply to the library's document and to the reference document
    fn apply(&mut self, c: &mut Ctx, d: &mut Document, m: &mut MDoc, e: &Self::E) -> Res;
    /// compare what was loaded with what must be stored
    fn loaded(&mut self, c: &mut Ctx, want: &MDoc, d: &Document, text: &str) -> Res<MDoc> {
        let _ = (c, text);
        same(want, d, "after loading it")
    }
    /// compare the document in memory with the reference after a change
    fn changed(&mut self, _c: &mut Ctx, want: &MDoc, d: &Document) -> Res {
        same(want, d, "in memory").map(|_| ())
    }
    /// at the end, on every file, after a cold restart
    fn settle(&mut self, _c: &mut Ctx, _d: &Document, _text: &str) -> Res {
        Ok(())
    }
}
/// what the library's document holds, if it is what it should hold
pub fn same(want: &MDoc, d: &Document, when: &str) -> Res<MDoc> {
    let Some(got) = proj_doc(d) else {
        return violation("content", format!("document without a single root {when}"));
    };
    if let Some((class, x)) = diff_docs(want, &got) {
        return violation(class, format!("{when}: {x}"));
    }
    Ok(got)
}
pub fn load(text: &str) -> Res<Document> {
    match lib("parse_yaml_file", || parse_yaml_file(text))? {
        Ok(d) => Ok(d),
        Err(e) => {
            violation("reject", format!("a stored document is rejected: {e}\n{text}"))
        }
    }
}
pub fn save(d: &Document) -> Res<String> {
    match lib("format", || d.format())? {
        Ok(t) => Ok(t),
        Err(_) => violation("reject", "format reports an error"),
    }
}

struct Stored {
    text: String,
    model: MDoc,
    version: u64,
    /// state before a rename that is not synced yet
    before: Option<(String, MDoc)>,
}
struct Flight {
    op: usize,
    phase: u8,
    loaded: u64,
    doc: Option<Document>,
    model: Option<MDoc>,
    tmp: Option<String>,
    synced: bool,
    retries: u32,
    fault: Fault,
}
struct Client {
    queue: Vec<usize>,
    next: usize,
    fly: Option<Flight>,
    /// events of an earlier life are ignored
    life: u64,
}

pub fn run<S: Sem>(p: &WPlan<S::E>, s: &mut S, c: &mut Ctx) -> Res {
    let mut files: Vec<Stored> = p
        .files
        .iter()
        .map(|f| Stored {
            text: if f.odd { text::write_odd(&f.doc, &f.layout) } else { text::write_doc(&f.doc, &f.layout) },
            model: f.doc.clone(),
            version: 1,
            before: None,
        })
        .collect();
    let mut clients: BTreeMap<u8, Client> = BTreeMap::new();
    for (i, o) in p.ops.iter().enumerate() {
        clients
            .entry(o.client)
            .or_insert(Client { queue: vec![], next: 0, fly: None, life: 0 })
            .queue
            .push(i);
    }
    // (time, seq) -> (client, life): a total order
    let mut heap: BTreeMap<(u64, u64), (u8, u64)> = BTreeMap::new();
    let mut seq = 0u64;
    for (id, cl) in &clients {
        heap.insert((p.ops[cl.queue[0]].gap as u64, seq), (*id, 0));
        seq += 1;
    }
    let mut overlap = 0u64;
    while let Some((&(t, q), &(id, life))) = heap.iter().next() {
        heap.remove(&(t, q));
        c.now = t;
        if clients.get(&id).map_or(true, |x| x.life != life) {
            continue;
        }
        let busy = clients.values().filter(|x| x.fly.is_some()).count();
        if busy > 1 {
            overlap += 1;
        }
        let cl = clients.get_mut(&id).unwrap();
        if cl.fly.is_none() {
            let Some(&op) = cl.queue.get(cl.next) else { continue };
            cl.fly = Some(Flight {
                op,
                phase: LOAD,
                loaded: 0,
                doc: None,
                model: None,
                tmp: None,
                synced: false,
                retries: 0,
                fault: p.ops[op].fault,
            });
        }
        let fl = cl.fly.as_mut().unwrap();
        let op = &p.ops[fl.op];
        let f = op.file as usize % files.len();
        c.decide(PHASES[fl.phase as usize], id as u64);
        c.ev(PHASES[fl.phase as usize], id as u64, f as u64);
        let lat = |ph: u8| op.lat.get(ph as usize).copied().unwrap_or(1).max(1) as u64;
        let mut done = false;
        match fl.fault {
            Fault::Crash { phase } if phase == fl.phase => {
                c.count("fault: client crash");
                c.decide("crash", phase as u64);
                c.note(|| format!("client {id} dies before {}", PHASES[phase as usize]));
                done = true;
            }
            Fault::Power { phase, renames } if phase == fl.phase => {
                c.count("fault: power loss");
                c.decide("power", phase as u64 * 2 + renames as u64);
                c.note(|| format!("power loss before {} of client {id}", PHASES[phase as usize]));
                for st in files.iter_mut() {
                    if let Some((text, model)) = st.before.take() {
                        if renames {
                            c.count("crash window: unsynced rename survives");
                        } else {
                            c.count("crash window: unsynced rename lost");
                            st.text = text;
                            st.model = model;
                            st.version += 1;
                        }
                    }
                }
                let ids: Vec<u8> = clients.keys().copied().collect();
                for x in ids {
                    let cl = clients.get_mut(&x).unwrap();
                    if let Some(fl) = cl.fly.take() {
                        if fl.tmp.is_some() && !fl.synced {
                            c.count("crash window: unsynced temporary file lost");
                        }
                        cl.next += 1;
                    }
                    cl.life += 1;
                    if let Some(&n) = cl.queue.get(cl.next) {
                        heap.insert((t + 1000 + p.ops[n].gap as u64, seq), (x, cl.life));
                        seq += 1;
                    }
                }
                continue;
            }
            _ => {}
        }
        if !done {
            let st = &mut files[f];
            let mut next = fl.phase + 1;
            match fl.phase {
                LOAD => {
                    if let Fault::Eio { times } = fl.fault {
                        c.count("fault: read error");
                        fl.fault =
                            if times > 1 { Fault::Eio { times: times - 1 } } else { Fault::None };
                        next = LOAD;
                    } else if let Act::Foreign(layout) = &op.act {
                        if text::valid_doc(&st.model) {
                            c.count("op: rewritten by another tool");
                            let text = text::write_doc(&st.model, layout);
                            let old = std::mem::replace(&mut st.text, text);
                            if st.before.is_none() {
                                st.before = Some((old, st.model.clone()));
                            }
                            st.version += 1;
                            let b = st.text.clone();
                            c.state(b.as_bytes());
                        }
                        next = DIRSYNC;
                    } else {
                        let text = st.text.clone();
                        c.note(|| format!("client {id} reads v{}:\n{text}", st.version));
                        let doc = load(&text)?;
                        let m = s.loaded(c, &st.model, &doc, &text)?;
                        fl.loaded = st.version;
                        // from here on the file is known to hold just this
                        st.model = m.clone();
                        fl.doc = Some(doc);
                        fl.model = Some(m);
                        c.count("op: load");
                    }
                }
                CHANGE => {
                    let (d, m) = (fl.doc.as_mut().unwrap(), fl.model.as_mut().unwrap());
                    if let Act::Edit(es) = &op.act {
                        for e in es {
                            s.apply(c, d, m, e)?;
                            s.changed(c, m, d)?;
                        }
                    }
                }
                WRITE => {
                    if let Fault::Full { times } = fl.fault {
                        c.count("fault: disk full");
                        fl.fault =
                            if times > 1 { Fault::Full { times: times - 1 } } else { Fault::None };
                        // what was written is useless; the client starts over
                        fl.tmp = None;
                        fl.doc = None;
                        fl.model = None;
                        next = LOAD;
                    } else {
                        let text = save(fl.doc.as_ref().unwrap())?;
                        c.note(|| format!("client {id} writes:\n{text}"));
                        c.count("op: save");
                        fl.tmp = Some(text);
                        fl.synced = false;
                    }
                }
                SYNC => fl.synced = true,
                RENAME => {
                    if st.version != fl.loaded {
                        c.count("op: conflicting save retried");
                        c.decide("conflict", 0);
                        fl.retries += 1;
                        if fl.retries > 4 {
                            c.count("op: gave up after conflicts");
                            done = true;
                        }
                        next = LOAD;
                    } else {
                        let text = fl.tmp.take().unwrap();
                        let model = fl.model.take().unwrap();
                        c.state(text.as_bytes());
                        let old = (
                            std::mem::replace(&mut st.text, text),
                            std::mem::replace(&mut st.model, model),
                        );
                        // an older unsynced rename is still the durable state
                        if st.before.is_none() {
                            st.before = Some(old);
                        }
                        st.version += 1;
                    }
                }
                _ => {
                    st.before = None;
                    c.count("op: acknowledged");
                    done = true;
                }
            }
            if !done {
                fl.phase = next;
                heap.insert((t + lat(next), seq), (id, life));
                seq += 1;
            }
        }
        if done {
            let cl = clients.get_mut(&id).unwrap();
            cl.fly = None;
            cl.next += 1;
            if let Some(&n) = cl.queue.get(cl.next) {
                heap.insert((t + 1 + p.ops[n].gap as u64, seq), (id, life));
                seq += 1;
            }
        }
        if seq > 20_000 {
            return violation("harness", "the plan does not end");
        }
    }
    if overlap > 0 {
        c.count("runs with overlapping clients");
        *c.counters.entry("events while another client was in flight").or_insert(0) += overlap;
    }
    // faults have stopped: a cold restart must find every document
    for st in files.iter() {
        c.ev("audit", st.version, 0);
        let doc = load(&st.text)?;
        let m = s.loaded(c, &st.model, &doc, &st.text)?;
        let again = save(&doc)?;
        let doc2 = load(&again)?;
        s.loaded(c, &m, &doc2, &again)?;
        let third = save(&doc2)?;
        if third != again {
            return violation(
                "unstable",
                format!("saving an unchanged document changes it:\n{again}\n---- becomes ----\n{third}"),
            );
        }
        c.state(again.as_bytes());
        s.settle(c, &doc2, &again)?;
    }
    c.nontrivial = p.ops.iter().any(|o| o.fault != Fault::None) || overlap > 0;
    Ok(())
}

/// swarm: which faults a run may see at all
pub struct Mix {
    pub crash: u32,
    pub power: u32,
    pub eio: u32,
    pub full: u32,
    pub clients: usize,
    pub foreign: u32,
    pub ops: usize,
}
pub fn mix(r: &mut Rng) -> Mix {
    let on = |r: &mut Rng, p: u32| if r.pct(50) { p } else { 0 };
    let calm = r.pct(25);
    let k = if calm { 0 } else { 1 };
    Mix {
        crash: on(r, 12) * k,
        power: on(r, 12) * k,
        eio: on(r, 8) * k,
        full: on(r, 8) * k,
        clients: r.range(1, 3),
        foreign: on(r, 20),
        ops: r.range(1, 8),
    }
}
pub fn gen_fault(r: &mut Rng, m: &Mix) -> Fault {
    if r.pct(m.crash) {
        return Fault::Crash { phase: r.range(1, 5) as u8 };
    }
    if r.pct(m.power) {
        // bias: while something is in flight between rename and sync
        let phase = *r.pick(&[CHANGE, WRITE, SYNC, RENAME, DIRSYNC, DIRSYNC]);
        return Fault::Power { phase, renames: r.pct(50) };
    }
    if r.pct(m.eio) {
        return Fault::Eio { times: r.range(1, 3) as u8 };
    }
    if r.pct(m.full) {
        return Fault::Full { times: r.range(1, 2) as u8 };
    }
    Fault::None
}
pub fn gen_plan<E>(
    r: &mut Rng,
    max_files: usize,
    mut tune: impl FnMut(&mut Rng, &mut crate::gen::Knobs),
    mut edit: impl FnMut(&mut Gen, &mut MDoc) -> E,
    max_edits: usize,
) -> WPlan<E> {
    let m = mix(r);
    let nf = r.range(1, max_files);
    let mut k = knobs(r);
    tune(r, &mut k);
    let mut files = Vec::new();
    for _ in 0..nf {
        let mut fk = k.clone();
        crate::gen::scale(r, &mut fk);
        let mut g = Gen::new(r, fk);
        let doc = g.doc();
        let layout = g.layout();
        files.push(FileInit { doc, layout, odd: false });
    }
    // what the files hold if nothing goes wrong, so that edits find their places
    let mut shadow: Vec<MDoc> = files.iter().map(|f| f.doc.clone()).collect();
    let n = m.ops;
    let mut ops = Vec::new();
    for _ in 0..n {
        let client = r.below(m.clients) as u8;
        let file = r.below(nf) as u8;
        let gap = r.below(200) as u32;
        let slow = r.pct(15);
        let lat =
            (0..6).map(|_| if slow { r.range(1, 5000) as u32 } else { r.range(1, 60) as u32 }).collect();
        let fault = gen_fault(r, &m);
        let mut g = Gen::new(r, k.clone());
        let act = if g.r.pct(m.foreign) {
            Act::Foreign(g.layout())
        } else {
            let n = g.r.range(0, max_edits);
            Act::Edit((0..n).map(|_| edit(&mut g, &mut shadow[file as usize])).collect())
        };
        ops.push(WOp { client, file, gap, lat, act, fault });
    }
    WPlan { files, ops }
}
pub fn valid_plan<E>(p: &WPlan<E>) -> bool {
    !p.files.is_empty()
        && p.files.len() <= 8
        && p.ops.len() <= 64
        && p.files.iter().all(|f| text::valid_doc(&f.doc))
        && p.ops.iter().all(|o| o.lat.len() <= 6)
}
