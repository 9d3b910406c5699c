//! Running batches: workers, containment, replay, evidence.
use crate::core::*;
use crate::props::{all, find, Prop};
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// allocation steps one run may take
pub const STEP_LIMIT: u64 = 60_000_000;
const STACK: usize = 256 << 20;
const WATCHDOG: Duration = Duration::from_secs(90);

pub struct Shard {
    pub prop: String,
    pub seed: u64,
    pub from: u64,
    pub to: u64,
    pub stride: u64,
    pub cap: u64,
    pub out: Option<String>,
}
pub fn run_seed(seed: u64, idx: u64) -> u64 {
    mix(mix(0x59414D4C, seed), idx)
}
/// Run `f` on a thread of its own: fresh hash keys, a known stack, a budget.
pub fn contained<T: Send>(hseed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    crate::alloc::set_hash_seed(hseed);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                crate::alloc::limit(STEP_LIMIT);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                crate::alloc::limit(u64::MAX);
                r.map_err(|_| last_panic())
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err("thread died".into()))
    })
}
fn settle<T>(r: Result<Res<T>, String>) -> Res<T> {
    match r {
        Ok(r) => r,
        // a panic inside the library is caught at the call; this one is ours
        Err(e) if e.contains("/repo/src") || e.contains("pest") => violation("panic", e),
        Err(e) => violation("harness", format!("harness panicked: {e}")),
    }
}
pub fn go(p: &Prop, seed: u64, idx: u64, trace: bool) -> (Res, Ctx) {
    let rs = run_seed(seed, idx);
    let mut c = Ctx::new(trace);
    c.hseed = rs;
    let r = contained(rs, || (p.go)(&mut Rng::new(rs), &mut c));
    (settle(r), c)
}
pub fn go_plan(p: &Prop, hseed: u64, plan: &Value, trace: bool) -> (Res, Ctx) {
    let mut c = Ctx::new(trace);
    c.hseed = hseed;
    let r = contained(hseed, || (p.exec)(plan, &mut c));
    (settle(r), c)
}

pub fn worker(s: &Shard) -> i32 {
    let Some(p) = find(&s.prop) else { return 2 };
    let start = Instant::now();
    let mut runs = 0u64;
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sched: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut sim_us = 0u64;
    let mut loghash = 0u64;
    let progress = s.out.as_ref().map(|o| std::fs::File::create(format!("{o}.at")).unwrap());
    let mut i = s.from;
    let mut capped = false;
    while i < s.to {
        if runs % 64 == 0 && start.elapsed().as_secs() >= s.cap {
            capped = true;
            break;
        }
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&(i + 1).to_le_bytes(), 0);
        }
        let (r, c) = go(&p, s.seed, i, false);
        runs += 1;
        if let Err(v) = r {
            println!("{}", json!({"violation": {"idx": i, "class": v.class, "detail": v.detail}}));
            return 1;
        }
        for (k, v) in &c.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        sim_us += c.now;
        loghash = loghash.wrapping_add(mix(i, c.h));
        sched.insert(c.sched);
        states.extend(c.states);
        if c.nontrivial {
            nontrivial.insert(c.h);
        }
        i += s.stride;
    }
    if let Some(o) = &s.out {
        for (name, set) in [("sched", &sched), ("states", &states), ("nontrivial", &nontrivial)] {
            let mut b = Vec::with_capacity(set.len() * 8);
            for x in set.iter() {
                b.extend_from_slice(&x.to_le_bytes());
            }
            std::fs::write(format!("{o}.{name}"), b).unwrap();
        }
    }
    println!(
        "{}",
        json!({"runs": runs, "counters": counters, "sim_us": sim_us, "loghash": loghash,
               "capped": capped, "next": i})
    );
    0
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("exe")
}
#[derive(Debug)]
enum End {
    Done(Value),
    Bad { idx: u64, class: String, detail: String },
    Error(String),
}
struct Run {
    child: std::process::Child,
    out: String,
    last: (u64, Instant),
    shard: (u64, u64),
}
fn spawn(prop: &str, seed: u64, from: u64, to: u64, stride: u64, cap: u64, out: &str) -> Run {
    let _ = std::fs::remove_file(format!("{out}.at"));
    let child = Command::new(me())
        .args([
            "worker", "--prop", prop, "--seed", &seed.to_string(), "--from", &from.to_string(),
            "--to", &to.to_string(), "--stride", &stride.to_string(), "--cap", &cap.to_string(),
            "--out", out,
        ])
        .env("RUST_BACKTRACE", "0")
        .stdout(std::fs::File::create(format!("{out}.stdout")).unwrap())
        .stderr(std::fs::File::create(format!("{out}.stderr")).unwrap())
        .spawn()
        .expect("spawn worker");
    Run { child, out: out.to_string(), last: (0, Instant::now()), shard: (from, stride) }
}
fn at(out: &str) -> u64 {
    std::fs::read(format!("{out}.at"))
        .ok()
        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
        .unwrap_or(0)
}
/// poll a worker; None while it runs
fn poll(r: &mut Run) -> Option<End> {
    let now = at(&r.out);
    if now != r.last.0 {
        r.last = (now, Instant::now());
    }
    let hung = r.last.1.elapsed() > WATCHDOG;
    match r.child.try_wait() {
        Ok(None) if !hung => None,
        Ok(None) => {
            let _ = r.child.kill();
            let _ = r.child.wait();
            Some(End::Bad {
                idx: now.saturating_sub(1),
                class: "hang".into(),
                detail: format!("no progress for {}s", WATCHDOG.as_secs()),
            })
        }
        Ok(Some(st)) => {
            let so = std::fs::read_to_string(format!("{}.stdout", r.out)).unwrap_or_default();
            let se = std::fs::read_to_string(format!("{}.stderr", r.out)).unwrap_or_default();
            let last = so.lines().last().and_then(|l| crate::core::from_json::<Value>(l).ok());
            match last {
                Some(v) if v.get("violation").is_some() => {
                    let v = &v["violation"];
                    Some(End::Bad {
                        idx: v["idx"].as_u64().unwrap(),
                        class: v["class"].as_str().unwrap().into(),
                        detail: v["detail"].as_str().unwrap().into(),
                    })
                }
                Some(v) if st.success() => Some(End::Done(v)),
                _ if now > 0 => Some(End::Bad {
                    idx: now - 1,
                    class: if st.code() == Some(97) { "budget".into() } else { "crash".into() },
                    detail: format!("the process ended with {st}: {}", se.trim()),
                }),
                _ => Some(End::Error(format!("worker ended with {st}: {se}"))),
            }
        }
        Err(e) => Some(End::Error(e.to_string())),
    }
}
fn read_set(out: &str, name: &str, set: &mut HashSet<u64>) {
    if let Ok(b) = std::fs::read(format!("{out}.{name}")) {
        for c in b.chunks_exact(8) {
            set.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

/// run a replay file in a fresh process; Some((class, detail)) when it fails
fn exec_child(file: &str) -> Result<Option<(String, String)>, String> {
    let mut child = Command::new(me())
        .args(["exec", file])
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let b = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut se, &mut s);
        s
    });
    let start = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if start.elapsed() > WATCHDOG => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let (so, se) = (a.join().unwrap_or_default(), b.join().unwrap_or_default());
    let Some(st) = st else {
        return Ok(Some(("hang".into(), format!("no end within {}s", WATCHDOG.as_secs()))));
    };
    let last = so.lines().last().and_then(|l| crate::core::from_json::<Value>(l).ok());
    match (st.code(), last) {
        (Some(0), _) => Ok(None),
        (Some(1), Some(v)) => Ok(Some((
            v["class"].as_str().unwrap_or("?").into(),
            v["detail"].as_str().unwrap_or("?").into(),
        ))),
        (Some(2), _) => Err(se),
        (Some(97), _) => Ok(Some(("budget".into(), se))),
        _ => Ok(Some(("crash".into(), format!("{st}: {se}")))),
    }
}
pub fn exec_child_class(file: &str) -> Option<String> {
    exec_child(file).ok().flatten().map(|x| x.0)
}

/// Execute a replay file. Pure function of the file and the code.
pub fn exec_file(path: &str, human: bool) -> i32 {
    let Some(v) = std::fs::read_to_string(path).ok().and_then(|s| crate::core::from_json::<Value>(&s).ok())
    else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(p) = find(v["property"].as_str().unwrap_or("")) else {
        eprintln!("unknown property");
        return 2;
    };
    if human {
        // the run itself happens in a process of its own: it may die
        return match exec_child(path) {
            Ok(None) => {
                println!("holds: {path}");
                0
            }
            Ok(Some((class, detail))) => {
                if !["crash", "hang", "budget"].contains(&class.as_str()) {
                    let (_, c) = go_plan(&p, v["hseed"].as_u64().unwrap_or(0), &v["plan"], true);
                    for l in c.log {
                        println!("{l}");
                    }
                }
                println!("{class}: {detail}");
                println!("VIOLATION property={} replay={path}", p.id);
                1
            }
            Err(e) => {
                eprintln!("{e}");
                2
            }
        };
    }
    // runs that came before, for failures that need what they left behind
    if let Some(w) = v["warmup"].as_array() {
        let seed = v["seed"].as_u64().unwrap_or(1);
        for i in w.iter().filter_map(|x| x.as_u64()) {
            let _ = go(&p, seed, i, false);
        }
    }
    let (r, _) = go_plan(&p, v["hseed"].as_u64().unwrap_or(0), &v["plan"], false);
    match r {
        Ok(()) => 0,
        Err(x) if x.class == "harness" => {
            eprintln!("{}", x.detail);
            2
        }
        Err(x) => {
            println!("{}", json!({"class": x.class, "detail": x.detail}));
            1
        }
    }
}
pub fn print_plan(prop: &str, seed: u64, idx: u64) -> i32 {
    let Some(p) = find(prop) else { return 2 };
    let rs = run_seed(seed, idx);
    println!(
        "{}",
        json!({"property": prop, "seed": seed, "idx": idx, "hseed": rs, "plan": (p.gen)(&mut Rng::new(rs))})
    );
    0
}

fn report(p: &Prop, verif: &str, seed: u64, idx: u64, class: &str, detail: &str, shard: (u64, u64)) -> String {
    let dir = format!("{verif}/evidence/replays");
    let _ = std::fs::create_dir_all(&dir);
    let rs = run_seed(seed, idx);
    let raw = format!("{dir}/{}-{seed}-{idx}.full.json", p.id);
    let small = format!("{dir}/{}-{seed}-{idx}.json", p.id);
    let plan = (p.gen)(&mut Rng::new(rs));
    let mut file = json!({
        "property": p.id, "seed": seed, "idx": idx, "hseed": rs, "class": class,
        "detail": detail, "plan": plan,
    });
    std::fs::write(&raw, serde_json::to_string(&file).unwrap()).unwrap();
    let reproduced = exec_child(&raw).ok().flatten();
    match reproduced {
        Some((c, _)) => {
            file["class"] = json!(c);
            std::fs::write(&raw, serde_json::to_string(&file).unwrap()).unwrap();
            let _ = std::fs::remove_file(&small);
            let _ = Command::new(me())
                .args(["shrink", &raw, &small, "--cap", "60"])
                .env("RUST_BACKTRACE", "0")
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status();
            match exec_child(&small) {
                Ok(Some((c2, d2))) if c2 == c => {
                    if let Some(mut v) = std::fs::read_to_string(&small)
                        .ok()
                        .and_then(|s| crate::core::from_json::<Value>(&s).ok())
                    {
                        v["detail"] = json!(d2);
                        let _ = std::fs::write(&small, serde_json::to_string_pretty(&v).unwrap());
                    }
                    println!("{c2}: {d2}");
                    small
                }
                _ => {
                    println!("{class}: {detail}");
                    raw
                }
            }
        }
        None => {
            // needs what earlier runs of the same process left behind
            let before: Vec<u64> =
                (0..).map(|k| shard.0 + k * shard.1).take_while(|x| *x < idx).collect();
            let mut found = raw.clone();
            let mut take = 1usize;
            loop {
                let take2 = take.min(before.len());
                file["warmup"] = json!(before[before.len() - take2..]);
                std::fs::write(&raw, serde_json::to_string(&file).unwrap()).unwrap();
                if let Ok(Some(_)) = exec_child(&raw) {
                    found = raw.clone();
                    let mut keep = before[before.len() - take2..].to_vec();
                    let start = std::time::Instant::now();
                    let mut piece = keep.len().div_ceil(2);
                    while keep.len() > 1 && piece > 0 && start.elapsed().as_secs() < 60 {
                        let mut i = 0;
                        while i < keep.len() && keep.len() > 1 && start.elapsed().as_secs() < 60 {
                            let mut less = keep.clone();
                            less.drain(i..(i + piece).min(less.len()));
                            file["warmup"] = json!(less);
                            std::fs::write(&raw, serde_json::to_string(&file).unwrap()).unwrap();
                            match exec_child(&raw) {
                                Ok(Some(_)) => keep = less,
                                _ => i += piece,
                            }
                        }
                        piece = if piece == 1 { 0 } else { piece.div_ceil(2) };
                    }
                    file["warmup"] = json!(keep);
                    std::fs::write(&raw, serde_json::to_string(&file).unwrap()).unwrap();
                    println!("(the failure needs what {} earlier run(s) left behind)", keep.len());
                    break;
                }
                if take2 == before.len() {
                    println!("(the failure did not reproduce in a fresh process)");
                    break;
                }
                take = take.saturating_mul(8);
            }
            println!("{class}: {detail}");
            found
        }
    }
}

/// Known findings of this property: each is a committed replay file that fails.
fn known_findings(p: &Prop, verif: &str) -> u64 {
    let mut n = 0;
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known-findings.jsonl")) else { return 0 };
    for l in s.lines() {
        let Ok(v) = crate::core::from_json::<Value>(l) else { continue };
        if v["property"] != json!(p.id) || v["status"] != json!("known") {
            continue;
        }
        let file = format!("{verif}/{}", v["replay"].as_str().unwrap_or(""));
        match exec_child(&file) {
            Ok(Some((c, _))) if json!(c) == v["class"] => {
                println!("KNOWN-FINDING: property={} {}", p.id, v["what"].as_str().unwrap_or(""));
                n += 1;
            }
            other => println!("note: listed finding no longer fails as listed: {file} {other:?}"),
        }
    }
    n
}

pub fn check(prop: &str, seed: u64, tier: &str, runs: Option<u64>, workers: u64, verif: &str) -> i32 {
    let Some(p) = find(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let thorough = tier == "thorough";
    let runs = runs.unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 7200 } else { 240 };
    let start = Instant::now();
    let tmp = format!("{verif}/evidence/tmp-{}-{}", p.id, std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let known = known_findings(&p, verif);
    let mut rs: Vec<Run> = (0..workers)
        .map(|w| spawn(p.id, seed, w, runs, workers, cap, &format!("{tmp}/w{w}")))
        .collect();
    // the same runs again, split differently: the event logs must agree
    let probe = (runs / 50).clamp(40, 1500);
    let mut probes: Vec<Run> = vec![
        spawn(p.id, seed, 0, probe, 1, cap, &format!("{tmp}/p0")),
        spawn(p.id, seed, 0, probe, 2, cap, &format!("{tmp}/p1")),
        spawn(p.id, seed, 1, probe, 2, cap, &format!("{tmp}/p2")),
    ];
    let mut ends: Vec<Option<End>> = rs.iter().map(|_| None).collect();
    let mut pends: Vec<Option<End>> = probes.iter().map(|_| None).collect();
    let mut bad: Option<(u64, String, String, (u64, u64))> = None;
    let mut err: Option<String> = None;
    while bad.is_none() && err.is_none() && (ends.iter().any(|e| e.is_none()) || pends.iter().any(|e| e.is_none())) {
        for (set, out) in [(&mut rs, &mut ends), (&mut probes, &mut pends)] {
            for (r, e) in set.iter_mut().zip(out.iter_mut()) {
                if e.is_none() {
                    if let Some(x) = poll(r) {
                        match &x {
                            End::Bad { class, detail, .. } if class == "harness" => {
                                err = Some(detail.clone())
                            }
                            End::Bad { idx, class, detail } => {
                                bad = Some((*idx, class.clone(), detail.clone(), r.shard))
                            }
                            End::Error(m) => err = Some(m.clone()),
                            End::Done(_) => {}
                        }
                        *e = Some(x);
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for r in rs.iter_mut().chain(probes.iter_mut()) {
        let _ = r.child.kill();
        let _ = r.child.wait();
    }
    let mut done = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sim_us = 0u64;
    let mut capped = false;
    for e in ends.iter().flatten() {
        if let End::Done(v) = e {
            done += v["runs"].as_u64().unwrap_or(0);
            sim_us += v["sim_us"].as_u64().unwrap_or(0);
            capped |= v["capped"].as_bool().unwrap_or(false);
            for (k, n) in v["counters"].as_object().unwrap() {
                *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
    }
    let (mut sched, mut states, mut nontrivial) = (HashSet::new(), HashSet::new(), HashSet::new());
    for r in &rs {
        read_set(&r.out, "sched", &mut sched);
        read_set(&r.out, "states", &mut states);
        read_set(&r.out, "nontrivial", &mut nontrivial);
    }
    let hash = |i: usize| match &pends[i] {
        Some(End::Done(v)) => v["loghash"].as_u64(),
        _ => None,
    };
    let deterministic = match (hash(0), hash(1), hash(2)) {
        (Some(a), Some(b), Some(c)) => Some(a == b.wrapping_add(c)),
        _ => None,
    };
    let _ = std::fs::remove_dir_all(&tmp);
    if let Some(e) = err {
        eprintln!("error of the check: {e}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((idx, class, detail, shard)) = bad {
        println!("violation in run {idx} of seed {seed} ({class}), minimising");
        let path = report(&p, verif, seed, idx, &class, &detail, shard);
        println!("VIOLATION property={} replay={}", p.id, path);
        violations = 1;
        code = 1;
    } else if deterministic == Some(false) {
        // something outlives a run: what the property speaks about was judged in
        // every run all the same, and C09 compares with fresh processes
        println!("note: the same runs, split differently among processes, gave another event log");
    }
    // samples: the first runs, written out
    let mut samples = Vec::new();
    for idx in 0..2 {
        let rs = run_seed(seed, idx);
        let plan = serde_json::to_string(&(p.gen)(&mut Rng::new(rs))).unwrap();
        let plan: String = plan.chars().take(1500).collect();
        let log: Vec<String> = if code == 0 {
            go(&p, seed, idx, true).1.log.into_iter().take(25).map(|l| l.chars().take(300).collect()).collect()
        } else {
            vec![]
        };
        samples.push(json!({"idx": idx, "seed": rs, "plan": plan, "event_log": log}));
    }
    let wall = start.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.starts_with("fault")).collect();
    let probes: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault")).collect();
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": done,
            "runs_per_hour": (done as f64 / wall * 3600.0) as u64,
            "simulated_seconds": sim_us / 1_000_000,
            "faults_injected": faults,
            "probes": probes,
            "distinct_schedules": sched.len(),
            "distinct_states": states.len(),
            "state_measure": "FNV-1a of the stored text / observed result after each commit",
            "schedule_measure": "FNV-1a over the sequence of (phase, client), conflicts and faults of a run",
            "determinism_probe": {"runs": probe, "worker_splits": [1, 2], "event_logs_equal": deterministic},
            "stopped_by_time_cap": capped,
            "known_findings_replayed": known,
            "real_code": p.real,
            "stubs": p.stub,
        },
        "assumptions": p.assumptions,
        "violations": violations,
        "wall_s": wall,
    });
    std::fs::write(format!("{verif}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!("{} held: {done} runs, {} distinct non-trivial, {:.1}s", p.id, nontrivial.len(), wall);
    }
    let _ = std::io::stdout().flush();
    code
}

/// Every simulation, many seeds, each batch at several worker splits in fresh
/// processes; the event logs must agree run by run (they are summed by index).
pub fn selftest(runs: u64, seeds: u64) -> i32 {
    let tmp = format!("{}/yamlsim-selftest-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let mut code = 0;
    for p in all() {
        for seed in 1..=seeds {
            let mut sums = Vec::new();
            for split in [1u64, 1, 3, 8] {
                let mut rs: Vec<Run> = (0..split)
                    .map(|w| spawn(p.id, seed, w, runs, split, 600, &format!("{tmp}/s{w}")))
                    .collect();
                let mut sum = 0u64;
                for r in rs.iter_mut() {
                    let e = loop {
                        if let Some(e) = poll(r) {
                            break e;
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    };
                    match e {
                        End::Done(v) => sum = sum.wrapping_add(v["loghash"].as_u64().unwrap()),
                        other => {
                            println!("{} seed {seed}: {other:?}", p.id);
                            code = 1;
                        }
                    }
                }
                sums.push(sum);
            }
            let same = sums.iter().all(|x| *x == sums[0]);
            if !same {
                code = 1;
            }
            println!("{} seed {seed}: {} event logs {:x?}", p.id, if same { "equal" } else { "DIFFERENT" }, sums);
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let _ = std::io::stdin().lock().lines();
    code
}
