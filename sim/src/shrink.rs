//! Minimising: generic over the plan's JSON. A candidate counts when it is
//! still a valid plan and fails with the same class.
use crate::parent::{exec_child_class, go_plan};
use crate::props::{find, Prop};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

struct S<'a> {
    p: &'a Prop,
    hseed: u64,
    class: String,
    child: bool,
    out: String,
    env: Value,
    deadline: Instant,
    tried: u64,
}
impl<'a> S<'a> {
    fn fails(&mut self, plan: &Value) -> bool {
        if !(self.p.valid)(plan) {
            return false;
        }
        self.tried += 1;
        if self.child {
            let f = format!("{}.cand", self.out);
            let mut e = self.env.clone();
            e["plan"] = plan.clone();
            std::fs::write(&f, e.to_string()).unwrap();
            let c = exec_child_class(&f);
            let _ = std::fs::remove_file(&f);
            return c.as_deref() == Some(&self.class);
        }
        matches!(go_plan(self.p, self.hseed, plan, false).0, Err(v) if v.class == self.class)
    }
    fn keep(&self, plan: &Value) {
        let mut e = self.env.clone();
        e["plan"] = plan.clone();
        let _ = std::fs::write(&self.out, serde_json::to_string(&e).unwrap());
    }
    fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
}
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn get<'v>(v: &'v Value, p: &[String]) -> Option<&'v Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(k)?,
            _ => return None,
        };
    }
    Some(v)
}
fn set(v: &mut Value, p: &[String], x: Value) -> bool {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => match k.parse::<usize>().ok().and_then(|i| a.get_mut(i)) {
                Some(x) => x,
                None => return false,
            },
            Value::Object(o) => match o.get_mut(k) {
                Some(x) => x,
                None => return false,
            },
            _ => return false,
        };
    }
    *v = x;
    true
}
/// simpler values to try in place of `v`
fn simpler(v: &Value, all: &mut Vec<Value>) {
    match v {
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                for x in [0, 1, n / 2, n.saturating_sub(1)] {
                    if x < n {
                        all.push(json!(x))
                    }
                }
            } else if let Some(n) = n.as_i64() {
                all.push(json!(0));
                all.push(json!(n / 2));
            }
        }
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            all.push(json!(""));
            all.push(json!("a"));
            all.push(json!("None"));
            if c.len() > 1 {
                all.push(json!(c[..c.len() / 2].iter().collect::<String>()));
                all.push(json!(c[c.len() / 2..].iter().collect::<String>()));
                if c.len() <= 40 {
                    for i in 0..c.len() {
                        let mut d = c.clone();
                        d.remove(i);
                        all.push(json!(d.into_iter().collect::<String>()));
                    }
                }
            }
        }
        Value::Bool(true) => all.push(json!(false)),
        Value::Object(o) => {
            all.push(json!("None"));
            all.push(json!({"Sc": {"Plain": "a"}}));
            // replace a node by one of its descendants of the same shape
            for (_, x) in o {
                descend(x, all, 3);
            }
        }
        Value::Array(_) => all.push(json!([])),
        _ => {}
    }
    if !v.is_null() {
        all.push(Value::Null);
    }
}
fn descend(v: &Value, all: &mut Vec<Value>, depth: usize) {
    if depth == 0 || all.len() > 40 {
        return;
    }
    match v {
        Value::Object(o) => {
            all.push(v.clone());
            for (_, x) in o {
                descend(x, all, depth - 1)
            }
        }
        Value::Array(a) => {
            for x in a.iter().take(8) {
                descend(x, all, depth)
            }
        }
        _ => {}
    }
}
fn weight(v: &Value) -> usize {
    match v {
        Value::Array(a) => 2 + a.iter().map(weight).sum::<usize>(),
        Value::Object(o) => 2 + o.values().map(weight).sum::<usize>(),
        Value::String(s) => 2 + s.len(),
        Value::Number(n) => 1 + n.to_string().len(),
        Value::Bool(b) => 1 + *b as usize,
        Value::Null => 1,
    }
}
pub fn main(input: &str, out: &str, cap: u64) -> i32 {
    let env: Value = crate::core::from_json(&std::fs::read_to_string(input).unwrap()).unwrap();
    let p = find(env["property"].as_str().unwrap()).unwrap();
    let class = env["class"].as_str().unwrap().to_string();
    let child = ["crash", "hang", "budget"].contains(&class.as_str()) || p.id == "C09";
    let mut best = env["plan"].clone();
    let mut s = S {
        p: &p,
        hseed: env["hseed"].as_u64().unwrap_or(0),
        class,
        child,
        out: out.to_string(),
        env: env.clone(),
        deadline: Instant::now() + Duration::from_secs(cap),
        tried: 0,
    };
    s.keep(&best);
    loop {
        let w0 = weight(&best);
        // 1. drop chunks of arrays, big ones first
        let mut ps = Vec::new();
        paths(&best, &mut vec![], &mut ps);
        for path in &ps {
            let Some(Value::Array(a)) = get(&best, path).cloned() else { continue };
            let mut a = a;
            let mut chunk = a.len();
            while chunk > 0 && !s.late() {
                let mut i = 0;
                while i < a.len() && !s.late() {
                    let mut b = a.clone();
                    b.drain(i..(i + chunk).min(a.len()));
                    let mut cand = best.clone();
                    set(&mut cand, path, Value::Array(b.clone()));
                    if s.fails(&cand) {
                        best = cand;
                        s.keep(&best);
                        a = b;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // 2. simplify values
        let mut ps = Vec::new();
        paths(&best, &mut vec![], &mut ps);
        for path in &ps {
            if s.late() {
                break;
            }
            let Some(v) = get(&best, path).cloned() else { continue };
            let mut opts = Vec::new();
            simpler(&v, &mut opts);
            let w = weight(&v);
            for o in opts {
                if weight(&o) > w || o == v {
                    continue;
                }
                if weight(&o) == w && !o.is_number() {
                    continue;
                }
                let mut cand = best.clone();
                if set(&mut cand, path, o) && s.fails(&cand) {
                    best = cand;
                    s.keep(&best);
                    break;
                }
            }
        }
        if s.late() || weight(&best) >= w0 {
            break;
        }
    }
    0
}
