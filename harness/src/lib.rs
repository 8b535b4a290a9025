//! Common engine: replays a TLC state graph against a real system, records traces.
use rand::{rngs::StdRng, SeedableRng};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// One replica of the real system. `step` executes a call of the specification and gives its
/// observable result, in the vocabulary of the specification.
pub trait Sys: Sized + Send + Sync {
    fn step(&mut self, c: &Value) -> Value;
    fn fork(&self) -> Self;
}

pub struct Args {
    pub mode: String,
    pub input: String,
    pub out: String,
    pub seed: u64,
    pub n: usize,
    pub budget: Duration,
    pub opt: HashMap<String, String>,
}

pub fn args() -> Args {
    let mut a = Args {
        mode: String::new(),
        input: String::new(),
        out: String::new(),
        seed: 1,
        n: 100,
        budget: Duration::from_secs(600),
        opt: HashMap::new(),
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    a.mode = v.get(0).cloned().unwrap_or_default();
    for x in v.iter().skip(1) {
        let mut it = x.splitn(2, '=');
        let k = it.next().unwrap();
        let val = it.next().unwrap_or("").to_string();
        match k {
            "in" => a.input = val,
            "out" => a.out = val,
            "seed" => a.seed = val.parse().unwrap(),
            "n" => a.n = val.parse().unwrap(),
            "budget" => a.budget = Duration::from_secs_f64(val.parse().unwrap()),
            _ => {
                a.opt.insert(k.to_string(), val);
            }
        }
    }
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    a
}

pub fn rng(seed: u64) -> StdRng {
    StdRng::seed_from_u64(seed)
}

/// Runs `f`; a panic of the code under test becomes the result "panic".
pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if m.contains("HARNESS") {
                eprintln!("harness error: {}", m);
                std::process::exit(3);
            }
            json!(format!("panic: {}", m))
        }
    }
}

#[macro_export]
macro_rules! harness {
    ($($a:tt)*) => { panic!("HARNESS {}", format!($($a)*)) };
}

struct Edge {
    s: u64,
    c: Value,
    r: Value,
    t: u64,
}

/// Results agree: equal, or the specification allows any of a set {"any":[...]}.
/// "?" allows everything but a crash.
pub fn agree(want: &Value, got: &Value) -> bool {
    if want == "?" {
        return !got.as_str().map_or(false, |s| s.starts_with("panic"));
    }
    if let Some(a) = want.get("any").and_then(|x| x.as_array()) {
        return a.iter().any(|w| w == got);
    }
    want == got
}

/// Replay all edges, breadth first; every edge is executed once from a concrete replica of
/// its source state.
pub fn replay<S: Sys, F: Fn(&Value) -> S + Sync>(a: &Args, init: F) {
    let t0 = Instant::now();
    let f = BufReader::new(File::open(&a.input).expect("HARNESS edges"));
    let mut edges: Vec<Edge> = vec![];
    let mut inits: Vec<(u64, Value)> = vec![];
    for l in f.lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).expect("HARNESS json");
        if v.get("init").is_some() {
            inits.push((v["init"].as_u64().unwrap(), v["v"].clone()));
            continue;
        }
        edges.push(Edge {
            s: v["s"].as_u64().unwrap(),
            c: v["c"].clone(),
            r: v["r"].clone(),
            t: v["t"].as_u64().unwrap(),
        });
    }
    let mut out: HashMap<u64, Vec<usize>> = HashMap::new();
    for (i, e) in edges.iter().enumerate() {
        out.entry(e.s).or_default().push(i);
    }
    let mut states: HashMap<u64, Arc<S>> = HashMap::new();
    let mut parent: HashMap<u64, usize> = HashMap::new();
    let mut level: Vec<u64> = vec![];
    for (s, v) in &inits {
        states.insert(*s, Arc::new(init(v)));
        level.push(*s);
    }
    let mut done = 0usize;
    let mut skipped = 0usize;
    let mut bad: Vec<Value> = vec![];
    let mut nbad = 0usize;
    // so that many mismatches of one sort (known findings) do not hide those of another
    let mut sorts: HashMap<String, usize> = HashMap::new();
    let mut ops: HashMap<String, usize> = HashMap::new();
    let mut depth = 0;
    let mut seen: std::collections::HashSet<u64> = level.iter().cloned().collect();
    let mut realized = inits.len();
    while !level.is_empty() {
        depth += 1;
        let work: Vec<usize> = level
            .iter()
            .flat_map(|s| out.get(s).cloned().unwrap_or_default())
            .collect();
        // edges which realise a new state
        let mut need: HashMap<u64, usize> = HashMap::new();
        for &i in &work {
            if !seen.contains(&edges[i].t) && out.contains_key(&edges[i].t) {
                need.entry(edges[i].t).or_insert(i);
            }
        }
        let res: Vec<(usize, Option<Value>, Option<S>)> = work
            .par_iter()
            .map(|&i| {
                let e = &edges[i];
                let needed = need.get(&e.t) == Some(&i);
                if t0.elapsed() > a.budget && !needed {
                    return (i, None, None);
                }
                let mut st = states[&e.s].fork();
                let mut slot = None;
                let r = guard(|| {
                    let r = st.step(&e.c);
                    slot = Some(st);
                    r
                });
                (i, Some(r), if needed { slot } else { None })
            })
            .collect();
        let mut next = vec![];
        for (i, r, st) in res {
            let e = &edges[i];
            let r = match r {
                None => {
                    skipped += 1;
                    continue;
                }
                Some(r) => r,
            };
            done += 1;
            let key = format!(
                "{}={}",
                e.c.get("op").and_then(|x| x.as_str()).unwrap_or("?"),
                short(&e.r)
            );
            *ops.entry(key).or_insert(0) += 1;
            let ok = agree(&e.r, &r);
            if !ok {
                nbad += 1;
                let got: String = short(&r).chars().take(60).collect();
                let sort = sorts.entry(format!("{} {}", short(&e.c["op"]), got)).or_insert(0);
                *sort += 1;
                if (*sort <= 300 && bad.len() < 400) || *sort <= 20 {
                    let mut path = vec![];
                    let mut s = e.s;
                    while let Some(&p) = parent.get(&s) {
                        path.push(edges[p].c.clone());
                        s = edges[p].s;
                    }
                    path.reverse();
                    bad.push(json!({"path":path,"call":e.c,"expected":e.r,"got":r}));
                }
            }
            if need.get(&e.t) == Some(&i) {
                seen.insert(e.t);
                if ok {
                    if let Some(st) = st {
                        realized += 1;
                        parent.insert(e.t, i);
                        states.insert(e.t, Arc::new(st));
                        next.push(e.t);
                    }
                }
            }
        }
        for s in &level {
            states.remove(s);
        }
        level = next;
    }
    let rep = json!({"edges":edges.len(),"executed":done,"skipped_budget":skipped,"unreached":edges.len()-done-skipped,
        "depth":depth,"states_realized":realized,"mismatches":nbad,"bad":bad,"ops":ops,"wall":t0.elapsed().as_secs_f64()});
    let mut o = File::create(&a.out).expect("HARNESS out");
    o.write_all(serde_json::to_string(&rep).unwrap().as_bytes()).unwrap();
}

pub fn short(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Bool(b) => b.to_string(),
        Value::Object(o) => o
            .get("k")
            .or_else(|| o.get("any"))
            .map(short)
            .unwrap_or_else(|| "obj".into()),
        Value::Array(_) => "seq".into(),
        _ => "val".into(),
    }
}

/// Writes recorded events one per line.
pub struct Recorder {
    f: File,
    pub n: usize,
}
impl Recorder {
    pub fn new(p: &str) -> Self {
        Recorder {
            f: File::create(p).expect("HARNESS trace"),
            n: 0,
        }
    }
    pub fn ev(&mut self, c: Value, r: Value) {
        self.n += 1;
        writeln!(self.f, "{}", json!({"c":c,"r":r})).unwrap();
    }
    /// Executes and records a call.
    pub fn call<S: Sys>(&mut self, s: &mut S, c: Value) -> Value {
        let r = guard(|| s.step(&c));
        self.ev(c, r.clone());
        r
    }
}

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| harness!("int {}", v))
}
pub fn us(v: &Value) -> usize {
    int(v) as usize
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array()
        .unwrap_or_else(|| harness!("ints {}", v))
        .iter()
        .map(int)
        .collect()
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| harness!("str {}", v))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| harness!("arr {}", v))
}

#[cfg(feature = "bpp")]
pub mod bp;
#[cfg(feature = "libursa")]
pub mod clapi;
pub mod codec;
