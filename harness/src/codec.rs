//! C29: written, possibly damaged on the way, and read.
use crate::*;
use serde::{de::DeserializeOwned, Serialize};

type Dec = Box<dyn Fn(&[u8]) -> Result<Vec<u8>, ()> + Send + Sync>;
/// One kind of object in one form: two different objects of it, and how to read one (giving what it is written as again).
pub struct Form {
    enc: [Vec<u8>; 2],
    dec: Dec,
    json: bool,
}
#[derive(Default)]
pub struct Kinds(pub HashMap<(String, String), Form>);

/// the order of a set in its JSON means nothing
fn canon(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(canon),
        Value::Object(o) => o.iter_mut().for_each(|(k, x)| {
            canon(x);
            if k == "issued" || k == "revoked" {
                x.as_array_mut().unwrap().sort_by_key(|x| x.as_u64());
            }
        }),
        _ => (),
    }
}
fn jbytes<T: Serialize>(x: &T) -> Vec<u8> {
    let mut v = serde_json::to_value(x).unwrap_or_else(|e| panic!("cannot be written: {}", e));
    canon(&mut v);
    v.to_string().into_bytes()
}
impl Kinds {
    pub fn json<T: Serialize + DeserializeOwned>(&mut self, name: &str, a: &T, b: &T) {
        let enc = [serde_json::to_vec(a).unwrap_or_else(|e| panic!("{} cannot be written: {}", name, e)), serde_json::to_vec(b).unwrap()];
        let dec: Dec = Box::new(|x| serde_json::from_slice::<T>(x).map(|y| jbytes(&y)).map_err(|_| ()));
        self.0.insert((name.into(), "json".into()), Form { enc, dec, json: true });
    }
    pub fn bytes<T, E>(&mut self, name: &str, form: &str, a: &T, b: &T, to: impl Fn(&T) -> Vec<u8> + Send + Sync + 'static, from: impl Fn(&[u8]) -> Result<T, E> + Send + Sync + 'static) {
        let enc = [to(a), to(b)];
        let dec: Dec = Box::new(move |x| from(x).map(|y| to(&y)).map_err(|_| ()));
        self.0.insert((name.into(), form.into()), Form { enc, dec, json: false });
    }
    fn get(&self, c: &Value) -> &Form {
        self.0.get(&(st(&c["k"]).to_string(), st(&c["f"]).to_string())).unwrap_or_else(|| harness!("no kind {}", c))
    }
}
impl Form {
    fn canon(&self, n: usize) -> Vec<u8> {
        if self.json {
            let mut v: Value = serde_json::from_slice(&self.enc[n]).unwrap();
            canon(&mut v);
            v.to_string().into_bytes()
        } else {
            self.enc[n].clone()
        }
    }
    /// which object is read
    fn read(&self, x: &[u8]) -> String {
        match (self.dec)(x) {
            Err(()) => "err".into(),
            Ok(y) => (0..2).find(|n| self.canon(*n) == y).map(|n| (n + 1).to_string()).unwrap_or("other".into()),
        }
    }
    /// the outcomes for all variants of a damage to object n: "err", "other", "err,other", or the offending one
    fn all(&self, n: usize, variants: impl Iterator<Item = (String, Vec<u8>)>) -> String {
        let (mut e, mut o) = (false, false);
        for (what, x) in variants {
            if x == self.enc[n] {
                continue;
            }
            match guard(|| json!(self.read(&x))).as_str().unwrap_or("?") {
                "err" => e = true,
                "other" => o = true,
                r if r == (2 - n).to_string() => o = true,
                r => return format!("{} at {}", r, what),
            }
        }
        match (e, o) {
            (true, true) => "err,other",
            (true, false) => "err",
            (false, true) => "other",
            _ => "none",
        }
        .into()
    }
    pub fn damage(&self, n: usize, d: &str, i: usize, of: usize) -> String {
        let x = &self.enc[n];
        let mine = |j: usize| j % of == i;
        // of very many, every so many
        let step = (x.len() / of / 300).max(1);
        match d {
            "cut" => self.all(n, (0..x.len()).filter(|j| mine(*j)).skip(i % step).step_by(step).map(|j| (j.to_string(), x[..j].to_vec()))),
            "junk" => self.all(n, (0..of).map(|j| {
                let mut y = x.clone();
                if self.json {
                    y.extend_from_slice(["x", "}", "\"", "0", ",", "null"][(j + i) % 6].as_bytes());
                } else {
                    y.extend(std::iter::repeat((i * 85) as u8).take(1 + j));
                }
                (j.to_string(), y)
            })),
            "flip" => self.all(n, (0..x.len()).filter(|j| mine(*j)).skip(i % step).step_by(step).flat_map(|j| {
                [1u8, 0x80].iter().map(move |m| (j, *m)).collect::<Vec<_>>()
            }).map(|(j, m)| {
                let mut y = x.clone();
                y[j] ^= m;
                (format!("{}^{}", j, m), y)
            })),
            "space" => {
                let mut y = vec![b' ', b'\n'];
                y.extend_from_slice(x);
                y.extend_from_slice(b" \n");
                self.read(&y)
            }
            "order" => {
                // the members of each object the other way round
                self.read(reversed(&serde_json::from_slice(x).unwrap()).as_bytes())
            }
            "digit" | "gone" | "null" | "type" | "elem" => {
                let v: Value = serde_json::from_slice(x).unwrap();
                let es: Vec<_> = edits(&v, d).into_iter().enumerate().filter(|(j, _)| mine(*j)).map(|x| x.1).collect();
                // of very many, every so many
                let step = (es.len() / 150).max(1);
                self.all(n, es.into_iter().skip(i % step).step_by(step).map(|(w, p, f)| {
                    let mut y = v.clone();
                    f(y.pointer_mut(&p).unwrap());
                    (w, y.to_string().into_bytes())
                }))
            }
            _ => harness!("damage {}", d),
        }
    }
}
fn reversed(v: &Value) -> String {
    match v {
        Value::Object(o) => {
            let m: Vec<String> = o.iter().map(|(k, x)| format!("{}:{}", json!(k), reversed(x))).collect();
            format!("{{{}}}", m.into_iter().rev().collect::<Vec<_>>().join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(reversed).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}
/// pointers to everything inside
fn paths(v: &Value, p: String, out: &mut Vec<String>) {
    out.push(p.clone());
    match v {
        Value::Object(o) => o.iter().for_each(|(k, x)| paths(x, format!("{}/{}", p, k), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| paths(x, format!("{}/{}", p, i), out)),
        _ => (),
    }
}
type Edit = (String, String, Box<dyn Fn(&mut Value)>);
fn edits(v: &Value, d: &str) -> Vec<Edit> {
    let mut ps = vec![];
    paths(v, String::new(), &mut ps);
    let mut out = vec![];
    for p in ps {
        let x = v.pointer(&p).unwrap();
        let q = p.clone();
        let mut put = |w: String, f: Box<dyn Fn(&mut Value)>| out.push((w, q.clone(), f));
        match (d, x) {
            (_, Value::Null) => (),
            ("null", _) => put(p.clone(), Box::new(|y| *y = Value::Null)),
            ("type", _) => {
                put(p.clone() + ":{}", Box::new(|y| *y = json!({"a": 1, "b": {}})));
                put(p.clone() + ":[]", Box::new(|y| *y = json!([{}, {}, {}, {}, {}, {}, {}])));
                put(p.clone() + ":1.5", Box::new(|y| *y = json!(1.5)));
            }
            ("gone", Value::Object(o)) => {
                for (k, z) in o {
                    if !z.is_null() {
                        let k = k.clone();
                        put(format!("{}/{}", p, k), Box::new(move |y| {
                            y.as_object_mut().unwrap().remove(&k);
                        }));
                    }
                }
            }
            ("elem", Value::Array(a)) if !a.is_empty() => {
                put(p.clone() + " less", Box::new(|y| {
                    y.as_array_mut().unwrap().pop();
                }));
                put(p.clone() + " first", Box::new(|y| {
                    y.as_array_mut().unwrap().remove(0);
                }));
            }
            ("digit", Value::Number(z)) => {
                if let Some(z) = z.as_u64() {
                    put(p.clone(), Box::new(move |y| *y = json!(z + 1)));
                }
            }
            ("digit", Value::String(t)) => {
                let mut at = 0;
                for w in t.split(' ') {
                    // (the short words are no values)
                    if w.len() > 8 || !t.contains(' ') {
                        for i in 0..w.len() {
                            let c = w.as_bytes()[i];
                            let e = match c {
                                b'9' => b'0',
                                b'0'..=b'8' | b'a'..=b'e' | b'A'..=b'E' => c + 1,
                                b'f' => b'a',
                                b'F' => b'A',
                                b'g'..=b'y' | b'G'..=b'Y' => c + 1,
                                _ => continue,
                            };
                            let at = at + i;
                            put(format!("{}:{}", p, at), Box::new(move |z| {
                                let mut y = st(z).to_string().into_bytes();
                                y[at] = e;
                                *z = json!(String::from_utf8(y).unwrap());
                            }));
                        }
                    }
                    at += w.len() + 1;
                }
            }
            _ => (),
        }
    }
    out
}

/// The reader's side.
#[derive(Clone)]
pub struct Codec {
    pub k: &'static Kinds,
    held: Vec<u8>,
}
impl Codec {
    pub fn new(k: &'static Kinds) -> Codec {
        Codec { k, held: vec![] }
    }
}
impl Sys for Codec {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let f = self.k.get(c);
        match st(&c["op"]) {
            // object n is sent
            "send" => {
                let n = us(&c["n"]) - 1;
                if let Ok(y) = (f.dec)(&f.enc[n]) {
                    self.held = y
                }
                json!(f.read(&f.enc[n]))
            }
            // what was read is written and read once more
            "again" => {
                let x = self.held.clone();
                if let Ok(y) = (f.dec)(&x) {
                    self.held = y
                }
                json!(f.read(&x))
            }
            "damage" => json!(f.damage(us(&c["n"]) - 1, st(&c["d"]), us(&c["i"]), us(&c["of"]))),
            // the encoding of another kind of thing
            "foreign" => {
                let x = &self.k.0.get(&(st(&c["k2"]).to_string(), st(&c["f2"]).to_string())).unwrap_or_else(|| harness!("no kind {}", c)).enc[us(&c["n"]) - 1];
                let r = f.read(x);
                json!(if r == "1" || r == "2" { "mine" } else { "not" })
            }
            x => harness!("op {}", x),
        }
    }
}
/// without the short words in strings, which are no values, and zeros in front
fn bare(v: Value) -> Value {
    match v {
        Value::Object(o) => o.into_iter().map(|(k, x)| (k, bare(x))).collect(),
        Value::Array(a) => a.into_iter().map(bare).collect(),
        Value::String(s) if s.contains(' ') => json!(s.split(' ').filter(|w| w.len() > 3).map(|w| w.trim_start_matches('0')).collect::<Vec<_>>().join(" ")),
        Value::String(s) => json!(s.trim_start_matches('0')),
        x => x,
    }
}
/// the members there are
fn shape(v: &Value) -> Vec<String> {
    let mut p = vec![];
    paths(v, String::new(), &mut p);
    p
}
/// random damages of several places at once
pub fn record(a: &Args, k: &'static Kinds) {
    use rand::Rng;
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut names: Vec<_> = k.0.keys().cloned().collect();
    names.sort();
    while rec.n < a.n {
        let mut s = Codec::new(k);
        let (kind, form) = &names[g.gen_range(0, names.len())];
        let f = &k.0[&(kind.clone(), form.clone())];
        let n = g.gen_range(0, 2);
        rec.call(&mut s, json!({"op":"send","k":kind,"f":form,"n":n + 1}));
        for _ in 0..8 {
            let mut x = f.enc[n].clone();
            let l = x.len();
            match g.gen_range(0, 4) {
                // a piece is lost
                0 => {
                    let (i, m) = (g.gen_range(0, l), g.gen_range(1, 40));
                    x.drain(i..(i + m).min(l));
                }
                // a piece is doubled
                1 => {
                    let (i, m) = (g.gen_range(0, l), g.gen_range(1, 40));
                    let y = x[i..(i + m).min(l)].to_vec();
                    x.splice(i..i, y);
                }
                // bytes are overwritten
                2 => {
                    for _ in 0..g.gen_range(2, 6) {
                        let i = g.gen_range(0, l);
                        x[i] = g.gen();
                    }
                }
                // part of the other object
                _ => {
                    let i = g.gen_range(0, l);
                    for (p, q) in x.iter_mut().zip(f.enc[1 - n].iter()).take(i) {
                        *p = *q
                    }
                }
            }
            if x == f.enc[n] {
                continue;
            }
            let shape = if !f.json {
                "same"
            } else {
                let v: Value = serde_json::from_slice(&f.enc[n]).unwrap();
                match serde_json::from_slice::<Value>(&x) {
                    Err(_) => "none",
                    Ok(w) if shape(&v) != shape(&w) => "other",
                    Ok(w) if bare(v.clone()) != bare(w.clone()) => "same",
                    _ => continue,
                }
            };
            let r = guard(|| json!(f.read(&x)));
            if r == json!((n + 1).to_string()) && std::env::var("VH_WHY").is_ok() {
                eprintln!("{}\n{}", String::from_utf8_lossy(&f.enc[n]), String::from_utf8_lossy(&x));
            }
            let r = if r == json!((2 - n).to_string()) { json!("other") } else { r };
            rec.ev(json!({"op":"garble","k":kind,"f":form,"n":n + 1,"shape":shape}), r);
        }
        rec.call(&mut s, json!({"op":"again","k":kind,"f":form}));
    }
}
