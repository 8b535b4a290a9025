//! C25: constraint systems and the inner product argument.
#![allow(non_snake_case)]
use amcl_wrapper::field_elem::{FieldElement as FE, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination as LC, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier};
use merlin::Transcript;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;
use vh::bp::*;
use vh::*;

type R<T> = Result<T, R1CSError>;
fn lab(s: &str) -> &'static [u8] {
    match s {
        "a" => b"a",
        _ => b"b",
    }
}
fn var(s: i64, i: i64) -> Variable {
    let i = i as usize;
    match s {
        0 => Variable::One(),
        1 => Variable::MultiplierLeft(i),
        2 => Variable::MultiplierRight(i),
        3 => Variable::MultiplierOutput(i),
        _ => Variable::Committed(i),
    }
}
fn var_of(v: &Value) -> Variable {
    let a = ints(v);
    var(a[0], a[1])
}
fn pair(v: Variable) -> Value {
    match v {
        Variable::One() => json!([0, 0]),
        Variable::MultiplierLeft(i) => json!([1, i]),
        Variable::MultiplierRight(i) => json!([2, i]),
        Variable::MultiplierOutput(i) => json!([3, i]),
        Variable::Committed(i) => json!([4, i]),
    }
}
fn lc(v: &Value) -> LC {
    let ts: Vec<(Variable, FE)> = arr(v)
        .iter()
        .map(|t| {
            let a = ints(t);
            (var(a[0], a[1]), fe_i(a[2]))
        })
        .collect();
    ts.iter().collect()
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| harness!("integer {}", v))
}
fn opt(known: bool, v: &Value) -> Option<FE> {
    if known { Some(fe_i(int(v))) } else { None }
}
/// a randomized constraint
fn second<C: RandomizedConstraintSystem>(cs: &mut C, f: &Value, known: bool) -> R<()> {
    match st(&f["f"]) {
        "noop" => {}
        "shuf" => {
            let z = cs.challenge_scalar(b"z");
            let t = |k: &str| var_of(&f[k]) - z.clone();
            let (_, _, o1) = cs.multiply(t("a"), t("b"));
            let (_, _, o2) = cs.multiply(t("c"), t("d"));
            cs.constrain(o1 - o2);
        }
        "rcon" => {
            let z = cs.challenge_scalar(b"z");
            cs.constrain(z * lc(&f["p"]) + lc(&f["q"]));
        }
        "ralloc" => {
            let v = cs.allocate(opt(known, &f["x"]))?;
            cs.constrain(v - fe_i(int(&f["k"])));
        }
        o => harness!("randomized {}", o),
    }
    Ok(())
}
/// one call of the program
fn build<C: ConstraintSystem>(cs: &mut C, c: &Value, known: bool) -> R<Vec<Variable>>
where
    C::RandomizedCS: RandomizedConstraintSystem,
{
    Ok(match st(&c["op"]) {
        "mul" => {
            let (l, r, o) = cs.multiply(lc(&c["a"]), lc(&c["b"]));
            vec![l, r, o]
        }
        "alloc" => vec![cs.allocate(opt(known, &c["x"]))?],
        "allocm" => {
            let a = if known { Some((fe_i(int(&c["x"])), fe_i(int(&c["y"])))) } else { None };
            let (l, r, o) = cs.allocate_multiplier(a)?;
            vec![l, r, o]
        }
        "single" => {
            let (v, o) = cs.allocate_single(opt(known, &c["x"]))?;
            std::iter::once(v).chain(o).collect()
        }
        "con" => {
            cs.constrain(lc(&c["q"]));
            vec![]
        }
        "rand" => {
            let f = c["f"].clone();
            let nest = f["nest"].as_bool().unwrap();
            cs.specify_randomized_constraints(move |cs| {
                if nest {
                    let f = f.clone();
                    cs.specify_randomized_constraints(move |cs| second(cs, &f, known))
                } else {
                    second(cs, &f, known)
                }
            })?;
            vec![]
        }
        o => harness!("building {}", o),
    })
}
struct World {
    std: Gens,
    other: G1,
}
#[derive(Clone)]
struct Circ {
    w: Arc<World>,
    prog: Vec<Value>,
    bl: Vec<FE>,
    pf: Option<Arc<(R1CSProof, Vec<G1>)>>,
}
fn pt(p: &G1) -> Value {
    serde_json::to_value(p).unwrap()
}
impl Circ {
    fn gates(&self) -> usize {
        let mut n = 0;
        let mut pend = false;
        let mut n2 = 0;
        let mut pend2 = false;
        for c in &self.prog {
            match st(&c["op"]) {
                "mul" | "allocm" => n += 1,
                "alloc" | "single" => {
                    if !pend { n += 1 }
                    pend = !pend;
                }
                "rand" => match st(&c["f"]["f"]) {
                    "shuf" => n2 += 2,
                    "ralloc" => {
                        if !pend2 { n2 += 1 }
                        pend2 = !pend2;
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        n + n2
    }
    fn gens(&self, k: &str) -> (G1, G1, G1Vector, G1Vector) {
        let w = &self.w;
        let p = self.gates().next_power_of_two();
        let (mut g, mut h, mut G, mut H) = (w.std.g.clone(), w.std.h.clone(), w.std.G.as_slice().to_vec(), w.std.H.as_slice().to_vec());
        let x = w.other.clone();
        match k {
            "std" => {}
            "g" => g = x,
            "h" => h = x,
            "G" => G[0] = x,
            "H" => H[0] = x,
            "Glast" => G[p - 1] = x,
            "Hlast" => H[p - 1] = x,
            "beyond" => {
                G[p] = x.clone();
                H[p] = x;
            }
            "exact" => {
                G.truncate(p);
                H.truncate(p);
            }
            "Gshort" => G.truncate(p - 1),
            "Hshort" => H.truncate(p - 1),
            o => harness!("generators {}", o),
        }
        (g, h, G.into(), H.into())
    }
    /// the program on a prover; `f` sees the result of the last call
    fn prover<T>(&self, g: &G1, h: &G1, prog: &[Value], f: impl FnOnce(Prover, Vec<G1>, R<Vec<Variable>>) -> T) -> T {
        let mut t = Transcript::new(lab("a"));
        let mut p = Prover::new(g, h, &mut t);
        let mut com = vec![];
        let mut last = Ok(vec![]);
        let mut bl = self.bl.iter();
        for c in prog {
            last = if st(&c["op"]) == "commit" {
                let (x, v) = p.commit(fe_i(int(&c["x"])), bl.next().unwrap().clone());
                com.push(x);
                Ok(vec![v])
            } else {
                build(&mut p, c, true)
            };
        }
        f(p, com, last)
    }
    fn prove(&self, gens: &str) -> R<(R1CSProof, Vec<G1>)> {
        let (g, h, G, H) = self.gens(gens);
        self.prover(&g, &h, &self.prog, |p, com, _| p.prove(&G, &H).map(|x| (x, com)))
    }
    fn tweaked(&self, t: &str, js: bool) -> Option<R1CSProof> {
        let pf = &self.pf.as_ref().unwrap().0;
        if t == "none" && !js {
            return Some(pf.clone());
        }
        let mut v = serde_json::to_value(pf).unwrap();
        let x = pt(&self.w.other);
        match t {
            "none" => {}
            "t_x" | "t_x_blinding" | "e_blinding" => v[t] = serde_json::to_value(&FE::random()).unwrap(),
            "a" | "b" => v["ipp_proof"][t] = serde_json::to_value(&FE::random()).unwrap(),
            "neg" => {
                let (a, b) = (-&pf_fe(&v["ipp_proof"]["a"]), -&pf_fe(&v["ipp_proof"]["b"]));
                v["ipp_proof"]["a"] = serde_json::to_value(&a).unwrap();
                v["ipp_proof"]["b"] = serde_json::to_value(&b).unwrap();
            }
            _ if t.starts_with("cut") || t.starts_with("add") || t == "L" || t == "R" || t == "swapLR" => {
                let q = &mut v["ipp_proof"];
                if t == "swapLR" {
                    let l = q["L"].take();
                    q["L"] = q["R"].take();
                    q["R"] = l;
                } else {
                    for k in &["L", "R"] {
                        if t.ends_with(k) || t.ends_with("LR") {
                            let a = lst(&mut q[*k]);
                            if t.starts_with("cut") {
                                a.pop();
                            } else if t.starts_with("add") {
                                a.push(x.clone());
                            } else {
                                let n = a.len() - 1;
                                a[n] = x.clone();
                            }
                        }
                    }
                }
            }
            _ => {
                if v.get(t).is_none() { harness!("tweak {}", t) }
                v[t] = x;
            }
        }
        serde_json::from_str(&v.to_string()).ok()
    }
    fn verify(&self, c: &Value) -> Value {
        let pf = match self.tweaked(st(&c["t"]), st(&c["via"]) == "json") {
            Some(p) => p,
            None => return json!(if st(&c["t"]) == "none" { "unreadable" } else { "err" }),
        };
        let mut com = self.pf.as_ref().unwrap().1.clone();
        let w = &self.w;
        match st(&c["com"]) {
            "none" => {}
            "reblind" => com[0] = &com[0] + &w.std.h,
            "swap" => com.swap(0, 1),
            "extra" => com.push(w.other.clone()),
            o => harness!("commitments {}", o),
        }
        let mut prog = self.prog.clone();
        let e = &c["e"];
        let i = us(&e["i"]);
        match st(&e["k"]) {
            "none" => {}
            "drop" => {
                prog.remove(i - 1);
            }
            "put" => prog[i - 1] = e["o"].clone(),
            "add" => prog.push(e["o"].clone()),
            "swap" => prog.swap(i - 1, i),
            o => harness!("edit {}", o),
        }
        let (g, h, G, H) = self.gens(st(&c["gens"]));
        let mut t = Transcript::new(lab(st(&c["label"])));
        let mut v = Verifier::new(&mut t);
        let mut com = com.into_iter();
        for o in &prog {
            if st(&o["op"]) == "commit" {
                v.commit(com.next().unwrap_or_else(|| harness!("commitment")));
            } else if build(&mut v, o, false).is_err() {
                return json!("build-err");
            }
        }
        for x in com {
            v.commit(x);
        }
        json!(if v.verify(&pf, &g, &h, &G, &H).is_ok() { "ok" } else { "err" })
    }
    /// what the verifier's side gives for the same call
    fn verifier_vars(&self) -> R<Vec<Variable>> {
        let mut t = Transcript::new(lab("a"));
        let mut v = Verifier::new(&mut t);
        let mut last = Ok(vec![]);
        for o in &self.prog {
            last = if st(&o["op"]) == "commit" { Ok(vec![v.commit(self.w.other.clone())]) } else { build(&mut v, o, false) };
        }
        last
    }
}
fn lst(v: &mut Value) -> &mut Vec<Value> {
    if v.is_array() {
        return v.as_array_mut().unwrap();
    }
    let o = v.as_object_mut().unwrap_or_else(|| harness!("list"));
    o.values_mut().next().unwrap().as_array_mut().unwrap()
}
fn pf_fe(v: &Value) -> FE {
    serde_json::from_value(v.clone()).unwrap()
}
fn num_of(x: Option<FE>) -> Value {
    match x.as_ref().and_then(small) {
        Some(i) => json!(i),
        None => json!("large"),
    }
}
fn ipp(w: &World, c: &Value) -> Value {
    let n = us(&c["n"]);
    let t = st(&c["t"]);
    let ones = || -> FieldElementVector { vec![FE::one(); n].into() };
    let (mut gf, mut hf) = if st(&c["f"]) == "one" { (ones(), ones()) } else { (FieldElementVector::random(n), FieldElementVector::random(n)) };
    let z = c["z"].as_bool().unwrap();
    let a = if z { FieldElementVector::new(n) } else { FieldElementVector::random(n) };
    let b = FieldElementVector::random(n);
    let (mut G, mut H): (G1Vector, G1Vector) = (w.std.G.as_slice()[..n].into(), w.std.H.as_slice()[..n].into());
    let mut u = w.std.g.clone();
    let mut t1 = Transcript::new(lab("a"));
    let p = IPP::create_ipp(&mut t1, &u, &gf, &hf, &G, &H, &a, &b);
    let mut P = &u * &a.inner_product(&b).unwrap();
    for i in 0..n {
        P = P + &G[i] * &(&a[i] * &gf[i]) + &H[i] * &(&b[i] * &hf[i]);
    }
    let InnerProductArgumentProof { mut L, mut R, a: mut pa, b: mut pb } = p;
    let x = w.other.clone();
    let mut m = n;
    let mut label = "a";
    match t {
        "none" => {}
        "P" => P = P + &x,
        // with nothing in a, neither u nor G enter into P
        "u" => u = if z { P = P + &x; u } else { x },
        "a" => pa = FE::random(),
        "b" => pb = FE::random(),
        "label" => label = "b",
        "G" => G[n - 1] = if z { P = P + &x; x } else { x },
        "H" => H[n - 1] = x,
        "Gf" => gf[0] = FE::random(),
        "Hf" => hf[n - 1] = FE::random(),
        "n" => m = 2 * n,
        "short" => {
            G = G.as_slice()[..n - 1].into();
            gf = gf.as_slice()[..n - 1].into();
        }
        "long" => {
            H.push(x);
            hf.push(FE::one());
        }
        "L" => {
            let k = L.len() - 1;
            L[k] = x
        }
        "R" => R[0] = x,
        "swapLR" => std::mem::swap(&mut L, &mut R),
        "cutL" => L = L.as_slice()[..L.len() - 1].into(),
        "cutR" => R = R.as_slice()[..R.len() - 1].into(),
        "addL" => L.push(x),
        "addLR" => {
            L.push(x.clone());
            R.push(x);
        }
        o => harness!("ipp {}", o),
    }
    let mut t2 = Transcript::new(lab(label));
    json!(if IPP::verify_ipp(m, &mut t2, &gf, &hf, &P, &u, &G, &H, &pa, &pb, &L, &R).is_ok() { "ok" } else { "err" })
}
/// elements of a proof that are drawn at random or depend on such
fn elements(p: &R1CSProof, phase2: bool) -> Vec<String> {
    let v = serde_json::to_value(p).unwrap();
    let mut ks = vec!["A_I1", "A_O1", "S1", "T_1", "T_3", "T_4", "T_5", "T_6", "t_x_blinding", "e_blinding"];
    if phase2 {
        ks.extend(&["A_I2", "A_O2", "S2"]);
    }
    ks.iter().map(|k| v[*k].to_string()).collect()
}
impl Sys for Circ {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let op = st(&c["op"]).to_string();
        let w = self.w.clone();
        match op.as_str() {
            "new" => {
                self.prog = vec![];
                self.bl = vec![];
                self.pf = None;
                json!("ok")
            }
            "commit" | "mul" | "alloc" | "allocm" | "single" | "con" | "rand" => {
                self.prog.push(c.clone());
                if op == "commit" {
                    self.bl.push(if st(&c["bl"]) == "zero" { FE::zero() } else { FE::random() });
                }
                let r = self.prover(&w.std.g, &w.std.h, &self.prog, |_, _, r| r);
                let r2 = self.verifier_vars();
                match (r, r2) {
                    (Ok(a), Ok(b)) => {
                        if a != b {
                            json!("differ")
                        } else if a.is_empty() {
                            json!("ok")
                        } else {
                            json!(a.into_iter().map(pair).collect::<Vec<_>>())
                        }
                    }
                    _ => json!("err"),
                }
            }
            "blank" => self.prover(&w.std.g, &w.std.h, &self.prog, |mut p, _, _| {
                let e = match st(&c["w"]) {
                    "alloc" => p.allocate(None).is_err(),
                    "single" => p.allocate_single(None).is_err(),
                    _ => p.allocate_multiplier(None).is_err(),
                };
                json!(if e { "err" } else { "ok" })
            }),
            "eval" => self.prover(&w.std.g, &w.std.h, &self.prog, |p, _, _| num_of(p.evaluate_lc(&lc(&c["q"])))),
            "alg" => self.prover(&w.std.g, &w.std.h, &self.prog, |p, _, _| {
                let x = lc(&c["x"]);
                let y = lc(&c["y"]);
                let k = fe_i(int(&c["k"]));
                let q = match st(&c["f"]) {
                    "add" => x + y,
                    "sub" => x - y,
                    "neg" => -x,
                    "scale" => k * x,
                    "simplify" => x.simplify(),
                    "acc" => {
                        let mut x = x;
                        x += &k * y;
                        x
                    }
                    o => harness!("alg {}", o),
                };
                num_of(p.evaluate_lc(&q))
            }),
            "terms" => json!(lc(&c["q"]).simplify().len()),
            "count" => self.prover(&w.std.g, &w.std.h, &self.prog, |p, _, _| json!([p.num_constraints(), p.num_multipliers()])),
            "prove" => match self.prove(st(&c["gens"])) {
                Ok(p) => {
                    self.pf = Some(Arc::new(p));
                    json!("done")
                }
                Err(_) => json!("err"),
            },
            "fresh" => {
                let n1 = self.prog.iter().any(|c| c["op"] == "rand" && (c["f"]["f"] == "shuf" || c["f"]["f"] == "ralloc"));
                let q = match self.prove("std") {
                    Ok((q, _)) => q,
                    Err(_) => return json!("err"),
                };
                let mut all = elements(&q, n1);
                all.extend(elements(&self.pf.as_ref().unwrap().0, n1));
                let n = all.len();
                all.sort();
                all.dedup();
                json!(if all.len() == n { "yes" } else { "no" })
            }
            "verify" => self.verify(c),
            "ipp" => ipp(&w, c),
            o => harness!("op {}", o),
        }
    }
}
fn world() -> World {
    World { std: gens(65), other: G1::random() }
}
fn main() {
    let a = args();
    let w = Arc::new(world());
    let new = || Circ { w: w.clone(), prog: vec![], bl: vec![], pf: None };
    match a.mode.as_str() {
        "replay" => replay(&a, |_| new()),
        "record" => record(&a, new()),
        m => harness!("mode {}", m),
    }
}
/// random programs; values are followed to keep them small, and to make most constraints hold
struct Shadow {
    l: Vec<i64>,
    r: Vec<i64>,
    o: Vec<i64>,
    v: Vec<i64>,
    pend: Option<usize>,
}
impl Shadow {
    fn vars(&self) -> Vec<(i64, i64)> {
        let n = self.l.len() as i64;
        let mut a: Vec<(i64, i64)> = (0..self.v.len() as i64).map(|i| (4, i)).collect();
        for i in 0..n {
            a.extend((1..4).map(|s| (s, i)));
        }
        a
    }
    fn val(&self, v: (i64, i64)) -> i64 {
        let i = v.1 as usize;
        match v.0 {
            0 => 1,
            1 => self.l[i],
            2 => self.r[i],
            3 => self.o[i],
            _ => self.v[i],
        }
    }
    fn eval(&self, q: &[(i64, i64, i64)]) -> i64 {
        q.iter().map(|t| t.2 * self.val((t.0, t.1))).sum()
    }
    fn lc(&self, g: &mut impl Rng, max: usize) -> Vec<(i64, i64, i64)> {
        let vs = self.vars();
        let n = g.gen_range(0, max + 1);
        (0..n)
            .map(|_| {
                let k = g.gen_range(-3, 4);
                match vs.choose(g) {
                    Some(v) if g.gen_range(0, 5) > 0 => (v.0, v.1, k),
                    _ => (0, 0, k),
                }
            })
            .collect()
    }
    fn gate(&mut self, x: i64, y: i64) {
        self.l.push(x);
        self.r.push(y);
        self.o.push(x * y);
    }
    fn alloc(&mut self, x: i64) {
        match self.pend.take() {
            None => {
                self.pend = Some(self.l.len());
                self.gate(x, 0);
            }
            Some(i) => {
                self.r[i] = x;
                self.o[i] = self.l[i] * x;
            }
        }
    }
}
fn q(l: &[(i64, i64, i64)]) -> Value {
    json!(l.iter().map(|t| json!([t.0, t.1, t.2])).collect::<Vec<_>>())
}
fn record(a: &Args, mut s: Circ) {
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    while rec.n < a.n {
        if rec.n > 0 {
            rec.call(&mut s, json!({"op": "new"}));
        }
        let mut h = Shadow { l: vec![], r: vec![], o: vec![], v: vec![], pend: None };
        let mut prog: Vec<Value> = vec![];
        let len = g.gen_range(0, 14);
        // now and then a constraint that does not hold
        let bad = g.gen_range(0, 3) == 0;
        let mut tries = 0;
        while prog.len() < len && tries < 200 {
            tries += 1;
            let c = match g.gen_range(0, 12) {
                0..=2 => {
                    let x = g.gen_range(-9, 10);
                    h.v.push(x);
                    json!({"op": "commit", "x": x, "bl": if g.gen_range(0, 6) == 0 { "zero" } else { "rand" }})
                }
                3..=4 => {
                    let (x, y) = (h.lc(&mut g, 3), h.lc(&mut g, 3));
                    let (vx, vy) = (h.eval(&x), h.eval(&y));
                    if vx.abs() > 3000 || vy.abs() > 3000 || (vx * vy).abs() > 1_000_000 { continue }
                    h.gate(vx, vy);
                    json!({"op": "mul", "a": q(&x), "b": q(&y)})
                }
                5 => {
                    let x = g.gen_range(-9, 10);
                    h.alloc(x);
                    json!({"op": if g.gen() { "alloc" } else { "single" }, "x": x})
                }
                6 => {
                    let (x, y) = (g.gen_range(-9, 10), g.gen_range(-9, 10));
                    h.gate(x, y);
                    json!({"op": "allocm", "x": x, "y": y})
                }
                7..=9 => {
                    let mut l = h.lc(&mut g, 4);
                    // made to hold by a constant
                    if !(bad && g.gen_range(0, 3) == 0) {
                        let k = -h.eval(&l);
                        let at = g.gen_range(0, l.len() + 1);
                        l.insert(at, (0, 0, k));
                    }
                    json!({"op": "con", "q": q(&l)})
                }
                _ => {
                    let nest: bool = g.gen();
                    let vs = h.vars();
                    let f = match g.gen_range(0, 4) {
                        0 => json!({"f": "noop", "nest": nest}),
                        1 => {
                            let x = g.gen_range(-5, 6);
                            json!({"f": "ralloc", "x": x, "k": if bad && g.gen() { x + 1 } else { x }, "nest": nest})
                        }
                        2 => {
                            let mut p = h.lc(&mut g, 2);
                            let mut r = h.lc(&mut g, 2);
                            if !(bad && g.gen_range(0, 2) == 0) {
                                let (k1, k2) = (-h.eval(&p), -h.eval(&r));
                                p.push((0, 0, k1));
                                r.push((0, 0, k2));
                            }
                            json!({"f": "rcon", "p": q(&p), "q": q(&r), "nest": nest})
                        }
                        _ => {
                            if vs.is_empty() { continue }
                            let (x, y) = (*vs.choose(&mut g).unwrap(), *vs.choose(&mut g).unwrap());
                            // the same values, if need be of other wires
                            let find = |g: &mut rand::rngs::StdRng, k: i64| *vs.iter().filter(|v| h.val(**v) == k).collect::<Vec<_>>().choose(g).unwrap();
                            let (mut c, mut d) = (*find(&mut g, h.val(x)), *find(&mut g, h.val(y)));
                            if bad && g.gen_range(0, 2) == 0 {
                                c = *vs.choose(&mut g).unwrap();
                            }
                            if g.gen() { std::mem::swap(&mut c, &mut d) }
                            json!({"f": "shuf", "a": [x.0, x.1], "b": [y.0, y.1], "c": [c.0, c.1], "d": [d.0, d.1], "nest": nest})
                        }
                    };
                    json!({"op": "rand", "f": f})
                }
            };
            rec.call(&mut s, c.clone());
            prog.push(c);
        }
        // what the prover's side evaluates
        for _ in 0..g.gen_range(0, 3) {
            let (x, y) = (h.lc(&mut g, 4), h.lc(&mut g, 4));
            let f = *["add", "sub", "neg", "scale", "simplify", "acc"].choose(&mut g).unwrap();
            rec.call(&mut s, json!({"op": "alg", "f": f, "x": q(&x), "y": q(&y), "k": g.gen_range(-4, 5)}));
            rec.call(&mut s, json!({"op": "eval", "q": q(&x)}));
            rec.call(&mut s, json!({"op": "terms", "q": q(&x)}));
        }
        rec.call(&mut s, json!({"op": "count"}));
        rec.call(&mut s, json!({"op": "prove", "gens": "std"}));
        let none = json!({"k": "none", "i": 0, "o": {"op": "none"}});
        let padded = s.gates().next_power_of_two();
        for n in 0..g.gen_range(2, 7) {
            let (mut e, mut com, mut t, mut label, mut gens) = (none.clone(), "none", "none", "a", "std");
            match if n == 0 { 0 } else { g.gen_range(0, 10) } {
                0 => {}
                1..=5 => {
                    let at: Vec<usize> = (0..prog.len()).filter(|i| ["con", "rand", "mul"].contains(&st(&prog[*i]["op"]))).collect();
                    match at.choose(&mut g) {
                        Some(&i) if g.gen_range(0, 6) > 0 => {
                            let mut o = prog[i].clone();
                            let k = st(&o["op"]).to_string();
                            let term = |g: &mut rand::rngs::StdRng, h: &Shadow| q(&h.lc(g, 3));
                            match (k.as_str(), g.gen_range(0, 4)) {
                                ("con", 0) | ("rand", 0) => e = json!({"k": "drop", "i": i + 1, "o": {"op": "none"}}),
                                ("con", m) => {
                                    let l = o["q"].as_array_mut().unwrap();
                                    match m {
                                        // the same in other words
                                        1 => {
                                            l.reverse();
                                            l.push(json!([0, 0, 2]));
                                            l.push(json!([0, 0, -2]));
                                        }
                                        2 if !l.is_empty() => {
                                            let j = g.gen_range(0, l.len());
                                            let t = ints(&l[j]);
                                            l[j] = json!([t[0], t[1], t[2] + 1]);
                                        }
                                        _ => l.extend(term(&mut g, &h).as_array().unwrap().clone()),
                                    }
                                    e = json!({"k": "put", "i": i + 1, "o": o});
                                }
                                ("mul", m) => {
                                    let f = if m % 2 == 0 { "a" } else { "b" };
                                    // only wires that are there already
                                    o[f].as_array_mut().unwrap().push(json!([0, 0, if m > 1 { 0 } else { 1 }]));
                                    e = json!({"k": "put", "i": i + 1, "o": o});
                                }
                                (_, m) => {
                                    match (st(&o["f"]["f"]).to_string().as_str(), m) {
                                        ("ralloc", _) => o["f"]["k"] = json!(int(&o["f"]["x"]) + g.gen_range(0, 2)),
                                        ("rcon", 1) => o["f"]["p"].as_array_mut().unwrap().push(json!([0, 0, 1])),
                                        ("rcon", 2) => o["f"]["q"].as_array_mut().unwrap().push(json!([0, 0, 1])),
                                        ("shuf", 1) => o["f"]["a"] = o["f"]["b"].clone(),
                                        ("shuf", 2) => o["f"]["d"] = o["f"]["a"].clone(),
                                        _ => o["f"]["nest"] = json!(!o["f"]["nest"].as_bool().unwrap()),
                                    }
                                    e = json!({"k": "put", "i": i + 1, "o": o});
                                }
                            }
                        }
                        _ => e = json!({"k": "add", "i": 0, "o": {"op": "con", "q": q(&h.lc(&mut g, 2))}}),
                    }
                }
                6 => {
                    com = *["reblind", "swap", "extra"].choose(&mut g).unwrap();
                    if h.v.is_empty() || (com == "swap" && h.v.len() < 2) {
                        com = "extra";
                    }
                }
                7 => label = "b",
                8 => gens = *["g", "h", "G", "H", "Glast", "Hlast", "beyond", "exact", "Gshort", "Hshort"].choose(&mut g).unwrap(),
                _ => {
                    t = *["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6", "t_x", "t_x_blinding", "e_blinding", "a", "b", "L", "R", "swapLR", "cutLR", "addLR", "cutL", "addR"].choose(&mut g).unwrap();
                    if padded == 1 && (t == "L" || t == "R" || t == "swapLR" || t.starts_with("cut")) {
                        t = "addL";
                    }
                }
            }
            rec.call(&mut s, json!({"op": "verify", "e": e, "com": com, "t": t, "label": label, "gens": gens, "via": if g.gen() { "mem" } else { "json" }}));
        }
        if g.gen_range(0, 4) == 0 {
            rec.call(&mut s, json!({"op": "fresh"}));
        }
    }
}
