//! C24: range, non-zero, membership and non-membership proofs.
#![allow(non_snake_case)]
use amcl_wrapper::field_elem::FieldElement as FE;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Variable, Verifier};
use merlin::Transcript;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;
use vh::bp::*;
use vh::*;

type R<T> = Result<T, R1CSError>;
fn num(v: &Value) -> FE {
    let a = ints(v);
    if a[0] < 0 { fe_i(a[1]) } else { fe_u64(u64v(v)) }
}
/// as a 64-bit number; negative ones never get here
fn u64v(v: &Value) -> u64 {
    let a = ints(v);
    let b: i128 = if a[0] < 0 { 0 } else { 1i128 << a[0] };
    let x = b + i128::from(a[1]);
    if x < 0 || x > i128::from(u64::max_value()) { harness!("number {}", v) }
    x as u64
}
struct World {
    std: Gens,
    other: G1,
    big: Gens,
}
#[derive(Clone)]
struct Gad {
    w: Arc<World>,
    st: Value,
    v: Value,
    /// proof, its commitments, position of the commitment to the value, and its blinding
    pf: Option<(R1CSProof, Vec<G1>)>,
    bl: FE,
}
fn lab(s: &str) -> &'static [u8] {
    match s {
        "a" => b"a",
        _ => b"b",
    }
}
fn al(v: Variable, a: FE) -> AllocatedQuantity {
    AllocatedQuantity { variable: v, assignment: Some(a) }
}
fn fes(st: &Value) -> Vec<FE> {
    arr(&st["set"]).iter().map(num).collect()
}
fn u64s(st: &Value) -> Vec<u64> {
    arr(&st["set"]).iter().map(u64v).collect()
}
impl Gad {
    fn gens(&self, st: &Value) -> &Gens {
        if us(&st["bits"]) > 64 { &self.w.big } else { &self.w.std }
    }
    fn prove(&self, st: &Value, v: &Value, how: &str, bl: &FE) -> R<(R1CSProof, Vec<G1>)> {
        let q = self.gens(st);
        let (g, h, G, H) = (&q.g, &q.h, &q.G, &q.H);
        let l = lab("a");
        let mut rg = rand::thread_rng();
        let b = if how == "blind" { Some(bl.clone()) } else { None };
        let r = if how == "rng" { Some(&mut rg) } else { None };
        match (st["kind"].as_str().unwrap(), how.starts_with('f')) {
            ("bound", false) => gen_proof_of_bounded_num(u64v(v), b, u64v(&st["lo"]), u64v(&st["hi"]), us(&st["bits"]), r, l, g, h, G, H),
            ("nonzero", false) => gen_proof_of_non_zero_val(num(v), b, r, l, g, h, G, H),
            ("member", false) => gen_proof_of_set_membership(num(v), b, &fes(st), r, l, g, h, G, H),
            ("alt", false) => gen_proof_of_set_membership_alt(u64v(v), b, &u64s(st), r, l, g, h, G, H),
            ("nonmember", false) => gen_proof_of_set_non_membership(num(v), b, &fes(st), r, l, g, h, G, H),
            ("pair", false) => {
                let mut t = Transcript::new(l);
                let mut p = Prover::new(g, h, &mut t);
                let mut c = prove_bounded_num(u64v(v), b.clone(), u64v(&st["lo"]), u64v(&st["hi"]), us(&st["bits"]), None::<&mut rand::rngs::ThreadRng>, &mut p)?;
                c.extend(prove_set_non_membership(num(v), b, &fes(st), None::<&mut rand::rngs::ThreadRng>, &mut p)?);
                Ok((p.prove(G, H)?, c))
            }
            (kind, true) => {
                let mut t = Transcript::new(l);
                let mut p = Prover::new(g, h, &mut t);
                let mut cs: Vec<G1> = vec![];
                let x = num(v);
                macro_rules! com {
                    ($x:expr) => {{
                        let (c, v) = p.commit($x, FE::random());
                        cs.push(c);
                        v
                    }};
                }
                match kind {
                    "bound" => {
                        let (lo, hi) = (num(&st["lo"]), num(&st["hi"]));
                        let (a, b) = match how {
                            "f1" => (&x - &lo, &hi - &x),
                            "f2" => (FE::zero(), &hi - &lo),
                            _ => (&hi - &lo, FE::zero()),
                        };
                        let (vv, va, vb) = (com!(x.clone()), com!(a.clone()), com!(b.clone()));
                        bound_check_gadget(&mut p, al(vv, x), al(va, a), al(vb, b), u64v(&st["hi"]), u64v(&st["lo"]), us(&st["bits"]))?;
                    }
                    "nonzero" => {
                        let inv = match how {
                            "f1" => FE::one(),
                            "f2" => FE::zero(),
                            _ => FE::random(),
                        };
                        let (a, b) = (com!(x), com!(inv));
                        is_nonzero_gadget(&mut p, a, b)?;
                    }
                    "member" => {
                        let set = fes(st);
                        let vv = com!(x.clone());
                        let n = set.len();
                        let ds: Vec<Variable> = (0..n)
                            .map(|i| {
                                let z = match how {
                                    "f1" => i == 0,
                                    "f2" => i + 1 == n,
                                    _ => true,
                                };
                                com!(if z { FE::zero() } else { &set[i] - &x })
                            })
                            .collect();
                        set_membership_gadget(&mut p, vv, ds, &set)?;
                    }
                    "alt" => {
                        // toggles committed to, and what is claimed for them inside
                        let set = u64s(st);
                        let n = set.len();
                        let mut qs = vec![];
                        let mut vars = vec![];
                        for i in 0..n {
                            let t = FE::from(if i == 0 { 1u32 } else { 0 });
                            let inner = match how {
                                "f1" => FE::zero(),
                                "f2" => t.clone(),
                                // what the last constraint asks for, in one place
                                _ => if i == 0 && set[0] != 0 { &x * fe_u64(set[0]).inverse() } else { FE::zero() },
                            };
                            let var = com!(t.clone());
                            bit_gadget(&mut p, &al(var, t))?;
                            vars.push(var);
                            qs.push(al(var, inner));
                        }
                        vector_sum_constraints(&mut p, vars, 1);
                        let vv = com!(x.clone());
                        vector_product_gadget(&mut p, &set, &qs, &al(vv, x))?;
                    }
                    "nonmember" => {
                        let set = fes(st);
                        let vv = com!(x.clone());
                        let (mut ds, mut is) = (vec![], vec![]);
                        for s in &set {
                            let d = s - &x;
                            let (d, i) = match how {
                                "f1" => (d, FE::one()),
                                "f2" => if d.is_zero() { (FE::one(), FE::one()) } else { (d.clone(), d.inverse()) },
                                _ => (d.clone(), if d.is_zero() { FE::random() } else { d.inverse() }),
                            };
                            ds.push(com!(d));
                            is.push(com!(i));
                        }
                        set_non_membership_gadget(&mut p, vv, ds, is, &set)?;
                    }
                    k => harness!("forge {}", k),
                }
                Ok((p.prove(G, H)?, cs))
            }
            k => harness!("kind {:?}", k),
        }
    }
    fn at(&self, st: &Value) -> usize {
        if st["kind"] == "alt" { arr(&st["set"]).len() } else { 0 }
    }
    fn verify(&self, c: &Value) -> R<()> {
        let (pf, cs) = match &self.pf {
            Some(p) => p,
            None => return Err(bulletproofs_amcl::errors::R1CSErrorKind::VerificationError.into()),
        };
        let mut pf = pf.clone();
        if c["via"] == "json" {
            let s = serde_json::to_string(&pf).unwrap();
            pf = serde_json::from_str(&s).unwrap_or_else(|e| panic!("json {}", e));
        }
        let mut cs = cs.clone();
        let q = self.gens(&self.st);
        let (mut g, mut h, mut G, mut H) = (q.g.clone(), q.h.clone(), q.G.clone(), q.H.clone());
        let at = self.at(&self.st);
        let e = st(&c["e"]);
        match e {
            "none" | "order" => {}
            "drop" => { cs.pop(); }
            "extra" => cs.push(G1::random()),
            "empty" => cs.clear(),
            "other" => cs[at] = &cs[at] + &g,
            "reblind" => cs[at] = &cs[at] + &h,
            "last" => { let n = cs.len(); cs[n - 1] = G1::random() }
            "swap" => cs.swap(0, 1),
            e => harness!("edit {}", e),
        }
        match st(&c["gens"]) {
            "std" => {}
            "g" => g = self.w.other.clone(),
            "h" => h = self.w.other.clone(),
            "G" => G[0] = self.w.other.clone(),
            "H" => H[0] = self.w.other.clone(),
            x => harness!("gens {}", x),
        }
        let l = lab(st(&c["label"]));
        let s = &c["st"];
        let (lo, hi, bits) = (u64v(&s["lo"]), u64v(&s["hi"]), us(&s["bits"]));
        match st(&s["kind"]) {
            "bound" => verify_proof_of_bounded_num(lo, hi, bits, pf, cs, l, &g, &h, &G, &H),
            "nonzero" => verify_proof_of_non_zero_val(pf, cs, l, &g, &h, &G, &H),
            "member" => verify_proof_of_set_membership(&fes(s), pf, cs, l, &g, &h, &G, &H),
            "alt" => verify_proof_of_set_membership_alt(&u64s(s), pf, cs, l, &g, &h, &G, &H),
            "nonmember" => verify_proof_of_set_non_membership(&fes(s), pf, cs, l, &g, &h, &G, &H),
            "pair" => {
                let mut t = Transcript::new(l);
                let mut v = Verifier::new(&mut t);
                let k = cs.len().min(3);
                let (a, b) = cs.split_at(k);
                if e == "order" {
                    verify_set_non_membership(&fes(s), b.to_vec(), &mut v)?;
                    verify_bounded_num(lo, hi, bits, a.to_vec(), &mut v)?;
                } else {
                    verify_bounded_num(lo, hi, bits, a.to_vec(), &mut v)?;
                    verify_set_non_membership(&fes(s), b.to_vec(), &mut v)?;
                }
                v.verify(&pf, &g, &h, &G, &H)
            }
            k => harness!("kind {}", k),
        }
    }
    /// the constraints the gadget asks for: their number of gates and of inputs, place of the value
    fn circuit(s: &Value) -> Result<(Value, usize, usize, usize), String> {
        let mut r = Rec::default();
        let mut at = 1;
        let f = |e: R1CSError| format!("{}", e);
        match st(&s["kind"]) {
            "bound" => {
                let q: Vec<AllocatedQuantity> = (0..3).map(|_| AllocatedQuantity { variable: r.commit(None), assignment: None }).collect();
                bound_check_gadget(&mut r, q[0].clone(), q[1].clone(), q[2].clone(), u64v(&s["hi"]), u64v(&s["lo"]), us(&s["bits"])).map_err(f)?;
            }
            "nonzero" => {
                let (a, b) = (r.commit(None), r.commit(None));
                is_nonzero_gadget(&mut r, a, b).map_err(f)?;
            }
            "member" => {
                let v = r.commit(None);
                let ds = fes(s).iter().map(|_| r.commit(None)).collect();
                set_membership_gadget(&mut r, v, ds, &fes(s)).map_err(f)?;
            }
            "nonmember" => {
                let v = r.commit(None);
                let (mut ds, mut is) = (vec![], vec![]);
                for _ in fes(s) {
                    ds.push(r.commit(None));
                    is.push(r.commit(None));
                }
                set_non_membership_gadget(&mut r, v, ds, is, &fes(s)).map_err(f)?;
            }
            "alt" => {
                let set = u64s(s);
                let qs: Vec<AllocatedQuantity> = set.iter().map(|_| AllocatedQuantity { variable: r.commit(None), assignment: None }).collect();
                for q in &qs {
                    bit_gadget(&mut r, q).map_err(f)?;
                }
                vector_sum_constraints(&mut r, qs.iter().map(|q| q.variable).collect(), 1);
                let v = AllocatedQuantity { variable: r.commit(None), assignment: None };
                at = r.m;
                vector_product_gadget(&mut r, &set, &qs, &v).map_err(f)?;
            }
            k => harness!("kind {}", k),
        }
        Ok((r.terms().ok_or("large coefficient")?, r.n, r.m, at))
    }
}
impl Sys for Gad {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        match st(&c["op"]) {
            "new" => {
                self.pf = None;
                self.st = Value::Null;
                json!("ok")
            }
            "prove" => {
                let bl = FE::random();
                let how = st(&c["how"]);
                let s = &c["st"];
                let r = self.prove(s, &c["v"], how, &bl);
                if how == "neither" {
                    return json!(if r.is_ok() { "done" } else { "err" });
                }
                self.pf = r.ok();
                self.st = s.clone();
                self.v = c["v"].clone();
                self.bl = bl;
                json!("done")
            }
            "verify" => json!(if self.verify(c).is_ok() { "ok" } else { "err" }),
            "opens" => match &self.pf {
                None => json!("none"),
                Some((_, cs)) => {
                    let q = self.gens(&self.st);
                    json!(if cs[self.at(&self.st)] == &q.g * &num(&self.v) + &q.h * &self.bl { "yes" } else { "no" })
                }
            },
            // recorded beforehand, see `record`
            "circuit" => json!("ok"),
            o => harness!("op {}", o),
        }
    }
}
fn world() -> World {
    World { std: gens(128), other: G1::random(), big: gens(512) }
}
fn n(o: i64) -> Value {
    json!([-1, o])
}
fn record(a: &Args) {
    let w = Arc::new(world());
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Gad { w, st: Value::Null, v: Value::Null, pf: None, bl: FE::zero() };
    let stt = |k: &str, lo: Value, hi: Value, bits: usize, set: Vec<Value>| json!({"kind": k, "lo": lo, "hi": hi, "bits": bits, "set": set});
    if a.opt.get("what").map_or(false, |w| w == "circuit") {
        // constraint systems of the gadgets, over small fields
        while rec.n < a.n {
            let kind = *["bound", "nonzero", "member", "alt", "nonmember"].choose(&mut g).unwrap();
            let p = *[7i64, 11, 13, 17].choose(&mut g).unwrap();
            let (mut lo, mut hi, mut bits, mut set) = (0, 0, 0, vec![]);
            match kind {
                "bound" => {
                    bits = if p == 17 { g.gen_range(0, 4) } else { g.gen_range(0, if p > 7 { 3 } else { 2 }) };
                    // bounds such that nothing wraps around in the field
                    let top = p - (1 << bits);
                    lo = g.gen_range(0, top.max(1));
                    hi = g.gen_range(lo, top.max(lo + 1));
                }
                "nonzero" => {}
                _ => {
                    let k = g.gen_range(0, if kind == "alt" { 4 } else { 3 });
                    set = (0..k).map(|_| if kind == "alt" { g.gen_range(0, p) } else { g.gen_range(-2, p - 2) }).collect();
                }
            }
            let st = stt(kind, n(lo), n(hi), bits, set.iter().map(|x| n(*x)).collect());
            let r = guard(|| match Gad::circuit(&st) {
                Ok((cons, n, m, at)) => json!([cons, n, m, at]),
                Err(e) => json!(format!("panic: {}", e)),
            });
            match r.as_array() {
                Some(x) => rec.call(&mut s, json!({"op": "circuit", "st": st, "p": p, "cons": x[0], "n": x[1], "m": x[2], "at": x[3]})),
                None => rec.call(&mut s, json!({"op": "circuit", "st": st, "p": p, "cons": [], "n": 0, "m": 1, "at": 1, "failed": r})),
            };
        }
        return;
    }
    while rec.n < a.n {
        rec.call(&mut s, json!({"op": "new"}));
        let kind = *["bound", "bound", "nonzero", "member", "alt", "nonmember", "pair"].choose(&mut g).unwrap();
        let alt = kind == "alt";
        let bits = *[4usize, 6, 7, 8].choose(&mut g).unwrap();
        let base = *[-1i64, -1, 40, 57, 62].choose(&mut g).unwrap();
        let mk = |o: i64| json!([base, o]);
        let lo = g.gen_range(0, 200);
        let hi = lo + g.gen_range(0, 1 << bits);
        let v = g.gen_range((lo - 3).max(0), hi + 4);
        let k = g.gen_range(0, 7);
        let set: Vec<i64> = (0..k).map(|_| if kind == "pair" { g.gen_range((lo - 1).max(0), hi + 2) } else { g.gen_range(if alt || base > 0 { 0 } else { -4 }, 9) }).collect();
        let (st, val) = match kind {
            "bound" => (stt(kind, mk(lo), mk(hi), bits, vec![]), mk(v)),
            "pair" => (stt(kind, mk(lo), mk(hi), bits, set.iter().map(|x| mk(*x)).collect()), mk(v)),
            "nonzero" => (stt(kind, n(0), n(0), 0, vec![]), if g.gen() { n(g.gen_range(-3, 4)) } else { mk(g.gen_range(1, 100)) }),
            _ => {
                let v = if k > 0 && g.gen() { *set.choose(&mut g).unwrap() } else { g.gen_range(if alt || base > 0 { 0 } else { -4 }, 9) };
                (stt(kind, n(0), n(0), 0, set.iter().map(|x| mk(*x)).collect()), mk(v))
            }
        };
        let mut how = *["rng", "blind", "rng", "blind", "f1", "f2", "f3"].choose(&mut g).unwrap();
        if kind == "pair" {
            how = "blind";
        }
        rec.call(&mut s, json!({"op": "prove", "st": st, "v": val, "how": how}));
        for _ in 0..g.gen_range(1, 4) {
            let e = if g.gen() { "none" } else { *["none", "drop", "extra", "empty", "other", "reblind", "last"].choose(&mut g).unwrap() };
            let label = if g.gen_range(0, 6) == 0 { "b" } else { "a" };
            let gens = if g.gen_range(0, 6) == 0 { *["g", "h", "G", "H"].choose(&mut g).unwrap() } else { "std" };
            let mut s2 = st.clone();
            if g.gen_range(0, 4) == 0 {
                match kind {
                    "bound" | "pair" => {
                        let f = *["lo", "hi"].choose(&mut g).unwrap();
                        s2[f] = json!([base, ints(&st[f])[1] + 1]);
                    }
                    "nonzero" => {}
                    _ => {
                        let a = s2["set"].as_array_mut().unwrap();
                        if a.is_empty() || g.gen() {
                            a.push(mk(g.gen_range(0, 9)));
                        } else {
                            let i = g.gen_range(0, a.len());
                            a[i] = mk(g.gen_range(0, 9));
                        }
                    }
                }
            }
            rec.call(&mut s, json!({"op": "verify", "st": s2, "e": e, "label": label, "gens": gens, "via": if g.gen() { "mem" } else { "json" }}));
        }
        rec.call(&mut s, json!({"op": "opens"}));
    }
}
fn main() {
    let a = args();
    match a.mode.as_str() {
        "replay" => {
            let w = Arc::new(world());
            replay(&a, |_| Gad { w: w.clone(), st: Value::Null, v: Value::Null, pf: None, bl: FE::zero() })
        }
        "record" => record(&a),
        m => harness!("mode {}", m),
    }
}
