//! C19: Pointcheval-Sanders signatures and proofs of knowledge of them.
use amcl_wrapper::field_elem::{FieldElement as FE, FieldElementVector as FV};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vh::*;
use zmix::signatures::ps::blind_signature::*;
use zmix::signatures::ps::keys::*;
use zmix::signatures::ps::pok_sig::*;
use zmix::signatures::ps::signature::*;
use zmix::signatures::ps::{OtherGroup as OG, OtherGroupVec, SignatureGroup as SG, SignatureGroupVec};

const N: usize = 6;
struct World {
    params: Params,
    other: Params,
    keys: HashMap<(String, usize), (Verkey, Sigkey, BlindingKey)>,
}
impl World {
    fn new() -> Self {
        let params = Params::new(b"one");
        let mut keys = HashMap::new();
        for n in 1..=N + 1 {
            for k in ["a", "b"].iter() {
                let (v, s) = keygen(n, &params);
                let b = BlindingKey::new(&s, &params);
                keys.insert((k.to_string(), n), (v, s, b));
            }
        }
        World { params, other: Params::new(b"two"), keys }
    }
    fn k(&self, k: &str, n: usize) -> &(Verkey, Sigkey, BlindingKey) {
        self.keys.get(&(k.to_string(), n)).unwrap_or_else(|| harness!("key {} {}", k, n))
    }
    fn key(&self, c: &Value) -> &(Verkey, Sigkey, BlindingKey) {
        self.k(st(&c["k"]), us(&c["n"]))
    }
    fn p(&self, c: &Value) -> &Params {
        if c["p"] == 2 { &self.other } else { &self.params }
    }
}
fn fe(i: i64) -> FE {
    FE::from(i as i32)
}
fn fes(v: &Value) -> Vec<FE> {
    ints(v).into_iter().map(fe).collect()
}
fn idx(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|i| i as usize - 1).collect()
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap_or_else(|e| panic!("json {}", e))
}
fn verdict<E>(r: Result<bool, E>) -> Value {
    json!(match r {
        Ok(true) => "yes",
        Ok(false) => "no",
        Err(_) => "err",
    })
}
fn ok<T, E>(r: &Result<T, E>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}
fn edit(s: &Signature, e: &str) -> Signature {
    let mut s = s.clone();
    match e {
        "none" => {}
        "s1" => s.sigma_1 = SG::random(),
        "s2" => s.sigma_2 = SG::random(),
        "swap" => std::mem::swap(&mut s.sigma_1, &mut s.sigma_2),
        "rand" => {
            let r = FE::random();
            s.sigma_1 = &s.sigma_1 * &r;
            s.sigma_2 = &s.sigma_2 * &r;
        }
        "negboth" => {
            s.sigma_1 = s.sigma_1.negation();
            s.sigma_2 = s.sigma_2.negation();
        }
        "neg1" => s.sigma_1 = s.sigma_1.negation(),
        "neg2" => s.sigma_2 = s.sigma_2.negation(),
        "id1" => s.sigma_1 = SG::identity(),
        "id2" => s.sigma_2 = SG::identity(),
        "ids" => {
            s.sigma_1 = SG::identity();
            s.sigma_2 = SG::identity();
        }
        "add" => s.sigma_2 = &s.sigma_2 + &s.sigma_1,
        x => harness!("edit {}", x),
    }
    s
}
fn chal(b: &[u8], nonce: &Value) -> FE {
    FE::from_msg_hash(&[b, format!("nonce {}", int(nonce)).as_bytes()].concat())
}
fn bases(w: &Params, vk: &Verkey, r: &[usize]) -> OtherGroupVec {
    let mut b = OtherGroupVec::with_capacity(4);
    b.push(w.g_tilde.clone());
    for i in 0..vk.Y_tilde.len() {
        if !r.contains(&i) {
            b.push(vk.Y_tilde[i].clone());
        }
    }
    b
}
fn msm(b: &OtherGroupVec, e: &[FE]) -> OG {
    let mut r = OG::identity();
    for (b, e) in b.iter().zip(e) {
        r = r + b * e;
    }
    r
}
#[derive(Clone)]
struct Ps {
    w: Arc<World>,
    com: Option<(SG, FE)>,
    sig: Option<Signature>,
    // proof, the challenge it was made with, the messages
    pf: Option<(PoKOfSignatureProof, FE, Vec<FE>, i64)>,
}
/// A prover who holds sig (or something else) on m; hides a value other than signed with `lie`.
/// `last`: what is chosen after the challenge.
fn own(w: &World, vk: &Verkey, sig: &Signature, m: &[FE], r: &[usize], lie: bool, last: &str) -> (PoKOfSignatureProof, FE) {
    let b = bases(&w.params, vk, r);
    let t = FE::random();
    let rr = FE::random();
    let s = Signature { sigma_1: &sig.sigma_1 * &rr, sigma_2: (&sig.sigma_2 + &sig.sigma_1 * &t) * &rr };
    let mut sec = vec![t];
    sec.extend((0..m.len()).filter(|i| !r.contains(i)).map(|i| m[i].clone()));
    if lie {
        let l = sec.len() - 1;
        sec[l] = &sec[l] + &FE::one();
    }
    let bl: Vec<FE> = sec.iter().map(|_| FE::random()).collect();
    let mut p = PoKOfSignatureProof { sig: s, J: msm(&b, &sec), proof_vc: ProofOtherGroup { commitment: msm(&b, &bl), responses: FV::from(bl.clone()) } };
    if last != "" {
        p.J = OG::random();
        p.proof_vc.commitment = OG::random();
    }
    if last == "commitment" {
        // J for which the pairing holds: -X + g~^k, minus the shown
        let k = FE::random();
        p.J = &w.params.g_tilde * &k - &vk.X_tilde;
        for i in r {
            p.J = &p.J - &vk.Y_tilde[*i] * &m[*i];
        }
        p.sig.sigma_1 = &w.params.g * &rr;
        p.sig.sigma_2 = &p.sig.sigma_1 * &k;
    }
    let set: HashSet<usize> = r.iter().cloned().collect();
    let c = chal(&p.get_bytes_for_challenge(set, vk, &w.params), &json!(1));
    if last == "" {
        p.proof_vc.responses = FV::from(bl.iter().zip(&sec).map(|(b, s)| b - &(&c * s)).collect::<Vec<_>>());
    } else {
        let resp = p.proof_vc.responses.as_slice().to_vec();
        let q = msm(&b, &resp);
        if last == "commitment" {
            p.proof_vc.commitment = q + &p.J * &c;
        } else {
            p.J = (&p.proof_vc.commitment - q) * c.inverse();
        }
    }
    (p, c)
}
fn shown(m: &[FE], r: &[usize]) -> HashMap<usize, FE> {
    r.iter().map(|i| (*i, m.get(*i).cloned().unwrap_or_else(FE::one))).collect()
}
impl Sys for Ps {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w.clone();
        match st(&c["op"]) {
            "new" => {
                self.com = None;
                self.sig = None;
                self.pf = None;
                json!("ok")
            }
            "key" => {
                let (v, s) = keygen(us(&c["n"]), &w.params);
                let b = BlindingKey::new(&s, &w.params);
                let (v, b, s, q) = (rt(&v), rt(&b), rt(&s), rt(&w.params));
                let n = us(&c["n"]);
                if v.msg_count() != n || b.msg_count() != n || q.g != w.params.g || v.X_tilde != &w.params.g_tilde * &s.x {
                    return json!("wrong");
                }
                let m: Vec<FE> = (0..n).map(|i| fe(i as i64)).collect();
                match Signature::new(&m, &s, &q).and_then(|x| x.verify(&m, &v, &q)) {
                    Ok(true) => json!("ok"),
                    _ => json!("err"),
                }
            }
            "sign" => {
                let n = us(&c["n"]);
                let m = fes(&c["m"]);
                let r = if n == 0 { Signature::new(&m, &keygen(0, &w.params).1, &w.params) } else { Signature::new(&m, &w.key(c).1, &w.params) };
                if let Ok(s) = &r {
                    self.sig = Some(s.clone());
                }
                ok(&r)
            }
            "verify" => {
                let mut s = edit(self.sig.as_ref().unwrap(), st(&c["e"]));
                if c["via"] == "json" {
                    s = rt(&s);
                }
                verdict(s.verify(&fes(&c["m"]), &w.key(c).0, w.p(c)))
            }
            "commit" => {
                let b = &w.key(c).2;
                let t = FE::random();
                let mut x = &w.params.g * &t;
                let mut pc = ProverCommittingSignatureGroup::new();
                let mut gens = SignatureGroupVec::with_capacity(4);
                pc.commit(&w.params.g, None);
                gens.push(w.params.g.clone());
                let mut sec = vec![t.clone()];
                for (i, m) in fes(&c["m"]).iter().enumerate() {
                    x = x + &b.Y[i] * m;
                    pc.commit(&b.Y[i], None);
                    gens.push(b.Y[i].clone());
                    sec.push(m.clone());
                }
                let pd = pc.finish();
                let ch = pd.gen_challenge(x.to_bytes());
                let p = pd.gen_proof(&ch, &sec).unwrap();
                if !p.verify(gens.as_slice(), &x, &ch).unwrap() {
                    return json!("proof refused");
                }
                self.com = Some((x, t));
                json!("ok")
            }
            "bsign" => {
                let (x, t) = self.com.clone().unwrap();
                let x = if c["e"] == "com" { SG::random() } else { x };
                let (_, sk, own) = w.key(c);
                let bk = &w.k(st(&c["bk"]), us(&c["bn"])).2;
                let known = fes(&c["w"]);
                let r = if c["way"] == "own" { BlindSignature::new(&x, &known, sk, bk, &w.params) } else { BlindSignature::new_from_paper(&x, &known, &own.X, bk, &w.params) };
                if let Ok(s) = &r {
                    let t = match st(&c["bl"]) {
                        "own" => t,
                        "zero" => FE::zero(),
                        _ => FE::random(),
                    };
                    self.sig = Some(BlindSignature::unblind(&rt(s), &t));
                }
                ok(&r)
            }
            "prove" => {
                let m = fes(&c["m"]);
                let r = idx(&c["r"]);
                let bl: Option<Vec<FE>> = if c["bc"] == -1 { None } else { Some((0..us(&c["bc"])).map(|_| FE::random()).collect()) };
                let r = PoKOfSignature::init(self.sig.as_ref().unwrap(), &w.key(c).0, &w.params, &m, bl.as_ref().map(|x| &x[..]), r.into_iter().collect());
                let v = ok(&r);
                if let Ok(p) = r {
                    let p: PoKOfSignature = rt(&p);
                    let ch = chal(&p.to_bytes(), &c["nonce"]);
                    self.pf = Some((p.gen_proof(&ch).unwrap(), ch, m, int(&c["nonce"])));
                }
                v
            }
            "show" => {
                let (p, ch, m, nonce) = self.pf.as_ref().unwrap();
                let vk = &w.key(c).0;
                let r = idx(&c["r"]);
                let mut p = p.clone();
                let mut map = shown(m, &r);
                let e = st(&c["e"]);
                match e {
                    "none" => {}
                    "json" => p = rt(&p),
                    "bytes" => {
                        p.proof_vc = ProofOtherGroup::from_bytes(&p.proof_vc.to_bytes()).unwrap_or_else(|_| panic!("bytes"));
                        p.J = OG::from_bytes(&p.J.to_bytes()).unwrap();
                    }
                    "J" => p.J = OG::random(),
                    "Jid" => p.J = OG::identity(),
                    "com" => p.proof_vc.commitment = OG::random(),
                    "comid" => p.proof_vc.commitment = OG::identity(),
                    "r0" => p.proof_vc.responses[0] = FE::random(),
                    "rl" => {
                        let l = p.proof_vc.responses.len() - 1;
                        p.proof_vc.responses[l] = FE::random();
                    }
                    "rmore" => p.proof_vc.responses.push(FE::zero()),
                    "rless" => {
                        p.proof_vc.responses.pop();
                    }
                    "rnone" => p.proof_vc.responses = FV::new(0),
                    "swapr" => {
                        if p.proof_vc.responses.len() < 2 {
                            p.J = OG::random();
                        } else {
                            let x = p.proof_vc.responses[0].clone();
                            p.proof_vc.responses[0] = p.proof_vc.responses[1].clone();
                            p.proof_vc.responses[1] = x;
                        }
                    }
                    "val" => {
                        let i = *r.iter().find(|i| **i < m.len()).unwrap();
                        map.insert(i, &m[i] + &FE::one());
                    }
                    "zeroval" => {
                        let i = *r.iter().find(|i| **i < m.len() && !m[**i].is_zero()).unwrap();
                        map.insert(i, FE::zero());
                    }
                    x => p.sig = edit(&p.sig, x),
                }
                for i in 0..us(&c["out"]) {
                    map.insert(us(&c["n"]) + i * 3, FE::one());
                }
                let set: HashSet<usize> = map.keys().cloned().collect();
                let ch = if c["chal"] == "given" {
                    if int(&c["nonce"]) != *nonce { FE::random() } else { ch.clone() }
                } else {
                    chal(&p.get_bytes_for_challenge(set, vk, w.p(c)), &c["nonce"])
                };
                verdict(p.verify(vk, w.p(c), map, &ch))
            }
            "resp" => {
                let n = us(&c["n"]);
                let (vk, sk, _) = w.k("a", n);
                let m: Vec<FE> = (0..n).map(|i| fe(i as i64)).collect();
                let s = Signature::new(&m, sk, &w.params).unwrap();
                let p = PoKOfSignature::init(&s, vk, &w.params, &m, None, idx(&c["r"]).into_iter().collect()).unwrap();
                let mut p = p.gen_proof(&FE::random()).unwrap();
                if c["e"] == "empty" {
                    p.proof_vc.responses = FV::new(0);
                }
                ok(&p.get_resp_for_message(us(&c["i"])))
            }
            "cheat" => {
                let n = us(&c["n"]);
                let (vk, sk, _) = w.k("a", n);
                let m = fes(&c["m"]);
                let r = idx(&c["r"]);
                let s = Signature::new(&m, sk, &w.params).unwrap();
                let (p, ch) = own(&w, vk, &s, &m, &r, false, "");
                if !p.verify(vk, &w.params, shown(&m, &r), &ch).unwrap() {
                    return json!("own prover refused");
                }
                let mut map = shown(&m, &r);
                let none = Signature { sigma_1: SG::random(), sigma_2: SG::random() };
                let id = Signature { sigma_1: SG::identity(), sigma_2: SG::identity() };
                let (p, _) = match st(&c["e"]) {
                    "late" => own(&w, vk, &s, &m, &r, false, "commitment"),
                    "latej" => own(&w, vk, &s, &m, &r, false, "J"),
                    "nosig" => own(&w, vk, &none, &m, &r, false, ""),
                    "ident" => own(&w, vk, &id, &m, &r, false, ""),
                    "lie" => own(&w, vk, &s, &m, &r, true, ""),
                    // the first shown position is really hidden
                    "overlap" => {
                        map.insert(r[0], &m[r[0]] + &FE::one());
                        own(&w, vk, &s, &m, &r[1..], false, "")
                    }
                    x => harness!("cheat {}", x),
                };
                let set: HashSet<usize> = r.iter().cloned().collect();
                let ch = chal(&p.get_bytes_for_challenge(set, vk, &w.params), &json!(1));
                verdict(p.verify(vk, &w.params, map, &ch))
            }
            "link" => {
                let bl = FE::random();
                let mut poks = vec![];
                for (k, n, i, x) in [("a", "n", "i", "a"), ("b", "n2", "j", "b")].iter() {
                    let n = us(&c[n]);
                    let i = us(&c[i]) - 1;
                    let mut m: Vec<FE> = (0..n).map(|_| FE::random()).collect();
                    m[i] = fe(int(&c[x]));
                    let (vk, sk, _) = w.k(k, n);
                    let s = Signature::new(&m, sk, &w.params).unwrap();
                    let r: HashSet<usize> = if c["show"] == true { (0..n).filter(|x| *x != i).collect() } else { HashSet::new() };
                    let pos = if c["show"] == true { 0 } else { i };
                    let bs: Vec<FE> = (0..n - r.len()).map(|x| if x == pos { bl.clone() } else { FE::random() }).collect();
                    let p = PoKOfSignature::init(&s, vk, &w.params, &m, Some(&bs), r.clone()).unwrap();
                    let map = r.iter().map(|i| (*i, m[*i].clone())).collect::<HashMap<_, _>>();
                    poks.push((p, r, vk, map, pos));
                }
                let b: Vec<u8> = poks.iter().flat_map(|p| p.0.to_bytes()).collect();
                let ch = chal(&b, &json!(1));
                let pr: Vec<_> = poks.into_iter().map(|p| (p.0.gen_proof(&ch).unwrap(), p.1, p.2, p.3, p.4)).collect();
                let b: Vec<u8> = pr.iter().flat_map(|p| p.0.get_bytes_for_challenge(p.1.clone(), p.2, &w.params)).collect();
                let ch2 = chal(&b, &json!(1));
                if ch2 != ch {
                    return json!("challenges differ");
                }
                for p in &pr {
                    if !p.0.verify(p.2, &w.params, p.3.clone(), &ch2).unwrap() {
                        return json!("refused");
                    }
                }
                let a = pr[0].0.get_resp_for_message(pr[0].4).unwrap();
                let b = pr[1].0.get_resp_for_message(pr[1].4).unwrap();
                json!(if a == b { "linked" } else { "apart" })
            }
            x => harness!("op {}", x),
        }
    }
}
fn record(a: &Args, w: Arc<World>) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Ps { w, com: None, sig: None, pf: None };
    while rec.n < a.n {
        rec.call(&mut s, json!({"op":"new"}));
        let n = r.gen_range(1, N + 1);
        let k = *["a", "b"].choose(&mut r).unwrap();
        let mut m: Vec<i64> = (0..n).map(|_| r.gen_range(0, 5)).collect();
        if r.gen() {
            let b = r.gen_range(1, n + 1);
            rec.call(&mut s, json!({"op":"commit","k":k,"n":n,"m":m[..b]}));
            let over = if r.gen_range(0, 4) == 0 { r.gen_range(0, n + 1) } else { b };
            let bk = if r.gen_range(0, 6) == 0 { "a" } else { k };
            let way = *["own", "paper"].choose(&mut r).unwrap();
            let bl = *["own", "own", "own", "other"].choose(&mut r).unwrap();
            let known = m[over..].to_vec();
            for i in over..n {
                if over < b && i < b {
                    m[i] += m[i];
                }
            }
            if over > b {
                m[b..over].iter_mut().for_each(|x| *x = 0);
            }
            if rec.call(&mut s, json!({"op":"bsign","k":k,"n":n,"bk":bk,"bn":n,"w":known,"way":way,"bl":bl,"e":"none"})) != "ok" {
                continue;
            }
        } else if rec.call(&mut s, json!({"op":"sign","k":k,"n":n,"m":m})) != "ok" {
            continue;
        }
        for _ in 0..3 {
            let mut x = m.clone();
            let (i, j) = (r.gen_range(0, n), r.gen_range(0, n));
            match r.gen_range(0, 5) {
                0 => x[i] = r.gen_range(0, 5),
                1 => x.swap(i, j),
                2 => {
                    x.remove(i);
                }
                3 => x.insert(i, 0),
                _ => {}
            }
            let e = *["none", "none", "none", "rand", "s1", "swap", "neg2"].choose(&mut r).unwrap();
            rec.call(&mut s, json!({"op":"verify","k":k,"n":n,"m":x,"e":e,"via":"direct","p":1}));
        }
        let sub = |r: &mut rand::rngs::StdRng| -> Vec<usize> { (1..=n).filter(|_| r.gen()).collect() };
        let x = sub(&mut r);
        rec.call(&mut s, json!({"op":"prove","k":k,"n":n,"m":m,"r":x,"nonce":1,"bc":-1}));
        for _ in 0..5 {
            let y = if r.gen_range(0, 4) == 0 { sub(&mut r) } else { x.clone() };
            let e = if y == x { *["none", "none", "none", "rand", "bytes", "json", "J", "com", "r0", "rl", "rmore", "rless", "s1", "s2", "swapr"].choose(&mut r).unwrap() } else { "none" };
            let ch = *["calc", "given"].choose(&mut r).unwrap();
            let out = r.gen_range(0, 8) / 7;
            let kk = if r.gen_range(0, 8) == 0 { "a" } else { k };
            rec.call(&mut s, json!({"op":"show","k":kk,"n":n,"p":1,"nonce":r.gen_range(1, 8) / 7 + 1,"chal":ch,"r":y,"out":out,"e":e}));
        }
    }
}
fn main() {
    let a = args();
    let w = Arc::new(World::new());
    match a.mode.as_str() {
        "replay" => replay(&a, |_| Ps { w: w.clone(), com: None, sig: None, pf: None }),
        _ => record(&a, w),
    }
}
