//! C09: BLS over BN254. C10: BLS over BLS12-381.
use rand::Rng;
use serde_json::{json, Value};
use std::sync::{Arc, OnceLock};
use ursa::bls::*;
use vh::*;

fn yn(b: bool) -> String {
    if b { "yes".into() } else { "no".into() }
}
/// Results obtained with an object and with what was read back from its encodings must agree.
fn same(v: Vec<String>) -> Value {
    if v.iter().all(|x| *x == v[0]) {
        json!(v[0])
    } else {
        json!(v.join("/"))
    }
}
fn b<T>(x: Result<bool, T>) -> String {
    x.map(yn).unwrap_or("err".into())
}
fn js<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}

// ------------------------------------------------------------------ BN254
struct Bn {
    neg: usize,
    gens: Vec<Generator>,
    sks: Vec<SignKey>,
    /// by key, then generator
    vks: Vec<Vec<VerKey>>,
}
fn bn(neg: usize) -> &'static Bn {
    static B: OnceLock<Bn> = OnceLock::new();
    B.get_or_init(|| {
        let gens: Vec<Generator> = (0..2).map(|_| Generator::new().unwrap()).collect();
        let sks: Vec<SignKey> = (0..=neg)
            .map(|i| match i {
                0 => SignKey::from_bytes(&[]).unwrap(),
                1 => SignKey::new(Some(&[7; 32])).unwrap(),
                _ => SignKey::new(None).unwrap(),
            })
            .collect();
        let n = ursa::pair::GroupOrderElement::from_bytes(sks[1].as_bytes()).unwrap().mod_neg().unwrap();
        let mut sks = sks;
        sks[neg] = SignKey::from_bytes(&n.to_bytes().unwrap()).unwrap();
        let vks = sks.iter().map(|k| gens.iter().map(|g| VerKey::new(g, k).unwrap()).collect()).collect();
        Bn { neg, gens, sks, vks }
    })
}
fn msg(m: usize) -> Vec<u8> {
    match m {
        1 => vec![],
        2 => vec![0; 3],
        _ => (0..(m * 37) % 500).map(|i| (i * m) as u8).collect(),
    }
}
#[derive(Clone)]
struct BnSys {
    k: &'static Bn,
    made: Vec<Arc<Signature>>,
}
fn recode<T, E>(kind: &str, bytes: &[u8], f: impl Fn(&[u8]) -> Result<T, E>, g: impl Fn(&T) -> Vec<u8>, ok: impl Fn(&T) -> bool) -> Value {
    let _ = kind;
    match f(bytes) {
        Err(_) => json!("err"),
        Ok(x) => {
            if g(&x) != bytes {
                json!("other bytes")
            } else if ok(&x) {
                json!("same")
            } else {
                json!("other")
            }
        }
    }
}
fn edit(b: &[u8], c: &Value) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    match st(&c["edit"]) {
        "none" => {}
        "short" => v.truncate(n / 2),
        "short1" => {
            v.pop();
        }
        "empty" => v.clear(),
        "long" => v.extend_from_slice(b),
        "long1" => v.push(0),
        "zero" => v.iter_mut().for_each(|x| *x = 0),
        "ff" => v.iter_mut().for_each(|x| *x = 255),
        "flip" => {
            let p = us(&c["pos"]);
            v[p % n] ^= 1 << ((p / 3) % 8)
        }
        x => harness!("edit {}", x),
    }
    v
}
impl Sys for BnSys {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.k;
        let gen = |x: &Value| &w.gens[us(x) - 1];
        let vk = |k: &Value, g: &Value| &w.vks[us(k)][us(g) - 1];
        match st(&c["op"]) {
            "new" => {
                self.made.clear();
                json!("ok")
            }
            "sign" => match Bls::sign(&msg(us(&c["m"])), &w.sks[us(&c["k"])]) {
                Ok(s) => {
                    self.made.push(Arc::new(s));
                    json!("ok")
                }
                Err(_) => json!("err"),
            },
            "verify" => {
                let (v, g) = (vk(&c["k"], &c["gk"]), gen(&c["g"]));
                let m = if us(&c["m"]) == 0 { v.as_bytes().to_vec() } else { msg(us(&c["m"])) };
                if us(&c["i"]) == 0 {
                    // a proof of possession as a signature on the key
                    let p = ProofOfPossession::new(v, &w.sks[us(&c["k"])]).unwrap();
                    let s = match Signature::from_bytes(p.as_bytes()) {
                        Ok(s) => s,
                        Err(_) => return json!("no"),
                    };
                    return json!(b(Bls::verify(&s, &m, v, g)));
                }
                let s = &self.made[us(&c["i"]) - 1];
                let mut r = vec![b(Bls::verify(s, &m, v, g)), b(Bls::verify(&js(&**s), &m, &js(v), &js(g)))];
                // one signature is an aggregate of one
                r.push(b(Bls::verify_multi_sig(&MultiSignature::new(&[&**s]).unwrap(), &m, &[v], g)));
                match (Signature::from_bytes(s.as_bytes()), VerKey::from_bytes(v.as_bytes()), Generator::from_bytes(g.as_bytes())) {
                    (Ok(s), Ok(v), Ok(g)) => r.push(b(Bls::verify(&s, &m, &v, &g))),
                    _ => r.push("no".into()),
                }
                same(r)
            }
            "multi" => {
                let sigs: Vec<&Signature> = self.made.iter().map(|s| &**s).collect();
                let ms = MultiSignature::new(&sigs).unwrap();
                let ks: Vec<&VerKey> = arr(&c["ks"]).iter().map(|k| vk(k, &c["gk"])).collect();
                let m = msg(us(&c["m"]));
                let mut r = vec![b(Bls::verify_multi_sig(&ms, &m, &ks, gen(&c["g"])))];
                match MultiSignature::from_bytes(ms.as_bytes()) {
                    Ok(x) => r.push(b(Bls::verify_multi_sig(&x, &m, &ks, gen(&c["g"])))),
                    Err(_) => r.push("no".into()),
                }
                same(r)
            }
            "pop" => {
                let v = vk(&c["k"], &c["gk"]);
                let of = vk(&c["k0"], &c["g0"]);
                let sk = &w.sks[us(&c["k0"])];
                let p = if st(&c["as"]) == "pop" {
                    ProofOfPossession::new(of, sk).unwrap()
                } else {
                    match ProofOfPossession::from_bytes(Bls::sign(of.as_bytes(), sk).unwrap().as_bytes()) {
                        Ok(p) => p,
                        Err(_) => return json!("no"),
                    }
                };
                let mut r = vec![b(Bls::verify_proof_of_posession(&p, v, gen(&c["g"]))), b(Bls::verify_proof_of_posession(&js(&p), &js(v), gen(&c["g"])))];
                match (ProofOfPossession::from_bytes(p.as_bytes()), VerKey::from_bytes(v.as_bytes())) {
                    (Ok(p), Ok(v)) => r.push(b(Bls::verify_proof_of_posession(&p, &v, gen(&c["g"])))),
                    _ => r.push("no".into()),
                }
                same(r)
            }
            "dec" => {
                let (sk, g) = (&w.sks[2], &w.gens[0]);
                let (v, m) = (VerKey::new(g, sk).unwrap(), msg(5));
                let (s, p) = (Bls::sign(&m, sk).unwrap(), ProofOfPossession::new(&v, sk).unwrap());
                let kind = st(&c["kind"]);
                match kind {
                    "sk" => recode(kind, &edit(sk.as_bytes(), c), SignKey::from_bytes, |x| x.as_bytes().to_vec(), |k| b(Bls::verify(&Bls::sign(&m, k).unwrap(), &m, &v, g)) == "yes"),
                    "vk" => recode(kind, &edit(v.as_bytes(), c), VerKey::from_bytes, |x| x.as_bytes().to_vec(), |v| b(Bls::verify(&s, &m, v, g)) == "yes"),
                    "gen" => recode(kind, &edit(g.as_bytes(), c), Generator::from_bytes, |x| x.as_bytes().to_vec(), |g| b(Bls::verify(&s, &m, &v, g)) == "yes"),
                    "sig" => recode(kind, &edit(s.as_bytes(), c), Signature::from_bytes, |x| x.as_bytes().to_vec(), |s| b(Bls::verify(s, &m, &v, g)) == "yes"),
                    "pop" => recode(kind, &edit(p.as_bytes(), c), ProofOfPossession::from_bytes, |x| x.as_bytes().to_vec(), |p| b(Bls::verify_proof_of_posession(p, &v, g)) == "yes"),
                    "multi" => {
                        let x = MultiSignature::new(&[&s]).unwrap();
                        recode(kind, &edit(x.as_bytes(), c), MultiSignature::from_bytes, |x| x.as_bytes().to_vec(), |x| b(Bls::verify_multi_sig(x, &m, &[&v], g)) == "yes")
                    }
                    x => harness!("kind {}", x),
                }
            }
            "seed" => {
                let s: Vec<u8> = (0..us(&c["len"])).map(|i| i as u8).collect();
                match (SignKey::new(Some(&s)), SignKey::new(Some(&s))) {
                    (Ok(x), Ok(y)) => {
                        let mut t = s.clone();
                        t[0] ^= 1;
                        let z = SignKey::new(Some(&t)).unwrap();
                        json!(if x.as_bytes() == y.as_bytes() && x.as_bytes() != z.as_bytes() { "same" } else { "other" })
                    }
                    _ => json!("err"),
                }
            }
            x => harness!("op {}", x),
        }
    }
}
fn bn_record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let w = bn(13);
    let mut s = BnSys { k: w, made: vec![] };
    while rec.n < a.n {
        rec.call(&mut s, json!({"op":"new"}));
        let m = r.gen_range(1, 40);
        let n = r.gen_range(0, 9);
        let mut ks: Vec<usize> = vec![];
        let rogue = r.gen_range(0, 4) == 0;
        for _ in 0..n {
            let k = if rogue { r.gen_range(0, w.neg + 1) } else { r.gen_range(1, w.neg) };
            let m = if r.gen_range(0, 12) == 0 { r.gen_range(1, 40) } else { m };
            rec.call(&mut s, json!({"op":"sign","k":k,"m":m}));
            ks.push(k);
        }
        for _ in 0..4 {
            // shuffled, and sometimes wrong by one
            let mut q = ks.clone();
            for i in (1..q.len()).rev() {
                q.swap(i, r.gen_range(0, i + 1));
            }
            let x = r.gen_range(0, w.neg + 1);
            match r.gen_range(0, 6) {
                0 => q.push(x),
                1 => {
                    q.pop();
                }
                2 if !q.is_empty() => q[0] = x,
                3 if !q.is_empty() => q.push(q[0]),
                _ => {}
            }
            let (g, gk) = if r.gen_range(0, 8) == 0 { (r.gen_range(1, 3), r.gen_range(1, 3)) } else { (1, 1) };
            let m = if r.gen_range(0, 8) == 0 { r.gen_range(1, 40) } else { m };
            rec.call(&mut s, json!({"op":"multi","ks":q,"m":m,"g":g,"gk":gk}));
        }
        if n > 0 {
            let i = r.gen_range(1, n + 1);
            for k in &[ks[i - 1], r.gen_range(0, w.neg + 1)] {
                rec.call(&mut s, json!({"op":"verify","i":i,"k":k,"m":m,"g":1,"gk":1}));
                rec.call(&mut s, json!({"op":"pop","k0":ks[0],"k":k,"as":"pop","g0":1,"g":1,"gk":1}));
            }
        }
    }
}

// ------------------------------------------------------------------ BLS12-381
fn ctx(x: &Value) -> Option<&'static [u8]> {
    match us(x) {
        0 => None,
        1 => Some(b"another context"),
        _ => Some(ursa::signatures::bls::normal::PUBLICKEY_CONTEXT),
    }
}
macro_rules! bls12 {
    ($m:ident) => {
        mod $m {
            use super::{b, ctx, edit, js, msg, same, yn};
            use amcl_wrapper04::{field_elem::FieldElement, group_elem::GroupElement};
            use rand::Rng;
            use serde_json::{json, Value};
            use std::sync::OnceLock;
            use vh::*;
            use ursa::keys::{KeyGenOption, PrivateKey as UK, PublicKey as UP};
            use ursa::signatures::bls::$m::*;
            use ursa::signatures::SignatureScheme;

            pub struct World {
                pub neg: usize,
                gens: Vec<Generator>,
                sks: Vec<FieldElement>,
                pks: Vec<Vec<PublicKey>>,
            }
            pub fn world(neg: usize) -> &'static World {
                static B: OnceLock<World> = OnceLock::new();
                B.get_or_init(|| {
                    let g = Generator::generator();
                    let gens = vec![g.clone(), &g * &FieldElement::random()];
                    let mut sks: Vec<FieldElement> = (0..=neg).map(|i| if i == 0 { FieldElement::zero() } else { FieldElement::random() }).collect();
                    sks[neg] = FieldElement::zero() - &sks[1];
                    let pks = sks.iter().map(|k| gens.iter().map(|g| PublicKey::new(k, g)).collect()).collect();
                    World { neg, gens, sks, pks }
                })
            }
            #[derive(Clone)]
            pub struct B12 {
                pub w: &'static World,
                pub made: Vec<Signature>,
            }
            fn yes(x: bool) -> String {
                yn(x)
            }
            fn other(b: &[u8], f: impl Fn(&[u8]) -> Option<(Vec<u8>, bool)>) -> Value {
                match f(b) {
                    None => json!("no"),
                    Some((x, true)) => json!(if x == b { "same" } else { "changed" }),
                    Some((_, false)) => json!("no"),
                }
            }
            impl B12 {
                fn list(&self, v: &Value, g: &Value) -> Vec<PublicKey> {
                    arr(v).iter().map(|k| self.w.pks[us(k)][us(g) - 1].clone()).collect()
                }
                fn comb(&self) -> Signature {
                    match self.made.split_first() {
                        None => none(),
                        Some((a, r)) => {
                            let mut a = a.clone();
                            a.combine(r);
                            a
                        }
                    }
                }
            }
            /// Nothing combined: the identity.
            fn none() -> Signature {
                Signature::new(b"", None, &FieldElement::zero())
            }
            impl Sys for B12 {
                fn fork(&self) -> Self {
                    self.clone()
                }
                fn step(&mut self, c: &Value) -> Value {
                    let w = self.w;
                    let one = json!(1);
                    let gk = c.get("gk").unwrap_or(&one);
                    let g = &w.gens[us(c.get("g").unwrap_or(&one)) - 1];
                    let x = c.get("x").map_or(None, |x| ctx(x));
                    let pk = |k: &Value, g: &Value| &w.pks[us(k)][us(g) - 1];
                    match st(&c["op"]) {
                        "new" => {
                            self.made.clear();
                            json!("ok")
                        }
                        "sign" => {
                            self.made.push(Signature::new(&msg(us(&c["m"])), x, &w.sks[us(&c["k"])]));
                            json!("ok")
                        }
                        "signrk" => {
                            let l = self.list(&c["L"], &one);
                            self.made.push(Signature::new_with_rk_mitigation(&msg(us(&c["m"])), x, &w.sks[us(&c["k"])], us(&c["i"]) - 1, &l));
                            json!("ok")
                        }
                        "verify" => {
                            let p = pk(&c["k"], gk);
                            let m = if us(&c["m"]) == 0 { p.to_bytes() } else { msg(us(&c["m"])) };
                            let s = if us(&c["i"]) == 0 {
                                match Signature::from_bytes(&ProofOfPossession::new(p, None, &w.sks[us(&c["k"])]).to_bytes()) {
                                    Ok(s) => s,
                                    Err(_) => return json!("no"),
                                }
                            } else {
                                self.made[us(&c["i"]) - 1].clone()
                            };
                            let mut r = vec![yes(s.verify(&m, x, p, g)), yes(js(&s).verify(&m, x, &js(p), g))];
                            match (Signature::from_bytes(&s.to_bytes()), PublicKey::from_bytes(&p.to_bytes())) {
                                (Ok(s), Ok(p)) => r.push(yes(s.verify(&m, x, &p, g))),
                                _ => r.push("no".into()),
                            }
                            if us(&c["i"]) != 0 && x.is_none() && us(gk) == 1 && us(&c["g"]) == 1 {
                                r.push(yes(Bls::new().verify(&m, &s.to_bytes(), &UP(p.to_bytes())).unwrap_or(false)));
                            }
                            same(r)
                        }
                        "nork" => {
                            let a = AggregatedSignature::new(&self.made);
                            let m = msg(us(&c["m"]));
                            let ks = self.list(&c["ks"], gk);
                            let mut r = vec![yes(a.verify_no_rk(&m, x, &ks, g)), yes(js(&a).verify_no_rk(&m, x, &ks, g))];
                            match AggregatedSignature::from_bytes(&a.to_bytes()) {
                                Ok(a) => r.push(yes(a.verify_no_rk(&m, x, &ks, g))),
                                _ => r.push("no".into()),
                            }
                            same(r)
                        }
                        "agg" => {
                            let a = AggregatedSignature::new(&self.made);
                            let m = msg(us(&c["m"]));
                            let l = AggregatedPublicKey::new(&self.list(&c["L"], gk));
                            let mut r = vec![yes(a.verify(&m, x, &l, g)), yes(a.verify(&m, x, &js(&l), g))];
                            match AggregatedPublicKey::from_bytes(&l.to_bytes()) {
                                Ok(l) => r.push(yes(a.verify(&m, x, &l, g))),
                                _ => r.push("no".into()),
                            }
                            same(r)
                        }
                        "comb" => {
                            let mut ks = self.list(&c["ks"], gk);
                            if ks.is_empty() {
                                return json!("no");
                            }
                            let mut p = ks.remove(0);
                            p.combine(&ks);
                            json!(yes(self.comb().verify(&msg(us(&c["m"])), x, &p, g)))
                        }
                        "vmulti" => {
                            let ms: Vec<(Vec<u8>, &PublicKey)> = arr(&c["in"]).iter().map(|e| (msg(us(&e["m"])), pk(&e["k"], gk))).collect();
                            let v: Vec<(&[u8], &PublicKey)> = ms.iter().map(|(m, k)| (m.as_slice(), *k)).collect();
                            json!(yes(self.comb().verify_multi(&v, x, g)))
                        }
                        "batch" => {
                            let ms: Vec<(Vec<u8>, &Signature, &PublicKey)> = arr(&c["in"]).iter().map(|e| (msg(us(&e["m"])), &self.made[us(&e["i"]) - 1], pk(&e["k"], gk))).collect();
                            let v: Vec<(&[u8], &Signature, &PublicKey)> = ms.iter().map(|(m, s, k)| (m.as_slice(), *s, *k)).collect();
                            json!(yes(Signature::batch_verify(&v, x, g)))
                        }
                        "aggbatch" => {
                            let ms: Vec<(Vec<u8>, AggregatedSignature, AggregatedPublicKey)> = arr(&c["in"])
                                .iter()
                                .map(|e| {
                                    let q: Vec<Signature> = arr(&e["is"]).iter().map(|i| self.made[us(i) - 1].clone()).collect();
                                    (msg(us(&e["m"])), AggregatedSignature::new(&q), AggregatedPublicKey::new(&self.list(&e["L"], gk)))
                                })
                                .collect();
                            let v: Vec<(&[u8], &AggregatedSignature, &AggregatedPublicKey)> = ms.iter().map(|(m, s, k)| (m.as_slice(), s, k)).collect();
                            json!(yes(AggregatedSignature::batch_verify(&v, x, g)))
                        }
                        "pop" => {
                            let p = pk(&c["k"], gk);
                            let of = pk(&c["k0"], &c["g0"]);
                            let sk = &w.sks[us(&c["k0"])];
                            let q = if st(&c["as"]) == "pop" {
                                ProofOfPossession::new(of, ctx(&c["x0"]), sk)
                            } else {
                                match ProofOfPossession::from_bytes(&Signature::new(&of.to_bytes(), ctx(&c["x0"]), sk).to_bytes()) {
                                    Ok(p) => p,
                                    Err(_) => return json!("no"),
                                }
                            };
                            // the default context is the third one of the specification
                            let f = |q: &ProofOfPossession, p: &PublicKey| yes(q.verify(x, p, g));
                            let mut r = vec![f(&q, p), f(&js(&q), &js(p))];
                            match ProofOfPossession::from_bytes(&q.to_bytes()) {
                                Ok(q) => r.push(f(&q, p)),
                                _ => r.push("no".into()),
                            }
                            same(r)
                        }
                        "dec" => {
                            let (sk, p) = (&w.sks[2], &w.pks[2][0]);
                            let m = msg(5);
                            let s = Signature::new(&m, None, sk);
                            match st(&c["kind"]) {
                                "pk" => other(&edit(&p.to_bytes(), c), |b| PublicKey::from_bytes(b).ok().map(|q| (q.to_bytes(), s.verify(&m, None, &q, &w.gens[0])))),
                                "sig" => other(&edit(&s.to_bytes(), c), |b| Signature::from_bytes(b).ok().map(|q| (q.to_bytes(), q.verify(&m, None, p, &w.gens[0])))),
                                "pop" => other(&edit(&ProofOfPossession::new(p, None, sk).to_bytes(), c), |b| ProofOfPossession::from_bytes(b).ok().map(|q| (q.to_bytes(), q.verify(None, p, &w.gens[0])))),
                                "agg" => other(&edit(&AggregatedSignature::new(&[s.clone()]).to_bytes(), c), |b| AggregatedSignature::from_bytes(b).ok().map(|q| (q.to_bytes(), q.verify_no_rk(&m, None, &[p.clone()], &w.gens[0])))),
                                "apk" => {
                                    let l = vec![p.clone()];
                                    let s = AggregatedSignature::new(&[Signature::new_with_rk_mitigation(&m, None, sk, 0, &l)]);
                                    other(&edit(&AggregatedPublicKey::new(&l).to_bytes(), c), |b| AggregatedPublicKey::from_bytes(b).ok().map(|q| (q.to_bytes(), s.verify(&m, None, &q, &w.gens[0]))))
                                }
                                x => harness!("kind {}", x),
                            }
                        }
                        "scheme" => {
                            let n = us(&c["len"]);
                            let bytes: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
                            let s = Bls::new();
                            let m = msg(7);
                            let works = |p: &UP, k: &UK| b(s.verify(&m, &s.sign(&m, k).unwrap(), p)) == "yes" && b(s.verify(&msg(8), &s.sign(&m, k).unwrap(), p)) == "no";
                            match st(&c["t"]) {
                                "seed" => {
                                    let (p, k) = s.keypair(Some(KeyGenOption::UseSeed(bytes.clone()))).unwrap();
                                    let (p2, k2) = s.keypair(Some(KeyGenOption::UseSeed(bytes.clone()))).unwrap();
                                    let mut z = bytes.clone();
                                    z.push(1);
                                    let (p3, _) = s.keypair(Some(KeyGenOption::UseSeed(z))).unwrap();
                                    json!(if works(&p, &k) && p == p2 && k == k2 && p != p3 { "same" } else { "other" })
                                }
                                "sk" => {
                                    let (p, k) = s.keypair(None).unwrap();
                                    let (p2, k2) = s.keypair(Some(KeyGenOption::FromSecretKey(UK(k[..].to_vec())))).unwrap();
                                    json!(if p == p2 && k == k2 && works(&p2, &k) { "same" } else { "other" })
                                }
                                "random" => {
                                    let (p, k) = s.keypair(None).unwrap();
                                    let (p2, k2) = s.keypair(None).unwrap();
                                    let sizes = p.len() == Bls::public_key_size() && k.len() == Bls::private_key_size() && s.sign(&m, &k).unwrap().len() == Bls::signature_size();
                                    json!(if works(&p, &k) && works(&p2, &k2) && p != p2 && sizes { "same" } else { "other" })
                                }
                                "sklen" => {
                                    let a = s.keypair(Some(KeyGenOption::FromSecretKey(UK(bytes.clone()))));
                                    let z = s.sign(&m, &UK(bytes.clone()));
                                    match (a, z) {
                                        (Ok((p, k)), Ok(_)) => json!(if works(&p, &k) { "same" } else { "other" }),
                                        (Err(_), Err(_)) => json!("err"),
                                        _ => json!("split"),
                                    }
                                }
                                t => {
                                    let (p, k) = s.keypair(None).unwrap();
                                    let z = s.sign(&m, &k).unwrap();
                                    let fit = |v: &[u8]| {
                                        let mut v = v.to_vec();
                                        if v.len() == n {
                                            v[n - 1] ^= 1;
                                        }
                                        v.resize(n, 0);
                                        v
                                    };
                                    let r = if t == "pklen" { s.verify(&m, &z, &UP(fit(&p[..]))) } else { s.verify(&m, &fit(&z), &p) };
                                    json!(yes(r.unwrap_or(false)))
                                }
                            }
                        }
                        x => harness!("op {}", x),
                    }
                }
            }
            pub fn record(a: &Args) {
                let mut r = super::rng(a.seed);
                let mut rec = Recorder::new(&a.out);
                let w = world(9);
                let mut s = B12 { w, made: vec![] };
                while rec.n < a.n {
                    rec.call(&mut s, json!({"op":"new"}));
                    let n = r.gen_range(1, 7);
                    let rogue = r.gen_range(0, 3) == 0;
                    let ks: Vec<usize> = (0..n).map(|_| if rogue { r.gen_range(0, w.neg + 1) } else { r.gen_range(1, w.neg) }).collect();
                    let m = r.gen_range(1, 40);
                    let rk = r.gen::<bool>();
                    let x = if r.gen_range(0, 4) == 0 { 1 } else { 0 };
                    let distinct = !rk && r.gen::<bool>();
                    for i in 0..n {
                        if rk {
                            rec.call(&mut s, json!({"op":"signrk","k":ks[i],"m":m,"x":x,"L":ks,"i":i+1}));
                        } else {
                            let m = if distinct { m + i } else { m };
                            rec.call(&mut s, json!({"op":"sign","k":ks[i],"m":m,"x":x}));
                        }
                    }
                    let wrong = |r: &mut rand::rngs::StdRng, q: &mut Vec<usize>| {
                        let k = r.gen_range(0, w.neg + 1);
                        match r.gen_range(0, 8) {
                            0 => q.push(k),
                            1 => {
                                q.pop();
                            }
                            2 => q[0] = k,
                            3 => q.reverse(),
                            4 => {
                                let f = q[0];
                                q.push(f)
                            }
                            _ => {}
                        }
                    };
                    for _ in 0..3 {
                        let mut q = ks.clone();
                        wrong(&mut r, &mut q);
                        let mm = if r.gen_range(0, 8) == 0 { r.gen_range(1, 40) } else { m };
                        if rk {
                            rec.call(&mut s, json!({"op":"agg","L":q,"m":mm,"x":x,"g":1,"gk":1}));
                            let is: Vec<usize> = (1..=n).collect();
                            rec.call(&mut s, json!({"op":"aggbatch","in":[{"is":is,"m":m,"L":ks},{"is":is,"m":mm,"L":q}],"x":x,"g":1,"gk":1}));
                        } else if distinct {
                            let v: Vec<Value> = q.iter().enumerate().map(|(i, k)| json!({"m": m + i, "k": k})).collect();
                            rec.call(&mut s, json!({"op":"vmulti","in":v,"x":x,"g":1,"gk":1}));
                            let v: Vec<Value> = q.iter().enumerate().filter(|(i, _)| *i < n).map(|(i, k)| json!({"m": m + i, "k": k, "i": i + 1})).collect();
                            rec.call(&mut s, json!({"op":"batch","in":v,"x":x,"g":1,"gk":1}));
                        } else {
                            for op in &["nork", "comb"] {
                                rec.call(&mut s, json!({"op":op,"ks":q,"m":mm,"x":x,"g":1,"gk":1}));
                            }
                            rec.call(&mut s, json!({"op":"agg","L":q,"m":mm,"x":x,"g":1,"gk":1}));
                        }
                    }
                }
            }
        }
    };
}
bls12!(normal);
bls12!(small);

fn main() {
    let a = args();
    match (a.mode.as_str(), a.opt.get("what").map(|x| x.as_str()).unwrap_or("")) {
        ("replay", "bn") => {
            let w = bn(4);
            replay(&a, |_| BnSys { k: w, made: vec![] })
        }
        ("record", "bn") => bn_record(&a),
        ("replay", "normal") => {
            let w = normal::world(3);
            replay(&a, |_| normal::B12 { w, made: vec![] })
        }
        ("replay", "small") => {
            let w = small::world(3);
            replay(&a, |_| small::B12 { w, made: vec![] })
        }
        ("record", "normal") => normal::record(&a),
        ("record", "small") => small::record(&a),
        _ => panic!("HARNESS mode"),
    }
}
