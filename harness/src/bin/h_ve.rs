//! C22: Camenisch-Shoup verifiable encryption.
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use vh::*;
use zmix::verifiable_encryption::bn::BigNumber as B;
use zmix::verifiable_encryption::cl::hash::get_hash_as_int;
use zmix::verifiable_encryption::cs_verifiable_encryption::*;

const N: usize = 5;
struct Key {
    n: B,
    // for 0..=N messages
    pubs: Vec<CSEncPubkey>,
    secs: Vec<CSEncPrikey>,
}
struct World {
    keys: HashMap<String, Key>,
    cap: usize,
    fresh: Vec<B>,
}
fn big(i: u32) -> B {
    B::from_u32(i as usize).unwrap()
}
fn cp(b: &B) -> B {
    b.try_clone().unwrap()
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap_or_else(|e| panic!("json {}", e))
}
fn dup(c: &CSCiphertext) -> CSCiphertext {
    CSCiphertext { u: cp(&c.u), e: c.e.iter().map(cp).collect(), v: cp(&c.v) }
}
impl Key {
    /// what CSKeypair::new does, with primes of a size which can be found in reasonable time
    fn new(bits: usize) -> Key {
        let (p, q) = (B::generate_safe_prime(bits).unwrap(), B::generate_safe_prime(bits).unwrap());
        let n = p.mul(&q, None).unwrap();
        let mut ctx = B::new_context().unwrap();
        let g = || PaillierGroup::new(&n, &mut B::new_context().unwrap()).unwrap();
        let group = g();
        let q4 = group.modulus.rshift(2).unwrap();
        let x: Vec<B> = (0..N + 2).map(|_| q4.rand_range().unwrap()).collect();
        let y: Vec<B> = x.iter().map(|x| group.exponentiate_g(x, Some(&mut ctx)).unwrap()).collect();
        let inv2 = big(2).inverse(&n, None).unwrap().lshift1().unwrap();
        Key {
            pubs: (0..=N)
                .map(|k| CSEncPubkey {
                    n: cp(&n),
                    two_inv_times_2: cp(&inv2),
                    paillier_group: PaillierGroup { g: cp(&group.g), h: cp(&group.h), n_by_4: cp(&group.n_by_4), modulus: cp(&group.modulus) },
                    y1: y[..k].iter().map(cp).collect(),
                    y2: cp(&y[N]),
                    y3: cp(&y[N + 1]),
                })
                .collect(),
            secs: (0..=N).map(|k| CSEncPrikey { x1: x[..k].iter().map(cp).collect(), x2: cp(&x[N]), x3: cp(&x[N + 1]) }).collect(),
            n,
        }
    }
}
impl World {
    fn new(bits: usize, cap: usize) -> World {
        let keys: HashMap<String, Key> = ["a", "b"].iter().map(|k| (k.to_string(), Key::new(bits))).collect();
        // of the size of attributes, and below either modulus
        let fresh = (0..12).map(|_| B::rand(256).unwrap()).collect();
        World { keys, cap, fresh }
    }
    fn key(&self, k: &Value) -> &Key {
        &self.keys[st(k)]
    }
    fn val(&self, x: &str, n: &B) -> B {
        match x {
            "0" => big(0),
            "1" => big(1),
            "n" => cp(n),
            "n-1" => n.sub(&big(1)).unwrap(),
            "n+1" => n.add(&big(1)).unwrap(),
            "-1" => big(0).sub(&big(1)).unwrap(),
            r => cp(&self.fresh[r[1..].parse::<usize>().unwrap_or_else(|_| harness!("value {}", r))]),
        }
    }
    fn vals(&self, v: &Value, n: &B) -> Vec<B> {
        arr(v).iter().map(|x| self.val(st(x), n)).collect()
    }
}
/// the same number modulo n, as decryption should give it
fn canon(x: &B, n: &B) -> B {
    let r = x.modulus(n, None).unwrap();
    if r.is_negative() { r.add(n).unwrap() } else { r }
}
#[derive(Default)]
struct Ve {
    w: Option<Arc<World>>,
    ct: Option<CSCiphertext>,
    pf: Option<Proof>,
}
struct Proof {
    k: String,
    lbl: Vec<u8>,
    ct: CSCiphertext,
    t: CSCiphertext,
    bl: Vec<B>,
    r: B,
    chal: B,
    m: Vec<B>,
    how: String,
}
fn hash(t: &CSCiphertext, ct: &CSCiphertext) -> B {
    let mut v = vec![];
    for c in [t, ct].iter() {
        v.push(c.u.to_bytes().unwrap());
        v.push(c.v.to_bytes().unwrap());
        for e in &c.e {
            v.push(e.to_bytes().unwrap());
        }
    }
    get_hash_as_int(&v).unwrap()
}
fn edit(c: &CSCiphertext, e: &str, k: &Key) -> CSCiphertext {
    let mut c = dup(c);
    let md = &k.pubs[0].paillier_group.modulus;
    let rnd = || md.rand_range().unwrap();
    let l = c.e.len();
    match e {
        "json" => return rt(&c),
        "u" => c.u = rnd(),
        "v" => c.v = k.pubs[0].paillier_group.abs(&rnd(), None).unwrap(),
        "e" | "e1" => c.e[0] = rnd(),
        "el" => c.e[l - 1] = rnd(),
        "swap" => c.e.swap(0, l - 1),
        "drop" => drop(c.e.pop()),
        "dropfirst" => drop(c.e.remove(0)),
        "add" => c.e.push(rnd()),
        "empty" => c.e.clear(),
        "vneg" => c.v = md.sub(&c.v).unwrap(),
        "uneg" => c.u = md.sub(&c.u).unwrap(),
        "eneg" => c.e[0] = md.sub(&c.e[0]).unwrap(),
        "vplus" => c.v = md.add(&c.v).unwrap(),
        "uplus" => c.u = md.add(&c.u).unwrap(),
        "eplus" => c.e[0] = md.add(&c.e[0]).unwrap(),
        "u0" => c.u = big(0),
        "v0" => c.v = big(0),
        "e0" => c.e[0] = big(0),
        "u1" => c.u = big(1),
        "un" => c.u = cp(&k.n),
        "e1sq" => c.e[0] = c.e[0].sqr(None).unwrap().modulus(md, None).unwrap(),
        _ => {}
    }
    c
}
impl Ve {
    fn w(&self) -> Arc<World> {
        self.w.clone().unwrap()
    }
    fn chal(&self, c: &str, k: &Key, h: B) -> B {
        match c {
            "h" => h,
            "2" => big(2),
            x => self.w().val(x, &k.n),
        }
    }
    fn opened(&self, r: ursa_result::R<Vec<B>>, want: Vec<B>, n: &B) -> Value {
        match r {
            Err(_) => json!("err"),
            Ok(v) => {
                let want: Vec<B> = want.iter().map(|x| canon(x, n)).collect();
                json!(if v == want { "same" } else { "other" })
            }
        }
    }
}
mod ursa_result {
    pub type R<T> = Result<T, zmix::verifiable_encryption::errors::prelude::UrsaCryptoError>;
}
impl Sys for Ve {
    fn fork(&self) -> Self {
        Ve {
            w: self.w.clone(),
            ct: self.ct.as_ref().map(dup),
            pf: self.pf.as_ref().map(|p| Proof {
                k: p.k.clone(),
                lbl: p.lbl.clone(),
                ct: dup(&p.ct),
                t: dup(&p.t),
                bl: p.bl.iter().map(cp).collect(),
                r: cp(&p.r),
                chal: cp(&p.chal),
                m: p.m.iter().map(cp).collect(),
                how: p.how.clone(),
            }),
        }
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w();
        match st(&c["op"]) {
            "new" => json!(if CSKeypair::new(us(&c["n"])).is_ok() { "ok" } else { "err" }),
            "enc" => {
                let k = w.key(&c["k"]);
                self.ct = encrypt(&w.vals(&c["m"], &k.n), st(&c["lbl"]).as_bytes(), &k.pubs[w.cap]).ok();
                json!(if self.ct.is_some() { "ok" } else { "err" })
            }
            "dec" => {
                let (p, s) = (w.key(&c["pub"]), w.key(&c["sec"]));
                let ct = edit(self.ct.as_ref().unwrap_or_else(|| harness!("no ciphertext")), st(&c["e"]), p);
                let cap = w.cap - us(&c["trim"]);
                let r = if c["e"] == "json" {
                    decrypt(st(&c["lbl"]).as_bytes(), &ct, &rt(&p.pubs[w.cap]), &rt(&s.secs[cap]))
                } else {
                    decrypt(st(&c["lbl"]).as_bytes(), &ct, &p.pubs[w.cap], &s.secs[cap])
                };
                self.opened(r, w.vals(&c["want"], &p.n), &p.n)
            }
            "prove" => {
                let k = w.key(&c["k"]);
                let m = w.vals(&c["m"], &k.n);
                let bl: Vec<B> = (0..us(&c["bl"])).map(|_| k.n.rand_range().unwrap()).collect();
                let lie = st(&c["lie"]);
                let mut lbl = st(&c["lbl"]).as_bytes().to_vec();
                if lie == "lbl" {
                    lbl.push(b'!');
                }
                let (mut ct, t, r, r_tilde) = match encrypt_and_prove_phase_1(&m, &bl, &lbl, &k.pubs[w.cap]) {
                    Ok(x) => x,
                    Err(_) => {
                        self.pf = None;
                        return json!("err");
                    }
                };
                if t.e.len() != m.len() || ct.e.len() != m.len() {
                    return json!("misshapen");
                }
                match lie {
                    x => ct = edit(&ct, x, k),
                }
                let chal = self.chal(st(&c["chal"]), k, hash(&t, &ct));
                let r = if lie == "rt" { r.add(&big(1)).unwrap() } else { r };
                let r = encrypt_and_prove_phase_2(&r, &r_tilde, &chal, &k.pubs[w.cap], None).unwrap();
                self.pf = Some(Proof { k: st(&c["k"]).into(), lbl: st(&c["lbl"]).into(), ct, t, bl, r, chal, m, how: st(&c["chal"]).into() });
                json!("ok")
            }
            "verify" => {
                let p = self.pf.as_ref().unwrap_or_else(|| harness!("no proof"));
                let own = &w.keys[&p.k];
                let k = w.key(&c["k"]);
                let e = st(&c["e"]);
                // the messages as the verifier's main protocol has them
                let want = w.vals(&c["want"], &own.n);
                let mut s: Vec<B> = (0..want.len()).map(|i| p.bl[i].sub(&p.chal.mul(&want[i], None).unwrap()).unwrap()).collect();
                let mut r = cp(&p.r);
                let l = s.len();
                let one = big(1);
                match e {
                    "s1" => s[0] = s[0].add(&one).unwrap(),
                    "sl" => s[l - 1] = s[l - 1].add(&one).unwrap(),
                    "sswap" => s.swap(0, l - 1),
                    "sless" => drop(s.pop()),
                    "smore" => s.push(big(5)),
                    "snone" => s.clear(),
                    "rhat" => r = r.add(&one).unwrap(),
                    "rhatneg" => r = big(0).sub(&r).unwrap(),
                    _ => {}
                }
                let ct = edit(&p.ct, e, own);
                let ch = if st(&c["chal"]) == p.how { cp(&p.chal) } else { self.chal(st(&c["chal"]), k, B::rand(256).unwrap()) };
                match reconstruct_blindings_ciphertext(&ct, &s, &r, &ch, st(&c["lbl"]).as_bytes(), &k.pubs[w.cap]) {
                    Err(_) => json!("err"),
                    Ok(t) => json!(if t.u == p.t.u && t.e == p.t.e && t.v == p.t.v { "yes" } else { "no" }),
                }
            }
            "open" => {
                let p = self.pf.as_ref().unwrap_or_else(|| harness!("no proof"));
                let k = &w.keys[&p.k];
                let r = decrypt(&p.lbl, &p.ct, &k.pubs[w.cap], &k.secs[w.cap]);
                self.opened(r, p.m.iter().map(cp).collect(), &k.n)
            }
            "twice" => {
                let k = &w.keys["a"];
                let m = w.vals(&c["m"], &k.n);
                let bl: Vec<B> = m.iter().map(cp).collect();
                let mut seen: HashMap<String, usize> = HashMap::new();
                let mut put = |b: &B| {
                    let z = seen.entry(b.to_dec().unwrap()).or_insert(0);
                    *z += 1;
                    *z > 1
                };
                let mut again = false;
                for _ in 0..2 {
                    // commitments to the messages themselves: only the randomness tells them apart
                    let (ct, t, r, rt) = encrypt_and_prove_phase_1(&m, &bl, b"x", &k.pubs[w.cap]).unwrap();
                    let ct2 = encrypt(&m, b"x", &k.pubs[w.cap]).unwrap();
                    for c in [&ct, &t, &ct2].iter() {
                        again |= put(&c.u) | put(&c.v);
                        for e in &c.e {
                            again |= put(e);
                        }
                    }
                    again |= put(&r) | put(&rt);
                }
                json!(if again { "again" } else { "apart" })
            }
            "shift" => {
                let k = &w.keys["a"];
                let m = w.vals(&c["m"], &k.n);
                let lbl = b"label".to_vec();
                let cut = |ct: &CSCiphertext| {
                    let mut ct = dup(ct);
                    let mut l = ct.e.pop().unwrap().to_bytes().unwrap();
                    l.extend_from_slice(&lbl);
                    (ct, l)
                };
                if c["way"] == "dec" {
                    let (ct, l) = cut(&encrypt(&m, &lbl, &k.pubs[w.cap]).unwrap());
                    return json!(if decrypt(&l, &ct, &k.pubs[w.cap], &k.secs[w.cap]).is_ok() { "yes" } else { "err" });
                }
                let bl: Vec<B> = (0..m.len()).map(|_| k.n.rand_range().unwrap()).collect();
                let (ct, mut t, r, r_tilde) = encrypt_and_prove_phase_1(&m, &bl, &lbl, &k.pubs[w.cap]).unwrap();
                let (ct, l) = cut(&ct);
                t.e.pop();
                let ch = hash(&t, &ct);
                let r = encrypt_and_prove_phase_2(&r, &r_tilde, &ch, &k.pubs[w.cap], None).unwrap();
                let s: Vec<B> = (0..m.len() - 1).map(|i| bl[i].sub(&ch.mul(&m[i], None).unwrap()).unwrap()).collect();
                match reconstruct_blindings_ciphertext(&ct, &s, &r, &ch, &l, &k.pubs[w.cap]) {
                    Err(_) => json!("err"),
                    Ok(x) => json!(if hash(&x, &ct) == ch { "yes" } else { "no" }),
                }
            }
            x => harness!("op {}", x),
        }
    }
}
fn record(a: &Args, w: Arc<World>) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Ve { w: Some(w.clone()), ..Default::default() };
    let toks = ["0", "1", "n-1", "n", "n+1", "-1", "r1", "r2", "r3", "r4", "r5"];
    let edits = ["none", "none", "none", "json", "u", "v", "vneg", "uneg", "vplus", "uplus", "u0", "v0", "add"];
    let sed = ["rhat", "rhatneg", "smore"];
    let lbls = ["", "x", "y", "a longer label"];
    while rec.n < a.n {
        let k = *["a", "b"].choose(&mut r).unwrap();
        let n = r.gen_range(0, N + 2);
        let m: Vec<&str> = (0..n).map(|_| *toks.choose(&mut r).unwrap()).collect();
        let lbl = *lbls.choose(&mut r).unwrap();
        let vary = |r: &mut rand::rngs::StdRng| {
            let mut x = m.clone();
            if !x.is_empty() {
                let i = r.gen_range(0, x.len());
                let j = r.gen_range(0, x.len());
                match r.gen_range(0, 4) {
                    0 => x[i] = *toks.choose(r).unwrap(),
                    1 => x.swap(i, j),
                    _ => {}
                }
            }
            x
        };
        if r.gen() {
            if rec.call(&mut s, json!({"op":"enc","k":k,"m":m,"lbl":lbl})) != "ok" {
                continue;
            }
            for _ in 0..4 {
                let e = *edits.choose(&mut r).unwrap();
                let lbl = if r.gen_range(0, 4) == 0 { *lbls.choose(&mut r).unwrap() } else { lbl };
                let sec = if r.gen_range(0, 6) == 0 { "a" } else { k };
                let trim = if r.gen_range(0, 3) == 0 { r.gen_range(0, N) } else { 0 };
                rec.call(&mut s, json!({"op":"dec","pub":k,"sec":sec,"lbl":lbl,"e":e,"want":vary(&mut r),"trim":trim}));
            }
        } else {
            let bl = if r.gen_range(0, 8) == 0 { r.gen_range(0, N) } else { n };
            let lie = if n > 0 && r.gen_range(0, 6) == 0 { *["u", "e", "v", "vneg", "lbl", "rt"].choose(&mut r).unwrap() } else { "none" };
            if rec.call(&mut s, json!({"op":"prove","k":k,"m":m,"bl":bl,"lbl":lbl,"chal":"h","lie":lie})) != "ok" {
                continue;
            }
            for _ in 0..3 {
                let e = if lie != "none" { "none" } else if r.gen_range(0, 4) == 0 { *sed.choose(&mut r).unwrap() } else { *edits.choose(&mut r).unwrap() };
                let lbl = if r.gen_range(0, 4) == 0 { *lbls.choose(&mut r).unwrap() } else { lbl };
                let kk = if r.gen_range(0, 6) == 0 { "a" } else { k };
                rec.call(&mut s, json!({"op":"verify","k":kk,"lbl":lbl,"chal":"h","e":e,"want":vary(&mut r)}));
            }
            if lie == "none" {
                rec.call(&mut s, json!({"op":"open"}));
            }
        }
    }
}
fn main() {
    let a = args();
    let bits = a.opt.get("bits").map_or(192, |x| x.parse().unwrap());
    match a.mode.as_str() {
        "replay" => {
            let w = Arc::new(World::new(bits, 3));
            replay(&a, |_| Ve { w: Some(w.clone()), ..Default::default() })
        }
        _ => record(&a, Arc::new(World::new(bits, N))),
    }
}
