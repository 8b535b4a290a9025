//! C20: delegation chains and Groth signatures. C21: attribute tokens.
use amcl_wrapper::field_elem::{FieldElement as FE, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use amcl_wrapper::group_elem_g2::{G2Vector, G2};
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vh::*;
use zmix::signatures::delg_cred_cdd::attribute_token::*;
use zmix::signatures::delg_cred_cdd::errors::DelgCredCDDResult;
use zmix::signatures::delg_cred_cdd::groth_sig::*;
use zmix::signatures::delg_cred_cdd::issuer::*;

const K: usize = 3;
const YMAX: usize = 5;
struct World {
    y: usize,
    p1: Vec<Groth1SetupParams>,
    p2: Vec<Groth2SetupParams>,
    even: Vec<(Sigkey, EvenLevelVerkey)>,
    odd: Vec<(Sigkey, OddLevelVerkey)>,
    a1: Vec<G1>,
    a2: Vec<G2>,
}
impl World {
    fn new(y: usize) -> Self {
        let p1: Vec<_> = (0..=YMAX).map(|n| GrothS1::setup(n, b"chain")).collect();
        let p2: Vec<_> = (0..=YMAX).map(|n| GrothS2::setup(n, b"chain")).collect();
        World {
            y,
            even: (0..K + 1).map(|_| EvenLevelIssuer::keygen(&p1[y])).collect(),
            odd: (0..K + 1).map(|_| OddLevelIssuer::keygen(&p2[y])).collect(),
            a1: (0..10).map(|i: usize| G1::from_msg_hash(format!("attribute {}", i).as_bytes())).collect(),
            a2: (0..10).map(|i: usize| G2::from_msg_hash(format!("attribute {}", i).as_bytes())).collect(),
            p1,
            p2,
        }
    }
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap_or_else(|e| panic!("json {}", e))
}
fn verdict<E>(r: Result<bool, E>) -> Value {
    json!(match r {
        Ok(true) => "yes",
        Ok(false) => "no",
        Err(_) => "err",
    })
}
fn ok<T, E>(r: &Result<T, E>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}
/// Links and Groth signatures of both sorts, `$odd` those signed by even keys
macro_rules! sort {
    ($m:ident, $G:ident, $GV:ident, $R:ident, $Sig:ident, $S:ident, $Sp:ident, $Vk:ident, $Link:ident, $Issuer:ident, $p:ident, $a:ident, $signers:ident, $to:ident, $g:ident) => {
        mod $m {
            use super::*;
            pub fn edit(s: &$Sig, e: &str, w: &World, sk: &Sigkey, p: &$Sp) -> $Sig {
                let mut s = s.clone();
                let n = s.T.len();
                match e {
                    "rand" => s = s.randomize(&FE::random()),
                    "R" => s.R = $R::random(),
                    "S" => s.S = $G::random(),
                    "Rid" => s.R = $R::identity(),
                    "Sid" => s.S = $G::identity(),
                    "allid" => {
                        s.R = $R::identity();
                        s.S = $G::identity();
                        s.T = vec![$G::identity(); n].into();
                    }
                    "tless" => s.T = s.T.as_slice()[..n - 1].to_vec().into(),
                    "tmore" => s.T.push($G::identity()),
                    "tnone" => s.T = $GV::new(0),
                    "t0" => s.T[0] = $G::random(),
                    "tl" => s.T[n - 1] = $G::random(),
                    "tid" => s.T[0] = $G::identity(),
                    "swapt" => {
                        let mut t = s.T.as_slice().to_vec();
                        t.swap(0, 1);
                        s.T = t.into();
                    }
                    "neg" => s.R = s.R.negation(),
                    "other" => {
                        let m: Vec<$G> = (0..n).map(|_| w.$a[9].clone()).collect();
                        s = $Sig::new(&m, sk, p).unwrap();
                    }
                    _ => {}
                }
                s
            }
            /// a link by the issuer of the level before
            pub fn link(w: &World, lvl: usize, by: usize, to: usize, at: &[i64], e: &str) -> DelgCredCDDResult<$Link> {
                let p = &w.$p[w.y];
                let sk = &w.$signers[by].0;
                let v: Vec<$G> = at.iter().map(|i| w.$a[*i as usize].clone()).collect();
                let vk = if e == "key" { w.$to[(to + 1) % K].1.clone() } else { w.$to[to].1.clone() };
                let mut l = $Issuer::new(lvl - 1)?.delegate(v.into(), vk, sk, p)?;
                l.signature = edit(&l.signature, e, w, sk, p);
                let mut m = l.attributes.as_slice().to_vec();
                let n = m.len();
                match e {
                    "json" => return Ok(rt(&l)),
                    "attr" => m[0] = w.$a[8].clone(),
                    "drop" => {
                        m.remove(0);
                        l.signature.T = l.signature.T.as_slice()[1..].to_vec().into();
                    }
                    "add" => {
                        m.insert(0, w.$a[1].clone());
                        l.signature.T.insert(0, $G::random());
                    }
                    "swap" => m.swap(0, 1),
                    "key" => m[n - 1] = (w.$to[to].1).0.clone(),
                    "noattrs" => {
                        m.clear();
                        l.signature.T = $GV::new(0);
                    }
                    _ => {}
                }
                l.attributes = m.into();
                Ok(l)
            }
            pub fn groth(w: &World, c: &Value) -> Value {
                let y = us(&c["y"]);
                let p = &w.$p[y];
                let (sk, vk) = &w.$signers[0];
                let ms = |v: &Value| -> Vec<$G> { ints(v).into_iter().map(|i| w.$a[i as usize].clone()).collect() };
                let s = match $Sig::new(&ms(&c["m"]), sk, p) {
                    Ok(s) => edit(&s, st(&c["e"]), w, sk, p),
                    Err(_) => return json!("err"),
                };
                let vk = if c["key"] == "own" { vk } else { &w.$signers[1].1 };
                let other = match st(&c["par"]) {
                    "own" => p.clone(),
                    "other" => $S::setup(y, b"another"),
                    "short" => w.$p[y - 1].clone(),
                    "shift" => {
                        let mut p = p.clone();
                        let mut y = p.y.as_slice().to_vec();
                        y.rotate_left(1);
                        p.y = y.into();
                        p
                    }
                    x => harness!("par {}", x),
                };
                let n = ms(&c["n"]);
                verdict(if c["way"] == "one" { s.verify(&n, vk, &other) } else { s.verify_batch(&n, vk, &other) })
            }
            pub fn pok(w: &World, c: &Value) -> Value {
                let p = &w.$p[w.y];
                let (sk, vk) = &w.$signers[0];
                let ch = FE::random();
                let com = $Vk::initiate_proof_of_knowledge_of_sigkey(p);
                let mut pf = $Vk::finish_proof_of_knowledge_of_sigkey(com, sk.clone(), &ch);
                match st(&c["e"]) {
                    "com" => pf.commitment = $R::random(),
                    "resp" => pf.responses[0] = FE::random(),
                    "more" => pf.responses.push(FE::zero()),
                    "less" => pf.responses = FieldElementVector::new(0),
                    "swap" => {
                        let com = $Vk::initiate_proof_of_knowledge_of_sigkey(p);
                        pf.commitment = com.commitment.clone();
                    }
                    _ => {}
                }
                let id = $Vk($R::identity());
                let vk = match st(&c["key"]) {
                    "own" => vk,
                    "id" => &id,
                    _ => &w.$signers[1].1,
                };
                let ch = if c["chal"] == "same" { ch } else { FE::random() };
                verdict($Vk::verify_proof_of_knowledge_of_sigkey(&rt(&pf), vk, p, &ch))
            }
            /// attributes 1, a delegate's key, 2 under the key of another: cut after the first key
            pub fn cut(w: &World, lvl: usize, by: usize, to: usize) -> $Link {
                let p = &w.$p[YMAX];
                let a: Vec<$G> = vec![w.$a[1].clone(), (w.$to[to].1).0.clone(), w.$a[2].clone()];
                let mut l = $Issuer::new(lvl - 1).unwrap().delegate(a.into(), w.$to[to + 1].1.clone(), &w.$signers[by].0, p).unwrap();
                l.attributes = l.attributes.as_slice()[..2].to_vec().into();
                l.signature.T = l.signature.T.as_slice()[..2].to_vec().into();
                l
            }
        }
    };
}
sort!(s1, G1, G1Vector, G2, Groth1Sig, GrothS1, Groth1SetupParams, Groth1Verkey, CredLinkOdd, EvenLevelIssuer, p1, a1, even, odd, g2);
sort!(s2, G2, G2Vector, G1, Groth2Sig, GrothS2, Groth2SetupParams, Groth2Verkey, CredLinkEven, OddLevelIssuer, p2, a2, odd, even, g1);

struct Ch {
    w: Arc<World>,
    c: CredChain,
}
impl Ch {
    fn verify(&self, c: &Value) -> Value {
        let w = &self.w;
        let (mut ev, mut od) = (vec![], vec![]);
        for (i, k) in ints(&c["ks"]).into_iter().enumerate() {
            if i % 2 == 0 {
                ev.push(&w.even[k as usize].1);
            } else {
                od.push(&w.odd[k as usize].1);
            }
        }
        match st(&c["more"]) {
            "odd" => od.push(&w.odd[0].1),
            "even" => ev.push(&w.even[0].1),
            "lessodd" => drop(od.pop()),
            "lesseven" => drop(ev.pop()),
            _ => {}
        }
        let (p1, p2) = (&w.p1[w.y], &w.p2[w.y]);
        verdict(if c["way"] == "one" { self.c.verify_delegations(ev, od, p1, p2) } else { self.c.verify_delegations_batched(ev, od, p1, p2) })
    }
}
impl Sys for Ch {
    fn fork(&self) -> Self {
        Ch { w: self.w.clone(), c: self.c.clone() }
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w.clone();
        match st(&c["op"]) {
            "new" => {
                self.c = CredChain::new();
                json!("ok")
            }
            "issuer" => {
                let l = us(&c["lvl"]);
                if c["odd"] == "yes" {
                    ok(&OddLevelIssuer::new(l))
                } else {
                    ok(&EvenLevelIssuer::new(l))
                }
            }
            "extend" => {
                let (lvl, by, to) = (us(&c["lvl"]), us(&c["by"]), us(&c["to"]));
                let (at, e) = (ints(&c["at"]), st(&c["e"]));
                let before = self.c.size();
                let r = if lvl % 2 == 1 {
                    s1::link(&w, lvl, by, to, &at, e).and_then(|l| self.c.extend_with_odd(l))
                } else {
                    s2::link(&w, lvl, by, to, &at, e).and_then(|l| self.c.extend_with_even(l))
                };
                if self.c.size() != before + r.is_ok() as usize {
                    return json!("size");
                }
                ok(&r)
            }
            "misfit" => {
                let lvl = us(&c["lvl"]);
                if c["odd"] == true {
                    let mut l = s1::link(&w, 1, 0, 0, &[1], "none").unwrap();
                    l.level = lvl;
                    ok(&self.c.extend_with_odd(l))
                } else {
                    let mut l = s2::link(&w, 2, 0, 0, &[1], "none").unwrap();
                    l.level = lvl;
                    ok(&self.c.extend_with_even(l))
                }
            }
            "verify" => self.verify(c),
            "last" => {
                let (by, to) = (us(&c["by"]), us(&c["to"]));
                verdict(if us(&c["lvl"]) % 2 == 1 {
                    self.c.verify_last_odd_delegation(&w.odd[to].1, &w.even[by].1, &w.p1[w.y])
                } else {
                    self.c.verify_last_even_delegation(&w.even[to].1, &w.odd[by].1, &w.p2[w.y])
                })
            }
            "relabel" => {
                let i = us(&c["i"]);
                if i % 2 == 1 {
                    self.c.odd_links[i / 2].level = us(&c["lvl"]);
                } else {
                    self.c.even_links[i / 2 - 1].level = us(&c["lvl"]);
                }
                json!("ok")
            }
            "cuttail" => match self.c.get_truncated(us(&c["n"])) {
                Ok(t) => {
                    self.c = t;
                    json!("ok")
                }
                Err(_) => json!("err"),
            },
            "get" => {
                let i = us(&c["i"]);
                if c["odd"] == true {
                    ok(&self.c.get_odd_link(i))
                } else {
                    ok(&self.c.get_even_link(i))
                }
            }
            "json" => {
                self.c = rt(&self.c);
                json!("ok")
            }
            "groth" => if c["g"] == 1 { s1::groth(&w, c) } else { s2::groth(&w, c) },
            "pok" => if c["g"] == 1 { s1::pok(&w, c) } else { s2::pok(&w, c) },
            "cut" => {
                let (p1, p2) = (&w.p1[YMAX], &w.p2[YMAX]);
                let mut ch = CredChain::new();
                if c["lvl"] == 1 {
                    ch.extend_with_odd(s1::cut(&w, 1, 0, 0)).unwrap();
                    let (ev, od) = (vec![&w.even[0].1], vec![&w.odd[0].1]);
                    verdict(match st(&c["way"]) {
                        "one" => ch.verify_delegations(ev, od, p1, p2),
                        "batch" => ch.verify_delegations_batched(ev, od, p1, p2),
                        _ => ch.verify_last_odd_delegation(od[0], ev[0], p1),
                    })
                } else {
                    let l = EvenLevelIssuer::new(0).unwrap().delegate(vec![w.a1[1].clone()].into(), w.odd[0].1.clone(), &w.even[0].0, p1).unwrap();
                    ch.extend_with_odd(l).unwrap();
                    ch.extend_with_even(s2::cut(&w, 2, 0, 0)).unwrap();
                    let (ev, od) = (vec![&w.even[0].1, &w.even[0].1], vec![&w.odd[0].1]);
                    verdict(match st(&c["way"]) {
                        "one" => ch.verify_delegations(ev, od, p1, p2),
                        "batch" => ch.verify_delegations_batched(ev, od, p1, p2),
                        _ => ch.verify_last_even_delegation(ev[0], od[0], p2),
                    })
                }
            }
            x => harness!("op {}", x),
        }
    }
}
fn record(a: &Args, w: Arc<World>) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Ch { w: w.clone(), c: CredChain::new() };
    let edits = ["none", "none", "none", "none", "rand", "json", "attr", "drop", "add", "swap", "key", "R", "S", "Rid", "tless", "tmore", "t0", "tl", "noattrs", "other"];
    while rec.n < a.n {
        rec.call(&mut s, json!({"op":"new"}));
        let n = r.gen_range(1, 6);
        // mostly each signs for the next
        let ks: Vec<usize> = (0..=n).map(|_| r.gen_range(0, K)).collect();
        let honest = r.gen_range(0, 3) > 0;
        let (mut lvl, mut tries) = (1, 0);
        while lvl <= n && tries < 12 {
            tries += 1;
            let by = if r.gen_range(0, 12) == 0 { r.gen_range(0, K) } else { ks[lvl - 1] };
            let to = if r.gen_range(0, 12) == 0 { r.gen_range(0, K) } else { ks[lvl] };
            let l = r.gen_range(0, w.y + 1);
            let at: Vec<i64> = (0..l).map(|_| r.gen_range(1, 4)).collect();
            let mut e = if honest { "none" } else { *edits.choose(&mut r).unwrap() };
            if (l == 0 && (e == "attr" || e == "drop")) || (l < 2 && e == "swap") || l >= w.y {
                e = "none";
            }
            let shown = if r.gen_range(0, 10) == 0 { lvl + r.gen_range(0, 3) } else { lvl };
            if rec.call(&mut s, json!({"op":"extend","lvl":shown,"by":by,"to":to,"at":at,"e":e})) == "ok" {
                lvl += 1;
            }
            if r.gen_range(0, 3) == 0 {
                let way = *["one", "batch"].choose(&mut r).unwrap();
                rec.call(&mut s, json!({"op":"last","lvl":lvl,"by":by,"to":to,"way":way}));
            }
        }
        for _ in 0..4 {
            let mut k = ks[..=s.c.size().min(n)].to_vec();
            if r.gen_range(0, 3) == 0 {
                let i = r.gen_range(0, k.len());
                k[i] = r.gen_range(0, K);
            }
            let more = *["no", "no", "no", "no", "odd", "even", "lesseven"].choose(&mut r).unwrap();
            for way in ["one", "batch"].iter() {
                rec.call(&mut s, json!({"op":"verify","ks":k,"more":more,"way":way}));
            }
            match r.gen_range(0, 4) {
                0 => drop(rec.call(&mut s, json!({"op":"cuttail","n":r.gen_range(0, n + 2)}))),
                1 => drop(rec.call(&mut s, json!({"op":"json"}))),
                _ => {}
            }
        }
    }
}

/// C21. World for it is static, as tokens borrow their chains
struct Tk {
    w: &'static World,
    n: Vec<usize>,
    ch: &'static CredChain,
    tok: Option<(AttributeToken<'static>, AttributeTokenComm)>,
    sent: Option<(AttributeTokenComm, AttributeTokenResp, FE)>,
}
const TY: usize = 4;
fn sets(v: &Value) -> Vec<HashSet<usize>> {
    arr(v).iter().map(|s| ints(s).into_iter().map(|x| x as usize).collect()).collect()
}
impl Tk {
    fn new(w: &'static World) -> Self {
        Tk { w, n: vec![], ch: Box::leak(Box::new(CredChain::new())), tok: None, sent: None }
    }
    fn chain(w: &World, n: &[usize], bad: &str, same: bool) -> CredChain {
        let mut ch = CredChain::new();
        let len = n.len();
        for i in 1..=len {
            let at: Vec<i64> = (0..n[i - 1]).map(|j| if same { 1 } else { 1 + ((i + j) % 6) as i64 }).collect();
            // the faults of this link
            let (f, here) = match bad {
                "attr1" | "sig1" | "t1" | "by1" => (&bad[..bad.len() - 1], i == 1),
                "attrL" | "sigL" | "tL" | "byL" => (&bad[..bad.len() - 1], i == len),
                x => (x, i == 1),
            };
            let e = match if here { f } else { "" } {
                "attr" => "attr",
                "sig" => "S",
                "t" => "t0",
                "tless" => "tless",
                "tmore" => "tmore",
                "noattrs" => "noattrs",
                _ => "none",
            };
            let by = if here && f == "by" { 1 } else { 0 };
            let w = World { y: TY, p1: w.p1.clone(), p2: w.p2.clone(), even: w.even.clone(), odd: w.odd.clone(), a1: w.a1.clone(), a2: w.a2.clone() };
            if i % 2 == 1 {
                ch.extend_with_odd(s1::link(&w, i, by, 0, &at, e).unwrap()).unwrap();
            } else {
                ch.extend_with_even(s2::link(&w, i, by, 0, &at, e).unwrap()).unwrap();
            }
        }
        ch
    }
    fn make(&self, ch: &'static CredChain, r: Vec<HashSet<usize>>, way: &str, t: Option<AttributeToken<'static>>) -> DelgCredCDDResult<(AttributeToken<'static>, AttributeTokenComm)> {
        let (p1, p2) = (&self.w.p1[TY], &self.w.p2[TY]);
        let mut t = t.unwrap_or_else(|| AttributeToken::new(ch, p1, p2));
        let com = match way {
            "plain" => t.commitment(r)?,
            "setup" => t.commitment_with_precomputation_on_setup_params(r, &PrecompOnSetupParams::new(p1, p2))?,
            _ => t.commitment_with_precomputation(r, &PrecompOnSetupParams::new(p1, p2), &PrecompOnCredChain::new(ch, p1, p2)?)?,
        };
        Ok((t, com))
    }
    fn secret(&self, k: usize) -> &'static FE {
        if self.n.len() % 2 == 1 { &self.w.odd[k].0 } else { &self.w.even[k].0 }
    }
    fn keys(&self, how: &str) -> (Vec<&'static EvenLevelVerkey>, Vec<&'static OddLevelVerkey>) {
        let (mut ev, mut od): (Vec<&'static EvenLevelVerkey>, Vec<&'static OddLevelVerkey>) = (vec![], vec![]);
        // the key of the last level may be given or left out
        let up = if self.n.len() % 2 == 0 { self.n.len() } else { self.n.len().max(1) - 1 };
        for i in 1..=up {
            if i % 2 == 1 {
                od.push(&self.w.odd[0].1);
            } else {
                ev.push(&self.w.even[0].1);
            }
        }
        match how {
            "other" if !od.is_empty() => od[0] = &self.w.odd[1].1,
            "more" => {
                od.push(&self.w.odd[1].1);
                ev.push(&self.w.even[1].1);
            }
            "less" if self.n.len() > 1 => {
                if self.n.len() % 2 == 0 {
                    od.pop();
                } else {
                    ev.pop();
                }
            }
            _ => {}
        }
        (ev, od)
    }
}
fn ext(c: &Value) -> Vec<u8> {
    format!("nonce {}", c["nonce"]).into_bytes()
}
fn edit_com(c: &mut AttributeTokenComm, e: &str, n: &[usize]) {
    let l = n.len();
    let odd = l % 2 == 1;
    let hidden = (0..n[0]).find(|i| !c.odd_level_revealed_attributes[0].contains_key(i));
    fn other<T>(m: &mut HashMap<usize, T>, v: T) {
        let k = *m.keys().min().unwrap();
        m.insert(k, v);
    }
    match e {
        "attr1" => other(&mut c.odd_level_revealed_attributes[0], G1::random()),
        "attrL" if odd => other(&mut c.odd_level_revealed_attributes[l / 2], G1::random()),
        "attrL" => other(&mut c.even_level_revealed_attributes[l / 2 - 1], G2::random()),
        "r1" => c.odd_level_blinded_r[0] = G2::random(),
        "rL" if odd => c.odd_level_blinded_r[l / 2] = G2::random(),
        "rL" => c.even_level_blinded_r[l / 2 - 1] = G1::random(),
        "rid" => c.odd_level_blinded_r[0] = G2::identity(),
        "cs" => c.comms_s[l - 1] = c.comms_s[l - 1].pow(&FE::from(2)),
        "ct" => c.comms_t[l - 1][0] = c.comms_t[l - 1][0].pow(&FE::from(2)),
        "csless" => drop(c.comms_s.pop()),
        "csmore" => c.comms_s.push(c.comms_s[0].clone()),
        "ctless" => drop(c.comms_t.pop()),
        "ctmore" => c.comms_t.push(c.comms_t[0].clone()),
        "ct1less" => drop(c.comms_t[0].pop()),
        "ct1more" => {
            let x = c.comms_t[0][0].clone();
            c.comms_t[0].push(x)
        }
        "oless" => drop(c.odd_level_revealed_attributes.pop()),
        "eless" => drop(c.even_level_revealed_attributes.pop()),
        "rless" => c.odd_level_blinded_r = c.odd_level_blinded_r.as_slice()[1..].to_vec().into(),
        "rmore" => c.odd_level_blinded_r.push(G2::random()),
        "extra" => drop(c.odd_level_revealed_attributes[0].insert(hidden.unwrap(), G1::random())),
        "extrakey" => drop(c.odd_level_revealed_attributes[0].insert(n[0], G1::random())),
        "extrafar" => drop(c.odd_level_revealed_attributes[0].insert(100, G1::random())),
        "miss" => {
            let k = *c.odd_level_revealed_attributes[0].keys().min().unwrap();
            c.odd_level_revealed_attributes[0].remove(&k);
        }
        "swapodd" => c.odd_level_revealed_attributes.swap(0, 1),
        _ => {}
    }
}
fn set1(v: &mut G1Vector, i: usize) {
    v[i] = G1::random();
}
fn set2(v: &mut G2Vector, i: usize) {
    v[i] = G2::random();
}
fn cut1(v: &mut G1Vector) {
    let n = v.len();
    *v = v.as_slice()[..n - 1].to_vec().into();
}
fn edit_resp(r: &mut AttributeTokenResp, e: &str, n: &[usize]) {
    let l = n.len();
    let odd = l % 2 == 1;
    match e {
        "csk" => r.resp_csk = FE::random(),
        "vk1" => set1(&mut r.odd_level_resp_vk, 0),
        "vkL" if odd => set2(&mut r.even_level_resp_vk, (l - 1) / 2 - 1),
        "vkL" => set1(&mut r.odd_level_resp_vk, (l - 1) / 2),
        "vkless" => cut1(&mut r.odd_level_resp_vk),
        "vkmore" => r.odd_level_resp_vk.push(G1::random()),
        "s1" => set1(&mut r.odd_level_resp_s, 0),
        "sL" if odd => set1(&mut r.odd_level_resp_s, l / 2),
        "sL" => set2(&mut r.even_level_resp_s, l / 2 - 1),
        "sless" => cut1(&mut r.odd_level_resp_s),
        "smore" => r.odd_level_resp_s.push(G1::random()),
        "t1" => set1(&mut r.odd_level_resp_t[0], 0),
        "tL" if odd => set1(&mut r.odd_level_resp_t[l / 2], n[l - 1]),
        "tL" => set2(&mut r.even_level_resp_t[l / 2 - 1], n[l - 1]),
        "tk" => set1(&mut r.odd_level_resp_t[0], n[0]),
        "tless" => drop(r.odd_level_resp_t.pop()),
        "tmore" => r.odd_level_resp_t.push(G1Vector::new(0)),
        "t1less" => cut1(&mut r.odd_level_resp_t[0]),
        "t1more" => r.odd_level_resp_t[0].push(G1::identity()),
        "a1" => set1(&mut r.odd_level_resp_a[0], 0),
        "aL" if odd => set1(&mut r.odd_level_resp_a[l / 2], 0),
        "aL" => set2(&mut r.even_level_resp_a[l / 2 - 1], 0),
        "a1less" => cut1(&mut r.odd_level_resp_a[0]),
        "a1more" => r.odd_level_resp_a[0].push(G1::identity()),
        "aless" => drop(r.odd_level_resp_a.pop()),
        "amore" => r.odd_level_resp_a.push(G1Vector::new(0)),
        _ => {}
    }
}
impl Sys for Tk {
    fn fork(&self) -> Self {
        Tk { w: self.w, n: self.n.clone(), ch: self.ch, tok: self.tok.clone(), sent: self.sent.clone() }
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w;
        let l = self.n.len();
        match st(&c["op"]) {
            "chain" => {
                let n: Vec<usize> = ints(&c["n"]).into_iter().map(|x| x as usize).collect();
                *self = Tk::new(w);
                self.ch = Box::leak(Box::new(Tk::chain(w, &n, st(&c["bad"]), false)));
                self.n = n;
                json!("ok")
            }
            "commit" => {
                let had = self.tok.take().map(|t| t.0);
                self.sent = None;
                let r = self.make(self.ch, sets(&c["r"]), st(&c["way"]), had);
                let o = ok(&r);
                self.tok = r.ok();
                o
            }
            // on a chain that does not hang together
            "broken" => match self.make(self.ch, sets(&c["r"]), st(&c["way"]), None) {
                Ok((t, com)) => {
                    let (ev, od) = self.keys("right");
                    ok(&t.response(&com, self.secret(0), &FE::random(), ev, od))
                }
                Err(_) => json!("err"),
            },
            "respond" => {
                let (ev, od) = self.keys(st(&c["keys"]));
                let sk = self.secret(if c["sk"] == "own" { 0 } else { 1 });
                let ipk = &w.even[if c["ipk"] == "root" { 0 } else { 1 }].1;
                let (t, mut com) = match &self.tok {
                    Some((t, com)) => (t.clone(), com.clone()),
                    None => {
                        // one never committed with, the commitment of another
                        let (_, com) = self.make(self.ch, vec![HashSet::new(); l], "plain", None).unwrap();
                        (AttributeToken::new(self.ch, &w.p1[TY], &w.p2[TY]), com)
                    }
                };
                edit_com(&mut com, st(&c["lie"]), &self.n);
                let ch = AttributeToken::gen_challenge(&com, ipk, ext(c));
                match t.response(&com, sk, &ch, ev, od) {
                    Ok(r) => {
                        self.sent = Some((com, r, ch));
                        json!("ok")
                    }
                    Err(_) => json!("err"),
                }
            }
            "check" => {
                let (com, resp, ch) = self.sent.as_ref().unwrap_or_else(|| harness!("nothing sent"));
                let (mut com, mut resp, mut ch) = (com.clone(), resp.clone(), ch.clone());
                let e = st(&c["e"]);
                edit_com(&mut com, e, &self.n);
                edit_resp(&mut resp, e, &self.n);
                match e {
                    "json" => {
                        resp = rt(&resp);
                    }
                    "chal" => ch = FE::random(),
                    _ => {}
                }
                let ipk = &w.even[if c["ipk"] == "root" { 0 } else { 1 }].1;
                let (mut p1, mut p2) = (w.p1[TY].clone(), w.p2[TY].clone());
                match st(&c["par"]) {
                    "other1" => p1 = GrothS1::setup(TY, b"another"),
                    "other2" => p2 = GrothS2::setup(TY, b"another"),
                    "short" => {
                        p1 = w.p1[self.n[0]].clone();
                        p2 = w.p2[self.n[0]].clone();
                    }
                    _ => {}
                }
                if c["par"] == "other2" && l == 1 {
                    // no link under these: they do not matter
                    p1.g1 = G1::random();
                }
                let k = us(&c["L"]);
                let r = sets(&c["r"]);
                let got = if c["way"] == "plain" {
                    AttributeToken::reconstruct_commitment(k, &com, &resp, &ch, r, ipk, &p1, &p2)
                } else {
                    let pre = if p1.y.len() > 0 && p2.y.len() > 0 {
                        PrecompForCommitmentReconstitution::new(ipk, &p1, &p2)
                    } else {
                        PrecompForCommitmentReconstitution::new(ipk, &w.p1[TY], &w.p2[TY])
                    };
                    AttributeToken::reconstruct_commitment_with_precomputed_vals(k, &com, &resp, &ch, r, &p1, &p2, &pre)
                };
                match got {
                    Ok(x) => json!(if AttributeToken::gen_challenge(&x, ipk, ext(c)) == ch { "yes" } else { "no" }),
                    Err(_) => json!("err"),
                }
            }
            "census" => {
                let ch: &'static CredChain = Box::leak(Box::new(Tk::chain(w, &self.n, "none", true)));
                let mut seen: HashMap<String, String> = HashMap::new();
                let mut all: Vec<(String, Value)> = vec![("chain".into(), json!(ch))];
                for i in 0..2 {
                    let (t, com) = match self.make(ch, sets(&c["r"]), st(&c["way"]), None) {
                        Ok(x) => x,
                        Err(_) => return json!("err"),
                    };
                    let (ev, od) = self.keys("right");
                    let x = AttributeToken::gen_challenge(&com, &w.even[0].1, vec![]);
                    let resp = t.response(&com, self.secret(0), &x, ev, od).unwrap();
                    let mut com = json!(com);
                    for k in ["odd_level_revealed_attributes", "even_level_revealed_attributes"].iter() {
                        com[k] = Value::Null;
                    }
                    all.push((format!("commitment {}", i), com));
                    all.push((format!("response {}", i), json!(resp)));
                }
                // everything long enough to be an element
                fn walk(at: String, v: &Value, f: &mut dyn FnMut(String, &str)) {
                    match v {
                        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| walk(format!("{} {}", at, i), x, f)),
                        Value::Object(o) => o.iter().for_each(|(i, x)| walk(format!("{} {}", at, i), x, f)),
                        Value::String(s) if s.len() > 20 => f(at, s),
                        _ => {}
                    }
                }
                let mut same = None;
                for (n, v) in &all {
                    walk(n.clone(), v, &mut |at, s| {
                        if let Some(o) = seen.insert(s.to_string(), at.clone()) {
                            if !(o.starts_with("chain") && at.starts_with("chain")) {
                                same = Some(format!("{} = {}", o, at));
                            }
                        }
                    });
                }
                if seen.len() < 5 {
                    harness!("census saw {}", seen.len());
                }
                json!(same.unwrap_or_else(|| "apart".into()))
            }
            x => harness!("op {}", x),
        }
    }
}
fn record_tokens(a: &Args, w: &'static World) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Tk::new(w);
    let vals = ["csk", "s1", "sL", "t1", "tL", "tk", "r1", "rL", "rid", "chal", "cs", "ct", "csless", "ctmore", "ct1less", "ct1more", "oless", "rless", "vkmore", "sless", "tless", "t1less", "t1more", "a1more", "aless", "extrakey", "extrafar", "json", "json"];
    while rec.n < a.n {
        let l = r.gen_range(1, 5);
        let n: Vec<usize> = (0..l).map(|_| r.gen_range(0, TY)).collect();
        let bad = if r.gen_range(0, 3) == 0 { *["sig1", "sigL", "t1", "tL", "by1", "byL"].choose(&mut r).unwrap() } else { "none" };
        rec.call(&mut s, json!({"op":"chain","n":n,"bad":bad}));
        let mut pick = |r: &mut rand::rngs::StdRng| -> Vec<Vec<usize>> { n.iter().map(|k| (0..*k).filter(|_| r.gen()).collect()).collect() };
        for _ in 0..r.gen_range(1, 3) {
            let mut x = pick(&mut r);
            if r.gen_range(0, 8) == 0 {
                let i = r.gen_range(0, l);
                x[i].push(n[i] + r.gen_range(0, 2));
            }
            let way = *["plain", "setup", "full"].choose(&mut r).unwrap();
            if rec.call(&mut s, json!({"op":"commit","r":x,"way":way})) != "ok" {
                continue;
            }
            let sk = if r.gen_range(0, 8) == 0 { "other" } else { "own" };
            let keys = *["right", "right", "right", "right", "other", "more", "less"].choose(&mut r).unwrap();
            let lie = if r.gen_range(0, 8) == 0 { *["r1", "rL", "cs", "ct"].choose(&mut r).unwrap() } else { "none" };
            if rec.call(&mut s, json!({"op":"respond","sk":sk,"keys":keys,"lie":lie,"nonce":1,"ipk":"root"})) != "ok" {
                continue;
            }
            for k in 0..4 {
                let y = if r.gen_range(0, 4) == 0 { pick(&mut r) } else { x.clone() };
                let e = if k > 1 { *vals.choose(&mut r).unwrap() } else { "none" };
                let way = *["plain", "pre"].choose(&mut r).unwrap();
                rec.call(&mut s, json!({"op":"check","L":l,"r":y,"nonce":1,"ipk":"root","par":"own","way":way,"e":e}));
            }
        }
    }
}
fn main() {
    let a = args();
    let y = a.opt.get("y").map_or(3, |x| x.parse().unwrap());
    let w = Arc::new(World::new(y));
    if a.opt.get("what").map_or(false, |x| x == "token") {
        let w: &'static World = Box::leak(Box::new(World::new(TY)));
        return match a.mode.as_str() {
            "replay" => replay(&a, |_| Tk::new(w)),
            _ => record_tokens(&a, w),
        };
    }
    match a.mode.as_str() {
        "replay" => replay(&a, |_| Ch { w: w.clone(), c: CredChain::new() }),
        _ => record(&a, w),
    }
}
