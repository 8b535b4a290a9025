//! C23: proofs of knowledge of the exponents of a vector commitment.
use amcl_wrapper::field_elem::FieldElement as FE;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use bbs::pok_vc::prelude as bvc;
use bbs::prelude::*;
use ff_zeroize::{Field, PrimeField};
use pairing_plus::bls12_381::{Fr, FrRepr, G1 as BG1};
use pairing_plus::serdes::SerDes;
use pairing_plus::CurveProjective;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;
use vh::*;
use zmix::commitments::pok_vc as zvc;

const RAND: i64 = 99;
/// one library and group
trait Lib: Send + Sync + 'static {
    type P: Clone + Send + Sync + PartialEq;
    type S: Clone + Send + Sync + PartialEq;
    type Proof: Clone + Send + Sync;
    fn rp() -> Self::P;
    fn rs() -> Self::S;
    fn id() -> Self::P;
    fn num(i: i64) -> Self::S;
    fn add(a: &Self::P, b: &Self::P) -> Self::P;
    fn neg(a: &Self::P) -> Self::P;
    fn mul(a: &Self::P, b: &Self::S) -> Self::P;
    fn sadd(a: &Self::S, b: &Self::S) -> Self::S;
    fn pbytes(a: &Self::P) -> Vec<u8>;
    fn sbytes(a: &Self::S) -> Vec<u8>;
    fn com(g: &[Self::P], s: &[Self::S]) -> Self::P;
    /// blindings committed to, and the outcome of `last` with the challenge from `chal`
    fn prove(g: &[Self::P], b: &[Option<Self::S>], s: &[Self::S], chal: &dyn Fn(&dyn Fn(&[u8]) -> Self::S) -> Self::S) -> Result<(Self::Proof, Self::S), ()>;
    fn index(g: &[Self::P], b: &[Option<Self::S>], i: usize) -> Result<(Self::P, Self::S), ()>;
    fn parts(p: &Self::Proof) -> (Self::P, Vec<Self::S>);
    fn make(p: &Self::P, s: &[Self::S]) -> Self::Proof;
    fn verify(p: &Self::Proof, g: &[Self::P], c: &Self::P, ch: &Self::S) -> Result<bool, ()>;
    fn complete(p: &Self::Proof, g: &[Self::P], c: &Self::P, ch: &Self::S, n: &[u8]) -> Result<bool, ()>;
    fn contrib(_: &Self::Proof, _: &[Self::P], _: &Self::P, _: &Self::S) -> Result<Self::P, ()> {
        harness!("contrib")
    }
    fn to(p: &Self::Proof, form: &str) -> Vec<u8>;
    fn from(b: &[u8], form: &str) -> Result<Self::Proof, ()>;
    fn json(p: &Self::Proof) -> Self::Proof;
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap_or_else(|e| panic!("json {}", e))
}
macro_rules! zlib {
    ($name:ident, $G:ty, $V:ty, $PC:ident, $Pf:ident) => {
        struct $name;
        impl $name {
            fn committing(g: &[$G], b: &[Option<FE>]) -> zvc::$PC {
                let mut p = zvc::$PC::new();
                for (i, (g, b)) in g.iter().zip(b).enumerate() {
                    assert_eq!(p.commit(g, b.as_ref()), i, "position committed");
                }
                p
            }
        }
        impl Lib for $name {
            type P = $G;
            type S = FE;
            type Proof = zvc::$Pf;
            fn rp() -> $G {
                <$G>::random()
            }
            fn rs() -> FE {
                FE::random()
            }
            fn id() -> $G {
                <$G>::identity()
            }
            fn num(i: i64) -> FE {
                if i < 0 { FE::from(-i as i32).negation() } else { FE::from(i as i32) }
            }
            fn add(a: &$G, b: &$G) -> $G {
                a + b
            }
            fn neg(a: &$G) -> $G {
                // coordinates of a bare negation are not reduced, which its JSON cannot carry
                <$G>::from_bytes(&a.negation().to_bytes()).unwrap()
            }
            fn mul(a: &$G, b: &FE) -> $G {
                a * b
            }
            fn sadd(a: &FE, b: &FE) -> FE {
                a + b
            }
            fn pbytes(a: &$G) -> Vec<u8> {
                a.to_bytes()
            }
            fn sbytes(a: &FE) -> Vec<u8> {
                a.to_bytes()
            }
            fn com(g: &[$G], s: &[FE]) -> $G {
                g.iter().zip(s).fold(<$G>::identity(), |a, (g, s)| a + g * s)
            }
            fn prove(g: &[$G], b: &[Option<FE>], s: &[FE], chal: &dyn Fn(&dyn Fn(&[u8]) -> FE) -> FE) -> Result<(zvc::$Pf, FE), ()> {
                let p = Self::committing(g, b).finish();
                let c = chal(&|e| p.gen_challenge(e.to_vec()));
                let r = p.gen_proof(&c, s).map_err(|_| ())?;
                Ok((r, c))
            }
            fn index(g: &[$G], b: &[Option<FE>], i: usize) -> Result<($G, FE), ()> {
                Self::committing(g, b).get_index(i).map(|(g, b)| (g.clone(), b.clone())).map_err(|_| ())
            }
            fn parts(p: &zvc::$Pf) -> ($G, Vec<FE>) {
                (p.commitment.clone(), p.responses.iter().cloned().collect())
            }
            fn make(p: &$G, s: &[FE]) -> zvc::$Pf {
                zvc::$Pf { commitment: p.clone(), responses: s.to_vec().into() }
            }
            fn verify(p: &zvc::$Pf, g: &[$G], c: &$G, ch: &FE) -> Result<bool, ()> {
                p.verify(g, c, ch).map_err(|_| ())
            }
            fn complete(p: &zvc::$Pf, g: &[$G], c: &$G, ch: &FE, n: &[u8]) -> Result<bool, ()> {
                p.verify_complete_proof(g, c, ch, n).map_err(|_| ())
            }
            fn to(p: &zvc::$Pf, _: &str) -> Vec<u8> {
                p.to_bytes()
            }
            fn from(b: &[u8], _: &str) -> Result<zvc::$Pf, ()> {
                zvc::$Pf::from_bytes(b).map_err(|_| ())
            }
            fn json(p: &zvc::$Pf) -> zvc::$Pf {
                rt(p)
            }
        }
    };
}
zlib!(Z1, amcl_wrapper::group_elem_g1::G1, amcl_wrapper::group_elem_g1::G1Vector, ProverCommittingG1, ProofG1);
zlib!(Z2, amcl_wrapper::group_elem_g2::G2, amcl_wrapper::group_elem_g2::G2Vector, ProverCommittingG2, ProofG2);
struct B1;
fn ser<T: SerDes>(x: &T) -> Vec<u8> {
    let mut o = vec![];
    x.serialize(&mut o, true).unwrap();
    o
}
impl B1 {
    fn committing(g: &[BG1], b: &[Option<Fr>]) -> bvc::ProverCommittingG1 {
        let mut p = bvc::ProverCommittingG1::new();
        for (i, (g, b)) in g.iter().zip(b).enumerate() {
            let g = GeneratorG1::from(*g);
            let k = match b {
                Some(b) => p.commit_with(&g, &SignatureMessage::from(*b)),
                None => p.commit(&g),
            };
            assert_eq!(k, i, "position committed");
        }
        p
    }
    fn gs(g: &[BG1]) -> Vec<GeneratorG1> {
        g.iter().map(|g| GeneratorG1::from(*g)).collect()
    }
}
impl Lib for B1 {
    type P = BG1;
    type S = Fr;
    type Proof = bvc::ProofG1;
    fn rp() -> BG1 {
        *GeneratorG1::random().as_ref()
    }
    fn rs() -> Fr {
        *ProofNonce::random().as_ref()
    }
    fn id() -> BG1 {
        BG1::zero()
    }
    fn num(i: i64) -> Fr {
        let mut f = Fr::from_repr(FrRepr::from(i.abs() as u64)).unwrap();
        if i < 0 {
            f.negate();
        }
        f
    }
    fn add(a: &BG1, b: &BG1) -> BG1 {
        let mut a = *a;
        a.add_assign(b);
        a
    }
    fn neg(a: &BG1) -> BG1 {
        let mut a = *a;
        a.negate();
        a
    }
    fn mul(a: &BG1, b: &Fr) -> BG1 {
        let mut a = *a;
        a.mul_assign(*b);
        a
    }
    fn sadd(a: &Fr, b: &Fr) -> Fr {
        let mut a = *a;
        a.add_assign(b);
        a
    }
    fn pbytes(a: &BG1) -> Vec<u8> {
        let mut o = vec![];
        a.serialize(&mut o, false).unwrap();
        o
    }
    fn sbytes(a: &Fr) -> Vec<u8> {
        ser(a)
    }
    fn com(g: &[BG1], s: &[Fr]) -> BG1 {
        // all three ways of the library to build a commitment agree
        let want = g.iter().zip(s).fold(BG1::zero(), |a, (g, s)| Self::add(&a, &Self::mul(g, s)));
        let mut b = CommitmentBuilder::new();
        for (g, s) in g.iter().zip(s) {
            b.add(&GeneratorG1::from(*g), &SignatureMessage::from(*s));
        }
        assert!(*b.finalize().as_ref() == want && *Commitment::new(g, s).as_ref() == want, "commitment");
        want
    }
    fn prove(g: &[BG1], b: &[Option<Fr>], s: &[Fr], chal: &dyn Fn(&dyn Fn(&[u8]) -> Fr) -> Fr) -> Result<(bvc::ProofG1, Fr), ()> {
        let p = Self::committing(g, b).finish();
        let c = chal(&|e| *p.gen_challenge(e).as_ref());
        let s: Vec<SignatureMessage> = s.iter().map(|s| SignatureMessage::from(*s)).collect();
        let r = p.gen_proof(&ProofChallenge::from(c), &s).map_err(|_| ())?;
        Ok((r, c))
    }
    fn index(g: &[BG1], b: &[Option<Fr>], i: usize) -> Result<(BG1, Fr), ()> {
        Self::committing(g, b).get_index(i).map(|(g, b)| (*g.as_ref(), *b.as_ref())).map_err(|_| ())
    }
    fn parts(p: &bvc::ProofG1) -> (BG1, Vec<Fr>) {
        let b = p.to_bytes_compressed_form();
        let mut c = std::io::Cursor::new(&b);
        let g = BG1::deserialize(&mut c, true).unwrap();
        let n = (b.len() - 52) / 32;
        c.set_position(52);
        (g, (0..n).map(|_| Fr::deserialize(&mut c, true).unwrap()).collect())
    }
    fn make(p: &BG1, s: &[Fr]) -> bvc::ProofG1 {
        let mut b = ser(p);
        b.extend_from_slice(&(s.len() as u32).to_be_bytes());
        for s in s {
            b.extend(ser(s));
        }
        bvc::ProofG1::from_bytes_compressed_form(b).unwrap()
    }
    fn verify(p: &bvc::ProofG1, g: &[BG1], c: &BG1, ch: &Fr) -> Result<bool, ()> {
        p.verify(&Self::gs(g), &Commitment::from(*c), &ProofChallenge::from(*ch)).map_err(|_| ())
    }
    fn complete(p: &bvc::ProofG1, g: &[BG1], c: &BG1, ch: &Fr, n: &[u8]) -> Result<bool, ()> {
        p.verify_complete_proof(&Self::gs(g), &Commitment::from(*c), &ProofChallenge::from(*ch), n).map_err(|_| ())
    }
    fn contrib(p: &bvc::ProofG1, g: &[BG1], c: &BG1, ch: &Fr) -> Result<BG1, ()> {
        p.get_challenge_contribution(&Self::gs(g), &Commitment::from(*c), &ProofChallenge::from(*ch)).map(|g| *g.as_ref()).map_err(|_| ())
    }
    fn to(p: &bvc::ProofG1, form: &str) -> Vec<u8> {
        if form == "c" { p.to_bytes_compressed_form() } else { p.to_bytes_uncompressed_form() }
    }
    fn from(b: &[u8], form: &str) -> Result<bvc::ProofG1, ()> {
        if form == "c" { bvc::ProofG1::from_bytes_compressed_form(b) } else { bvc::ProofG1::from_bytes_uncompressed_form(b) }.map_err(|_| ())
    }
    fn json(p: &bvc::ProofG1) -> bvc::ProofG1 {
        rt(p)
    }
}
struct Side<L: Lib> {
    gens: Vec<L::P>,
    other: L::S,
}
impl<L: Lib> Side<L> {
    fn new() -> Self {
        Side { gens: std::iter::once(L::id()).chain((0..4).map(|_| L::rp())).collect(), other: L::rs() }
    }
    fn g(&self, v: &Value) -> Vec<L::P> {
        ints(v).into_iter().map(|i| self.gens[i as usize].clone()).collect()
    }
}
struct Pf<L: Lib> {
    proof: L::Proof,
    own: L::S,
}
impl<L: Lib> Clone for Pf<L> {
    fn clone(&self) -> Self {
        Pf { proof: self.proof.clone(), own: self.own.clone() }
    }
}
fn verdict(r: Result<bool, ()>) -> Value {
    json!(match r {
        Ok(true) => "yes",
        Ok(false) => "no",
        Err(_) => "err",
    })
}
fn chal<L: Lib>(s: &Side<L>, c: &str, own: &L::S) -> L::S {
    match c {
        "own" => own.clone(),
        "rnd" => s.other.clone(),
        n => L::num(n.parse().unwrap_or_else(|_| harness!("chal {}", n))),
    }
}
fn nums<L: Lib>(v: &Value) -> Vec<L::S> {
    ints(v).into_iter().map(L::num).collect()
}
fn bls<L: Lib>(v: &Value) -> Vec<Option<L::S>> {
    ints(v).into_iter().map(|b| if b == RAND { None } else { Some(L::num(b)) }).collect()
}
fn same<L: Lib>(a: &L::Proof, b: &L::Proof) -> bool {
    L::parts(a) == L::parts(b)
}
fn step<L: Lib>(w: &Side<L>, pf: &mut Option<Pf<L>>, c: &Value) -> Value {
    let op = st(&c["op"]);
    match op {
        "prove" => {
            let g = w.g(&c["gens"]);
            let s = nums::<L>(&c["secs"]);
            let own = |h: &dyn Fn(&[u8]) -> L::S| {
                if c["chal"] == "own" {
                    let com = L::com(&g, &s);
                    h(&[L::pbytes(&com), st(&c["nonce"]).as_bytes().to_vec()].concat())
                } else {
                    chal(w, st(&c["chal"]), &w.other)
                }
            };
            let r = L::prove(&g, &bls::<L>(&c["bl"]), &s, &own);
            *pf = None;
            match r {
                Ok((proof, own)) => {
                    *pf = Some(Pf { proof, own });
                    json!("ok")
                }
                Err(_) => json!("err"),
            }
        }
        "verify" | "complete" | "contrib" => {
            let p = pf.as_ref().unwrap_or_else(|| harness!("no proof"));
            let (mut t, mut r) = L::parts(&p.proof);
            let pos = |k: &str| us(&c["e"][k]) - 1;
            match st(&c["e"]["k"]) {
                "none" => {}
                "swap" => r.swap(pos("i"), pos("j")),
                "rnd" => r[pos("i")] = L::rs(),
                "plus" => r[pos("i")] = L::sadd(&r[pos("i")], &L::num(1)),
                "zero" => r[pos("i")] = L::num(0),
                "less" => drop(r.pop()),
                "first" => drop(r.remove(0)),
                "more" => r.push(L::num(0)),
                "dup" => r.push(r[r.len() - 1].clone()),
                e => harness!("edit {}", e),
            }
            match int(&c["pt"]) {
                0 => {}
                -1 => t = L::rp(),
                -2 => t = L::id(),
                -3 => t = L::neg(&t),
                g => t = L::add(&t, &w.gens[g as usize]),
            }
            let edited = c["e"]["k"] != "none" || c["pt"] != 0;
            let q = if edited { L::make(&t, &r) } else { p.proof.clone() };
            let q = match st(&c["via"]) {
                "mem" => q,
                "bytes" => L::from(&L::to(&q, "u"), "u").unwrap_or_else(|_| panic!("own bytes")),
                "raw" => L::from(&L::to(&q, "c"), "c").unwrap_or_else(|_| panic!("own bytes")),
                _ => L::json(&q),
            };
            if !same::<L>(&q, &L::make(&t, &r)) {
                return json!("not the same after transport");
            }
            let com = L::com(&w.g(&c["cg"]), &nums::<L>(&c["cs"]));
            let b = w.g(&c["bases"]);
            let ch = chal(w, st(&c["chal"]), &p.own);
            match op {
                "verify" => verdict(L::verify(&q, &b, &com, &ch)),
                "complete" => verdict(L::complete(&q, &b, &com, &ch, st(&c["nonce"]).as_bytes())),
                _ => verdict(L::contrib(&q, &b, &com, &ch).map(|x| x == t)),
            }
        }
        "bytes" => {
            let p = pf.as_ref().unwrap_or_else(|| harness!("no proof"));
            let form = st(&c["form"]);
            let mut b = L::to(&p.proof, form);
            let n = L::parts(&p.proof).1.len();
            let f = L::sbytes(&L::num(1)).len();
            let at = b.len() - n * f - 4;
            let l = b.len();
            let len = |b: &mut Vec<u8>, k: u32| b[at..at + 4].copy_from_slice(&k.to_be_bytes());
            match st(&c["how"]) {
                "none" => {}
                "cut1" => b.truncate(l - 1),
                "cut4" => b.truncate(l - 4),
                "cutf" => b.truncate(l - f),
                "cuthalf" => b.truncate(l / 2),
                "cutall" => b.clear(),
                "headonly" => b.truncate(at),
                "ext1" => b.push(0),
                "extf" => b.extend(L::sbytes(&L::num(7))),
                "len+1" => len(&mut b, n as u32 + 1),
                "len-1" => len(&mut b, n as u32 - 1),
                "lenmax" => len(&mut b, u32::max_value()),
                "lentop" => len(&mut b, 1 << 31),
                // single bits, spread over the encoding, the length field apart
                "flip" => {
                    let mut k = (us(&c["pos"]) * 7919 + 5) % (l * 8);
                    while k / 8 >= at && k / 8 < at + 4 {
                        k = (k + 8) % (l * 8);
                    }
                    b[k / 8] ^= 1 << (k % 8);
                }
                h => harness!("how {}", h),
            }
            match L::from(&b, form) {
                Err(_) => json!("err"),
                Ok(q) => json!(if same::<L>(&q, &p.proof) { "same" } else { "diff" }),
            }
        }
        "index" => {
            let g = w.g(&c["gens"]);
            let b = bls::<L>(&c["bl"]);
            let i = us(&c["i"]);
            match L::index(&g, &b, i) {
                Err(_) => json!("err"),
                Ok((p, s)) => json!(if p == g[i] && b[i].as_ref().map_or(true, |b| *b == s) { "ok" } else { "other" }),
            }
        }
        // blindings, as seen through get_index and through the commitments of proofs
        "census" => {
            let g = w.g(&c["gens"]);
            let none: Vec<Option<L::S>> = g.iter().map(|_| None).collect();
            let mut seen = HashSet::new();
            for _ in 0..20 {
                for i in 0..g.len() {
                    let (_, s) = L::index(&g, &none, i).unwrap();
                    if !seen.insert(L::sbytes(&s)) || s == L::num(0) {
                        return json!("repeated");
                    }
                }
                let s: Vec<L::S> = g.iter().map(|_| L::num(1)).collect();
                let (p, _) = L::prove(&g, &none, &s, &|_| L::num(0)).unwrap();
                let (t, r) = L::parts(&p);
                if !seen.insert(L::pbytes(&t)) || r.iter().any(|r| !seen.insert(L::sbytes(r))) {
                    return json!("repeated");
                }
            }
            json!("distinct")
        }
        o => harness!("op {}", o),
    }
}
struct World {
    z1: Side<Z1>,
    z2: Side<Z2>,
    b1: Side<B1>,
}
#[derive(Clone)]
enum Held {
    None,
    Z1(Pf<Z1>),
    Z2(Pf<Z2>),
    B1(Pf<B1>),
}
struct Vc {
    w: Arc<World>,
    pf: Held,
}
impl Sys for Vc {
    fn fork(&self) -> Self {
        Vc { w: self.w.clone(), pf: self.pf.clone() }
    }
    fn step(&mut self, c: &Value) -> Value {
        let held = self.pf.clone();
        let lib = c.get("lib").and_then(|l| l.as_str()).unwrap_or_else(|| match held {
            Held::Z1(_) => "z1",
            Held::Z2(_) => "z2",
            Held::B1(_) => "b1",
            Held::None => harness!("no proof for {}", c),
        });
        macro_rules! go {
            ($s:expr, $V:ident) => {{
                let mut p = if let Held::$V(p) = held { Some(p) } else { None };
                let r = step($s, &mut p, c);
                self.pf = p.map_or(Held::None, Held::$V);
                r
            }};
        }
        match lib {
            "z1" => go!(&self.w.z1, Z1),
            "z2" => go!(&self.w.z2, Z2),
            "b1" => go!(&self.w.b1, B1),
            l => harness!("lib {}", l),
        }
    }
}
fn world() -> World {
    World { z1: Side::new(), z2: Side::new(), b1: Side::new() }
}
fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let w = Arc::new(world());
    let mut v = Vc { w, pf: Held::None };
    while rec.n < a.n {
        let lib = *["z1", "z2", "b1", "b1"].choose(&mut r).unwrap();
        let n: usize = if r.gen_range(0, 6) == 0 { r.gen_range(5, 40) } else { r.gen_range(0, 6) };
        let top = if r.gen() { 5 } else { 3 };
        let gens: Vec<i64> = (0..n).map(|_| if r.gen_range(0, 12) == 0 { 0 } else { r.gen_range(1, top) }).collect();
        let m = if r.gen_range(0, 12) == 0 { r.gen_range(0, 6) } else { n };
        let secs: Vec<i64> = (0..m).map(|_| if r.gen() { r.gen_range(0, 3) } else { r.gen_range(-50, 50) }).collect();
        // positions beyond the table of random symbols are fixed
        let bl: Vec<i64> = (0..n).map(|i| if i < 8 && r.gen_range(0, 3) > 0 { RAND } else { r.gen_range(0, 9) }).collect();
        let chal = *["own", "own", "own", "rnd", "0", "1", "2", "-1"].choose(&mut r).unwrap();
        let nonce = *["", "x", "y"].choose(&mut r).unwrap();
        if rec.call(&mut v, json!({"op":"prove","lib":lib,"gens":gens,"secs":secs,"bl":bl,"chal":chal,"nonce":nonce})) != "ok" {
            continue;
        }
        for _ in 0..r.gen_range(4, 16) {
            if r.gen_range(0, 8) == 0 {
                let how = *["none", "cut1", "cut4", "cuthalf", "ext1", "extf", "len+1", "lenmax", "flip", "flip", "flip"].choose(&mut r).unwrap();
                rec.call(&mut v, json!({"op":"bytes","how":how,"form":if lib == "b1" && r.gen() { "c" } else { "u" },"pos":r.gen_range(0, 100000)}));
                continue;
            }
            let op = *["verify", "verify", "complete", if lib == "b1" { "contrib" } else { "complete" }].choose(&mut r).unwrap();
            let mut e = json!({"k":"none","i":0,"j":0});
            let (mut pt, mut bases, mut cs, mut ch, mut no) = (0, gens.clone(), secs.clone(), chal.to_string(), nonce.to_string());
            for _ in 0..r.gen_range(0, 3) {
                match r.gen_range(0, 8) {
                    0 | 1 if n > 0 => {
                        let k = *["swap", "rnd", "plus", "zero", "less", "first", "more", "dup"].choose(&mut r).unwrap();
                        e = json!({"k":k,"i":r.gen_range(1, n + 1),"j":r.gen_range(1, n + 1)});
                    }
                    2 => pt = r.gen_range(-3, 5),
                    3 if !bases.is_empty() => {
                        let i = r.gen_range(0, bases.len());
                        bases[i] = r.gen_range(0, 5);
                    }
                    4 => {
                        if r.gen() || n == 0 { bases.push(r.gen_range(0, 5)) } else { drop(bases.pop()) }
                    }
                    5 if n > 0 => {
                        let i = r.gen_range(0, n);
                        cs[i] = r.gen_range(-3, 4);
                    }
                    6 if chal == "own" => ch = ["own", "rnd", "0", "1", "2", "-1"].choose(&mut r).unwrap().to_string(),
                    7 => no = ["", "x", "y"].choose(&mut r).unwrap().to_string(),
                    _ => {}
                }
            }
            let via = *["mem", "bytes", "raw", "json"].choose(&mut r).unwrap();
            rec.call(&mut v, json!({"op":op,"via":via,"bases":bases,"cg":gens,"cs":cs,"chal":ch,"nonce":no,"e":e,"pt":pt}));
        }
    }
}
fn main() {
    let a = args();
    match a.mode.as_str() {
        "replay" => {
            let w = Arc::new(world());
            replay(&a, |_| Vc { w: w.clone(), pf: Held::None })
        }
        "record" => record(&a),
        m => harness!("mode {}", m),
    }
}
