//! C15, C16: ursa_sharing over small prime fields.
use generic_array::{typenum, GenericArray};
use rand::{CryptoRng, Rng, RngCore};
use serde_json::{json, Value};
use std::convert::TryFrom;
use ursa_sharing::{
    error::{SharingError, SharingResult},
    feldman, pedersen,
    shamir::{self, Share},
    Field, Group, ShareVerifier,
};
use vh::*;

const TAG: u8 = 0xA5;

fn inv(a: u64, p: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u64, a % p, p - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

/// The field Z_P, four bytes big endian.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fp<const P: u64>(u64);
impl<const P: u64> Group for Fp<P> {
    type Size = typenum::U4;
    fn zero() -> Self {
        Fp(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 4 {
            return Err(SharingError::ShareInvalidValue);
        }
        let x = u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as u64;
        if x >= P {
            return Err(SharingError::ShareInvalidValue);
        }
        Ok(Fp(x))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        Fp(rng.gen_range(0, P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0
    }
    fn negate(&mut self) {
        self.0 = (P - self.0) % P
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % P
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + P - r.0) % P
    }
    fn scalar_mul_assign(&mut self, r: &Self) {
        self.0 = self.0 * r.0 % P
    }
    fn to_bytes(&self) -> GenericArray<u8, Self::Size> {
        GenericArray::clone_from_slice(&(self.0 as u32).to_be_bytes())
    }
}
impl<const P: u64> Field for Fp<P> {
    fn one() -> Self {
        Fp(1 % P)
    }
    fn from_usize(v: usize) -> Self {
        Fp(v as u64 % P)
    }
    fn scalar_div_assign(&mut self, r: &Self) {
        self.0 = self.0 * inv(r.0, P) % P
    }
}

/// A group of order P, elements named by their discrete logarithm, five bytes with a tag.
#[derive(Clone, Copy, Debug, PartialEq)]
struct G1<const P: u64>(u64);
impl<const P: u64> Group<Fp<P>> for G1<P> {
    type Size = typenum::U5;
    fn zero() -> Self {
        G1(0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 5 || v[0] != TAG {
            return Err(SharingError::InvalidPoint);
        }
        Ok(G1(Fp::<P>::from_bytes(&v[1..])?.0))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        G1(rng.gen_range(1, P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn is_valid(&self) -> bool {
        self.0 != 0
    }
    fn negate(&mut self) {
        self.0 = (P - self.0) % P
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % P
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + P - r.0) % P
    }
    fn scalar_mul_assign(&mut self, r: &Fp<P>) {
        self.0 = self.0 * r.0 % P
    }
    fn to_bytes(&self) -> GenericArray<u8, Self::Size> {
        let mut o = vec![TAG];
        o.extend_from_slice(&(self.0 as u32).to_be_bytes());
        GenericArray::clone_from_slice(&o)
    }
}

/// The group Z_P x Z_P: two independent generators.
#[derive(Clone, Copy, Debug, PartialEq)]
struct G2<const P: u64>(u64, u64);
impl<const P: u64> Group<Fp<P>> for G2<P> {
    type Size = typenum::U8;
    fn zero() -> Self {
        G2(0, 0)
    }
    fn from_bytes<B: AsRef<[u8]>>(value: B) -> SharingResult<Self> {
        let v = value.as_ref();
        if v.len() != 8 {
            return Err(SharingError::InvalidPoint);
        }
        Ok(G2(Fp::<P>::from_bytes(&v[..4])?.0, Fp::<P>::from_bytes(&v[4..])?.0))
    }
    fn random(rng: &mut (impl RngCore + CryptoRng)) -> Self {
        G2(rng.gen_range(1, P), rng.gen_range(0, P))
    }
    fn is_zero(&self) -> bool {
        self.0 == 0 && self.1 == 0
    }
    fn is_valid(&self) -> bool {
        !Group::<Fp<P>>::is_zero(self)
    }
    fn negate(&mut self) {
        self.0 = (P - self.0) % P;
        self.1 = (P - self.1) % P
    }
    fn add_assign(&mut self, r: &Self) {
        self.0 = (self.0 + r.0) % P;
        self.1 = (self.1 + r.1) % P
    }
    fn sub_assign(&mut self, r: &Self) {
        self.0 = (self.0 + P - r.0) % P;
        self.1 = (self.1 + P - r.1) % P
    }
    fn scalar_mul_assign(&mut self, r: &Fp<P>) {
        self.0 = self.0 * r.0 % P;
        self.1 = self.1 * r.0 % P
    }
    fn to_bytes(&self) -> GenericArray<u8, Self::Size> {
        let mut o = (self.0 as u32).to_be_bytes().to_vec();
        o.extend_from_slice(&(self.1 as u32).to_be_bytes());
        GenericArray::clone_from_slice(&o)
    }
}

fn be(v: u64) -> Vec<u8> {
    (v as u32).to_be_bytes().to_vec()
}
fn num(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a * 256 + *x as u64)
}
fn pair(s: &Share) -> Value {
    json!([s.identifier(), num(s.value())])
}

#[derive(Clone)]
struct S<const P: u64> {
    t: usize,
    n: usize,
    dealt: Vec<Share>,
    fv: Option<feldman::FeldmanVerifier<Fp<P>, G1<P>>>,
    pv: Option<pedersen::PedersenVerifier<Fp<P>, G2<P>>>,
    bdealt: Vec<Share>,
    secret: u64,
    blinding: u64,
}

fn shares(v: &Value) -> Vec<Share> {
    arr(v)
        .iter()
        .map(|x| Share::new(us(&x[0]), be(int(&x[1]) as u64)))
        .collect()
}
fn res<T>(r: SharingResult<T>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}
fn sv<const P: u64, R: Group<Fp<P>>>(r: R) -> ShareVerifier<Fp<P>, R> {
    ShareVerifier::try_from(r.to_bytes().as_slice()).unwrap_or_else(|_| harness!("sv"))
}
fn g2<const P: u64>(v: &Value) -> G2<P> {
    G2(int(&v[0]) as u64, int(&v[1]) as u64)
}
fn lg1<const P: u64>(v: &ShareVerifier<Fp<P>, G1<P>>) -> Value {
    json!(num(&v.to_bytes()[1..]))
}
fn lg2<const P: u64>(v: &ShareVerifier<Fp<P>, G2<P>>) -> Value {
    json!([num(&v.to_bytes()[..4]), num(&v.to_bytes()[4..])])
}

impl<const P: u64> S<P> {
    fn new() -> Self {
        S {
            t: 0,
            n: 0,
            dealt: vec![],
            fv: None,
            pv: None,
            bdealt: vec![],
            secret: 0,
            blinding: 0,
        }
    }
    fn comb(&self, sch: &str, t: usize, n: usize, sh: &[Share]) -> Value {
        let r: SharingResult<Fp<P>> = match sch {
            "f" => feldman::Scheme::new(t, n).and_then(|s| s.combine_shares::<Fp<P>, Fp<P>>(sh)),
            "p" => pedersen::Scheme::new(t, n).and_then(|s| s.combine_shares::<Fp<P>, Fp<P>>(sh)),
            _ => shamir::Scheme::new(t, n).and_then(|s| s.combine_shares::<Fp<P>, Fp<P>>(sh)),
        };
        match r {
            Ok(v) => json!(v.0.to_string()),
            Err(_) => json!("err"),
        }
    }
}

impl<const P: u64> Sys for S<P> {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let mut rng = rand::thread_rng();
        match st(&c["op"]) {
            "new" => {
                let (t, n) = (us(&c["t"]), us(&c["n"]));
                let r = shamir::Scheme::new(t, n).is_ok();
                if feldman::Scheme::new(t, n).is_ok() != r || pedersen::Scheme::new(t, n).is_ok() != r {
                    return json!("schemes differ");
                }
                if r {
                    self.t = t;
                    self.n = n;
                    self.dealt.clear();
                }
                json!(if r { "ok" } else { "err" })
            }
            "split" => {
                let s = shamir::Scheme::new(self.t, self.n).unwrap();
                let sec = Fp::<P>(int(&c["secret"]) as u64);
                match s.split_secret(&mut rng, &sec) {
                    Ok(sh) => {
                        let v = sh.iter().map(pair).collect();
                        self.dealt = sh;
                        Value::Array(v)
                    }
                    Err(_) => json!([]),
                }
            }
            "combine" => {
                let sh = shares(&c["sh"]);
                let (t, n) = (us(&c["t"]), us(&c["n"]));
                let a = self.comb("s", t, n, &sh);
                // the same in the exponent of a group
                let gs: Vec<Share> = arr(&c["sh"])
                    .iter()
                    .map(|x| {
                        let mut b = vec![TAG];
                        b.extend(be(int(&x[1]) as u64));
                        Share::new(us(&x[0]), b)
                    })
                    .collect();
                let b = match shamir::Scheme::new(t, n).unwrap().combine_shares::<Fp<P>, G1<P>>(&gs) {
                    Ok(v) => json!(v.0.to_string()),
                    Err(_) => json!("err"),
                };
                for k in &["f", "p"] {
                    if self.comb(k, t, n, &sh) != a {
                        return json!("schemes differ");
                    }
                }
                if a == b {
                    a
                } else {
                    json!("field and group differ")
                }
            }
            "recover" => {
                let pick = arr(&c["pick"]);
                match c.get("which").map(st) {
                    None => {
                        let sh: Vec<Share> = pick.iter().map(|i| self.dealt[us(i) - 1].clone()).collect();
                        self.comb("s", self.t, self.n, &sh)
                    }
                    Some(w) => {
                        // every picked share passes verification and together they give the secret
                        let f = |d: &Vec<Share>| pick.iter().map(|i| d[us(i) - 1].clone()).collect::<Vec<_>>();
                        let sh = f(&self.dealt);
                        if sh.iter().any(|s| num(s.value()) == 0) || (w == "p" && f(&self.bdealt).iter().any(|s| num(s.value()) == 0)) {
                            return json!("same");
                        }
                        for i in pick {
                            let i = us(i) - 1;
                            let ok = if w == "f" {
                                feldman::Scheme::new(self.t, self.n).unwrap().verify_share(&self.dealt[i], self.fv.as_ref().unwrap()).is_ok()
                            } else {
                                pedersen::Scheme::new(self.t, self.n).unwrap().verify_share(&self.dealt[i], &self.bdealt[i], self.pv.as_ref().unwrap()).is_ok()
                            };
                            if !ok {
                                return json!("honest share refused");
                            }
                        }
                        if self.comb(w, self.t, self.n, &sh) != json!(self.secret.to_string()) {
                            return json!("other secret");
                        }
                        if w == "p" && self.comb(w, self.t, self.n, &f(&self.bdealt)) != json!(self.blinding.to_string()) {
                            return json!("other blinding");
                        }
                        json!("same")
                    }
                }
            }
            "spread" => {
                let (t, n) = (us(&c["t"]), us(&c["n"]));
                // enough splits of one secret to meet all polynomials of a tiny field
                let mut seen = std::collections::HashSet::new();
                let sec = Fp::<5>(3);
                let fel = c.get("which").map(st);
                let mut blind = std::collections::HashSet::new();
                for _ in 0..3000 {
                    let sh = match fel {
                        None => shamir::Scheme::new(t, n).unwrap().split_secret(&mut rng, &sec).unwrap(),
                        Some("f") => feldman::Scheme::new(t, n).unwrap().split_secret::<Fp<5>, G1<5>>(&mut rng, &sec, None).unwrap().1,
                        _ => match pedersen::Scheme::new(t, n).unwrap().split_secret::<Fp<5>, G2<5>>(&mut rng, &sec, None, None) {
                            Ok(r) => {
                                blind.insert(r.blinding_shares.iter().map(|s| num(s.value())).collect::<Vec<_>>());
                                r.secret_shares
                            }
                            Err(_) => continue, // the blinding came out zero
                        },
                    };
                    seen.insert(sh.iter().map(|s| num(s.value())).collect::<Vec<_>>());
                }
                let full = 5usize.pow(t as u32 - 1);
                match fel {
                    None => json!(seen.len().to_string()),
                    Some("f") => json!(if seen.len() == full { "all" } else { "few" }),
                    _ => json!(if seen.len() == full && blind.len() == 4 * full { "all" } else { "few" }),
                }
            }
            "share_bytes" => {
                let s = Share::new(us(&c["sh"][0]), be(int(&c["sh"][1]) as u64));
                let b = s.to_bytes();
                let s2 = match Share::try_from(b.as_slice()) {
                    Ok(x) => x,
                    Err(_) => return json!("err"),
                };
                if s2.value().len() != 4 || s2.to_bytes() != b || s2.value() != s.clone().value() {
                    return json!("bytes differ");
                }
                json!([s2.identifier(), num(s2.value())])
            }
            "share_from" => {
                let b = vec![1u8; us(&c["len"])];
                res(Share::try_from(b.as_slice()))
            }
            "fverify" => {
                let v = feldman::FeldmanVerifier {
                    g: G1::<P>(int(&c["g"]) as u64),
                    commitments: ints(&c["comms"]).iter().map(|x| sv(G1::<P>(*x as u64))).collect(),
                };
                let t = us(&c["t"]);
                let sch = feldman::Scheme::new(t, t + 1).unwrap();
                let sh = Share::new(us(&c["id"]), be(int(&c["val"]) as u64));
                let a = sch.verify_share(&sh, &v).is_ok();
                if !v.commitments.is_empty() {
                    match feldman::FeldmanVerifier::<Fp<P>, G1<P>>::try_from(v.to_bytes().as_slice()) {
                        Ok(w) => {
                            if sch.verify_share(&sh, &w).is_ok() != a || w.to_bytes() != v.to_bytes() {
                                return json!("bytes differ");
                            }
                        }
                        Err(_) => return json!("bytes refused"),
                    }
                }
                json!(if a { "ok" } else { "err" })
            }
            "pverify" => {
                let v = pedersen::PedersenVerifier {
                    g: g2::<P>(&c["g"]),
                    h: g2::<P>(&c["h"]),
                    commitments: arr(&c["comms"]).iter().map(|x| sv(g2::<P>(x))).collect(),
                };
                let t = us(&c["t"]);
                let sch = pedersen::Scheme::new(t, t + 1).unwrap();
                let sh = Share::new(us(&c["id"]), be(int(&c["val"]) as u64));
                let bl = Share::new(us(&c["id"]), be(int(&c["bl"]) as u64));
                let a = sch.verify_share(&sh, &bl, &v).is_ok();
                if !v.commitments.is_empty() {
                    match pedersen::PedersenVerifier::<Fp<P>, G2<P>>::try_from(v.to_bytes().as_slice()) {
                        Ok(w) => {
                            if sch.verify_share(&sh, &bl, &w).is_ok() != a || w.to_bytes() != v.to_bytes() {
                                return json!("bytes differ");
                            }
                        }
                        Err(_) => return json!("bytes refused"),
                    }
                }
                json!(if a { "ok" } else { "err" })
            }
            "fbytes" | "pbytes" => {
                let f = st(&c["op"]) == "fbytes";
                let have = us(&c["have"]);
                let mut b = if f {
                    feldman::FeldmanVerifier::<Fp<P>, G1<P>> {
                        g: G1(1),
                        commitments: (0..have).map(|i| sv(G1::<P>(i as u64 % P))).collect(),
                    }
                    .to_bytes()
                } else {
                    pedersen::PedersenVerifier::<Fp<P>, G2<P>> {
                        g: G2(1, 0),
                        h: G2(0, 1),
                        commitments: (0..have).map(|i| sv(G2::<P>(i as u64 % P, 1))).collect(),
                    }
                    .to_bytes()
                };
                let head = us(&c["head"]);
                b[head..head + 4].copy_from_slice(&(us(&c["count"]) as u32).to_be_bytes());
                b.resize(us(&c["len"]), 0xEE);
                if f {
                    res(feldman::FeldmanVerifier::<Fp<P>, G1<P>>::try_from(b.as_slice()))
                } else {
                    res(pedersen::PedersenVerifier::<Fp<P>, G2<P>>::try_from(b.as_slice()))
                }
            }
            "fsplit" => {
                let (t, n) = (us(&c["t"]), us(&c["n"]));
                let g = int(&c["g"]) as u64;
                let sec = Fp::<P>(int(&c["secret"]) as u64);
                let r = feldman::Scheme::new(t, n).unwrap().split_secret::<Fp<P>, G1<P>>(&mut rng, &sec, if g == 0 { None } else { Some(G1(g)) });
                match r {
                    Err(_) => json!("err"),
                    Ok((v, sh)) => {
                        self.t = t;
                        self.n = n;
                        self.secret = sec.0;
                        let o = json!({"g":v.g.0,"comms":v.commitments.iter().map(lg1).collect::<Vec<_>>(),"sh":sh.iter().map(pair).collect::<Vec<_>>()});
                        self.fv = Some(v);
                        self.dealt = sh;
                        o
                    }
                }
            }
            "psplit" => {
                let (t, n) = (us(&c["t"]), us(&c["n"]));
                let (g, h) = (g2::<P>(&c["g"]), g2::<P>(&c["h"]));
                let o = |x: G2<P>| if x == G2(0, 0) { None } else { Some(x) };
                let sec = Fp::<P>(int(&c["secret"]) as u64);
                let r = pedersen::Scheme::new(t, n).unwrap().split_secret::<Fp<P>, G2<P>>(&mut rng, &sec, o(g), o(h));
                match r {
                    Err(_) => json!("err"),
                    Ok(x) => {
                        self.t = t;
                        self.n = n;
                        self.secret = sec.0;
                        self.blinding = x.blinding.0;
                        let (g, h) = (x.verifier.g, x.verifier.h);
                        let o = json!({"g":[g.0,g.1],"h":[h.0,h.1],"comms":x.verifier.commitments.iter().map(lg2).collect::<Vec<_>>(),
                            "sh":x.secret_shares.iter().map(pair).collect::<Vec<_>>(),"bsh":x.blinding_shares.iter().map(pair).collect::<Vec<_>>(),"blinding":x.blinding.0});
                        self.dealt = x.secret_shares;
                        self.bdealt = x.blinding_shares;
                        self.pv = Some(x.verifier);
                        o
                    }
                }
            }
            o => harness!("op {}", o),
        }
    }
}

const BIG: u64 = 46337;

fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = S::<BIG>::new();
    let vss = a.opt.get("what").map(|s| s.as_str()) == Some("vss");
    let pick = |r: &mut rand::rngs::StdRng, n: usize, k: usize| {
        let mut v: Vec<usize> = (1..=n).collect();
        for i in (1..n).rev() {
            v.swap(i, r.gen_range(0, i + 1));
        }
        v.truncate(k);
        v
    };
    for round in 0..a.n {
        let t = r.gen_range(2, 8);
        let n = t + r.gen_range(0, 8);
        let secret = match r.gen_range(0, 12) {
            0 => 0,
            1 => 1,
            2 => BIG - 1,
            _ => r.gen_range(1, BIG),
        };
        if !vss {
            rec.call(&mut s, json!({"op":"new","t":t,"n":n}));
            let x = rec.call(&mut s, json!({"op":"split","secret":secret}));
            if x.as_array().map_or(true, |v| v.is_empty()) {
                continue;
            }
            for _ in 0..3 {
                let k = r.gen_range(0, n + 1);
                rec.call(&mut s, json!({"op":"recover","pick":pick(&mut r,n,k)}));
                rec.call(&mut s, json!({"op":"recover","pick":pick(&mut r,n,t)}));
            }
            let mut d = pick(&mut r, n, t);
            d.push(d[0]);
            rec.call(&mut s, json!({"op":"recover","pick":d}));
            let sh: Vec<Value> = pick(&mut r, n, t).iter().map(|i| json!([i, r.gen_range(1, BIG + 3)])).collect();
            rec.call(&mut s, json!({"op":"combine","t":t,"n":n,"sh":sh}));
            let id = if round % 5 == 0 { 1usize << r.gen_range(0, 31) } else { r.gen_range(0, 300) };
            rec.call(&mut s, json!({"op":"share_bytes","sh":[id, r.gen_range(0, BIG)]}));
            rec.call(&mut s, json!({"op":"share_from","len":r.gen_range(0,9)}));
        } else {
            let g = if r.gen() { 0 } else { r.gen_range(1, BIG) };
            let x = rec.call(&mut s, json!({"op":"fsplit","t":t,"n":n,"secret":secret,"g":g}));
            if x.is_object() {
                let k = r.gen_range(t, n + 1);
                rec.call(&mut s, json!({"op":"recover","which":"f","pick":pick(&mut r,n,k)}));
                for w in 0..3 {
                    let i = r.gen_range(0, n);
                    let mut id = us(&x["sh"][i][0]);
                    let mut val = us(&x["sh"][i][1]);
                    match w {
                        0 => val = r.gen_range(0, BIG as usize),
                        1 => id = r.gen_range(0, n + 3),
                        _ => (),
                    }
                    rec.call(&mut s, json!({"op":"fverify","t":t,"g":x["g"],"comms":x["comms"],"id":id,"val":val}));
                }
            }
            let (g, h) = if r.gen() { (json!([0, 0]), json!([0, 0])) } else { (json!([1, 5]), json!([r.gen_range(0,BIG), 3])) };
            let x = rec.call(&mut s, json!({"op":"psplit","t":t,"n":n,"secret":secret,"g":g,"h":h}));
            if x.is_object() {
                let k = r.gen_range(t, n + 1);
                rec.call(&mut s, json!({"op":"recover","which":"p","pick":pick(&mut r,n,k)}));
                for w in 0..4 {
                    let i = r.gen_range(0, n);
                    let mut id = us(&x["sh"][i][0]);
                    let mut val = us(&x["sh"][i][1]);
                    let mut bl = us(&x["bsh"][i][1]);
                    match w {
                        0 => val = r.gen_range(0, BIG as usize),
                        1 => id = r.gen_range(0, n + 3),
                        2 => bl = r.gen_range(0, BIG as usize),
                        _ => (),
                    }
                    rec.call(&mut s, json!({"op":"pverify","t":t,"g":x["g"],"h":x["h"],"comms":x["comms"],"id":id,"val":val,"bl":bl}));
                }
            }
        }
    }
}

/// The secrecy counts, over Z_5.
fn spread(a: &Args) {
    let mut rec = Recorder::new(&a.out);
    let mut s = S::<5>::new();
    for (t, n) in vec![(2, 2), (2, 4), (3, 3), (3, 4)] {
        if a.opt.get("what").map(|s| s.as_str()) == Some("vss") {
            for w in &["f", "p"] {
                rec.call(&mut s, json!({"op":"spread","t":t,"n":n,"which":w}));
            }
        } else {
            rec.call(&mut s, json!({"op":"spread","t":t,"n":n}));
        }
    }
}

fn main() {
    let a = args();
    match a.mode.as_str() {
        "replay" => match a.opt.get("p").map(|s| s.as_str()).unwrap_or("5") {
            "3" => replay(&a, |_| S::<3>::new()),
            "5" => replay(&a, |_| S::<5>::new()),
            "7" => replay(&a, |_| S::<7>::new()),
            _ => panic!("HARNESS p"),
        },
        "record" => record(&a),
        "spread" => spread(&a),
        _ => panic!("HARNESS mode"),
    }
}
