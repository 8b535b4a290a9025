//! C11: Ed25519 and secp256k1 signatures. C12: X25519 and secp256k1 key exchange.
use rand::Rng;
use serde_json::{json, Value};
use ursa::kex::{secp256k1::EcdhSecp256k1Sha256, x25519::X25519Sha256, KeyExchangeScheme};
use ursa::keys::{KeyGenOption, PrivateKey, PublicKey};
use ursa::signatures::{ed25519::Ed25519Sha512, secp256k1::EcdsaSecp256k1Sha256, EcdsaPublicKeyHandler, SignatureScheme, Signer};
use vh::*;

const L25519: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
const N256: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
fn msg(m: usize) -> Vec<u8> {
    match m {
        0 => vec![],
        1 => vec![0],
        2 => (0..200).collect(),
        3 => vec![7; 64],
        _ => (0..(m * 37) % 1000 + 1).map(|i| (i * m / 3) as u8).collect(),
    }
}
/// A seed of some length: content 0, or the first (1) or last (2) byte changed.
fn seed(len: usize, x: usize) -> Vec<u8> {
    let mut s: Vec<u8> = (0..len).map(|i| (i * 7 + 1) as u8).collect();
    if len > 0 {
        match x {
            1 => s[0] ^= 1,
            2 => s[len - 1] ^= 2,
            _ => {}
        }
    }
    s
}
/// a - b, numbers in big-endian order
fn sub(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut r = vec![0u8; a.len()];
    let mut w = 0i32;
    for i in (0..a.len()).rev() {
        let d = a[i] as i32 - b[i] as i32 - w;
        w = (d < 0) as i32;
        r[i] = (d & 255) as u8;
    }
    r
}
fn raw(x: &str, le: bool) -> Vec<u8> {
    let mut r = vec![0u8; 32];
    match x {
        "zero" => {}
        "one" => r[31] = 1,
        "n" => r = N256.to_vec(),
        "n1" => {
            r = N256.to_vec();
            r[31] -= 1
        }
        "nx" => {
            r = N256.to_vec();
            r[31] += 1
        }
        "ff" => r = vec![255; 32],
        x => harness!("raw {}", x),
    }
    if le {
        r.reverse()
    }
    r
}
/// Alterations of any byte string.
fn edit(b: &[u8], e: &str, pos: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    match e {
        "none" => {}
        "flip" => v[pos] ^= 1 << (pos % 8),
        "short" => {
            v.pop();
        }
        "long" => v.push(0),
        "empty" => v.clear(),
        "half" => v.truncate(b.len() / 2),
        "double" => v.extend_from_slice(b),
        "zero" => v = vec![0; b.len()],
        "ff" => v = vec![255; b.len()],
        "swap" => v.rotate_left(b.len() / 2),
        e => harness!("edit {}", e),
    }
    v
}
fn js<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap()
}
fn first<T: PartialEq>(q: &[T], x: &T) -> Value {
    json!(format!("={}", q.iter().position(|y| y == x).unwrap_or(q.len()) + 1))
}
fn yn<E>(r: Result<bool, E>) -> &'static str {
    if r.unwrap_or(false) {
        "yes"
    } else {
        "no"
    }
}
type Pair = (PublicKey, PrivateKey);

// ------------------------------------------------------------------ signatures
trait Fam: SignatureScheme {
    const ED: bool;
    fn norm(&self, _s: &mut [u8]) -> bool {
        false
    }
    fn unc(&self, p: &PublicKey) -> PublicKey {
        p.clone()
    }
}
impl Fam for Ed25519Sha512 {
    const ED: bool = true;
}
impl Fam for EcdsaSecp256k1Sha256 {
    const ED: bool = false;
    fn norm(&self, s: &mut [u8]) -> bool {
        self.normalize_s(s).is_ok()
    }
    fn unc(&self, p: &PublicKey) -> PublicKey {
        PublicKey(self.public_key_uncompressed(p))
    }
}
struct Sigs<S> {
    ph: std::marker::PhantomData<S>,
    keys: Vec<Pair>,
    sigs: Vec<Vec<u8>>,
}
impl<S> Sigs<S> {
    fn new() -> Self {
        Sigs { ph: std::marker::PhantomData, keys: vec![], sigs: vec![] }
    }
}
fn sk_edit<S: Fam>(sk: &PrivateKey, e: &str) -> PrivateKey {
    PrivateKey(match e {
        // the public half altered, or that of another pair
        "pub" => edit(&sk[..], "flip", 40),
        "other" => {
            let (_, o) = S::new().keypair(Some(KeyGenOption::UseSeed(b"another".to_vec()))).unwrap();
            let mut v = sk[..].to_vec();
            v[32..].copy_from_slice(&o[32..]);
            v
        }
        "n" => N256.to_vec(),
        e => edit(&sk[..], e, 0),
    })
}
fn sig_edit<S: Fam>(s: &[u8], e: &str, pos: usize) -> Vec<u8> {
    match e {
        // the other representative of s
        "high" => {
            let mut v = s.to_vec();
            if S::ED {
                let mut c = 0u16;
                for i in 0..32 {
                    c += v[32 + i] as u16 + L25519[i] as u16;
                    v[32 + i] = c as u8;
                    c >>= 8;
                }
            } else {
                let h = sub(&N256, &s[32..]);
                v[32..].copy_from_slice(&h);
            }
            v
        }
        // the other representative, normalized again
        "norm" => {
            let mut v = sig_edit::<S>(s, "high", 0);
            S::new().norm(&mut v);
            v
        }
        e => edit(s, e, pos),
    }
}
impl<S: Fam + Send + Sync> Sys for Sigs<S> {
    fn fork(&self) -> Self {
        Sigs { ph: self.ph, keys: self.keys.clone(), sigs: self.sigs.clone() }
    }
    fn step(&mut self, c: &Value) -> Value {
        guard(|| {
            let s = S::new();
            let key = |c: &Value| &self.keys[us(c) - 1];
            match st(&c["op"]) {
                "new" => {
                    self.keys.clear();
                    self.sigs.clear();
                    json!("ok")
                }
                "key" => {
                    let sk = |i: &Value| key(i).1.clone();
                    let from = |k: PrivateKey| s.keypair(Some(KeyGenOption::FromSecretKey(k)));
                    let x = c.get("x");
                    let r = match st(&c["t"]) {
                        "rand" => s.keypair(None),
                        "seed" => s.keypair(Some(KeyGenOption::UseSeed(seed(us(&c["len"]), us(x.unwrap()))))),
                        "sk" => from(sk(&c["i"])),
                        "exp" => Ed25519Sha512::expand_keypair(&seed(us(&c["len"]), us(x.unwrap()))),
                        "expk" => Ed25519Sha512::expand_keypair(&sk(&c["i"])[..32]),
                        "raw" => {
                            let mut k = raw(st(x.unwrap()), S::ED);
                            if S::ED {
                                k.extend_from_slice(&[0; 32]);
                            }
                            from(PrivateKey(k))
                        }
                        "bad" => from(sk_edit::<S>(&key(&c["i"]).1, st(&c["e"]))),
                        t => harness!("key {}", t),
                    };
                    match r {
                        Err(_) => json!("err"),
                        Ok(p) => {
                            if p.0.len() != S::public_key_size() || p.1.len() != S::private_key_size() {
                                return json!("size");
                            }
                            let r = first(&self.keys, &p);
                            self.keys.push(p);
                            r
                        }
                    }
                }
                "sign" => {
                    let k = sk_edit::<S>(&key(&c["i"]).1, st(&c["e"]));
                    let m = msg(us(&c["m"]));
                    match s.sign(&m, &k) {
                        Err(_) => json!("err"),
                        Ok(x) => {
                            if x.len() != S::signature_size() {
                                return json!("size");
                            }
                            let r = first(&self.sigs, &x);
                            if st(&c["e"]) == "none" {
                                self.sigs.push(x);
                            }
                            r
                        }
                    }
                }
                "verify" => {
                    let x = sig_edit::<S>(&self.sigs[us(&c["s"]) - 1], st(&c["e"]), us(&c["pos"]));
                    let p = &key(&c["i"]).0;
                    let p = match st(&c["pe"]) {
                        "unc" if S::ED => PublicKey(edit(&p[..], "double", 0)),
                        "unc" => s.unc(p),
                        e => PublicKey(edit(&p[..], e, us(&c["pos"]))),
                    };
                    let m = msg(us(&c["m"]));
                    let a = yn(s.verify(&m, &x, &p));
                    let b = yn(s.verify(&m, &x, &js(&p)));
                    json!(if a == b { a.to_string() } else { format!("{}/{}", a, b) })
                }
                "norm" => {
                    let o = &self.sigs[us(&c["s"]) - 1];
                    let mut x = sig_edit::<S>(o, st(&c["e"]), us(&c["pos"]));
                    if S::ED {
                        return json!(if ["none", "high", "norm"].contains(&st(&c["e"])) { "same" } else { "err" });
                    }
                    // only what it says about signatures of the right form
                    let ok = s.norm(&mut x);
                    json!(if !ok { "err" } else if x == *o { "same" } else if ["none", "high", "norm"].contains(&st(&c["e"])) { "other" } else { "err" })
                }
                "signer" => {
                    let k = sk_edit::<S>(&key(&c["i"]).1, st(&c["e"]));
                    let g = Signer::new(&s, &k);
                    let m = msg(us(&c["m"]));
                    match (g.get_public_key(), g.sign(&m)) {
                        (Ok(p), Ok(x)) => json!(if p == key(&c["i"]).0 && yn(s.verify(&m, &x, &p)) == "yes" { "same" } else { "other" }),
                        (Err(_), Err(_)) => json!("err"),
                        _ => json!("split"),
                    }
                }
                x => harness!("op {}", x),
            }
        })
    }
}
fn sig_record<S: Fam + Send + Sync>(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Sigs::<S>::new();
    let mut nsig: Vec<(usize, usize)> = vec![];
    let mut keys: Vec<()> = vec![];
    let lens = [0, 1, 7, 31, 32, 33, 48, 64, 100, 1000];
    while rec.n < a.n {
        if rec.n == 0 || r.gen_range(0, 60) == 0 {
            rec.call(&mut s, json!({"op":"new"}));
            keys.clear();
            nsig.clear();
        }
        let k = if keys.is_empty() { 0 } else { r.gen_range(1, keys.len() + 1) };
        match r.gen_range(0, 10) {
            0 | 1 if keys.len() < 6 => {
                let v = match r.gen_range(0, 6) {
                    0 | 1 => json!({"op":"key","t":"seed","len":lens[r.gen_range(0, lens.len())],"x":r.gen_range(0, 3)}),
                    2 if S::ED => json!({"op":"key","t":"exp","len":lens[r.gen_range(0, lens.len())],"x":r.gen_range(0, 3)}),
                    2 => json!({"op":"key","t":"raw","x":(["one","n1","zero"][r.gen_range(0, 3)])}),
                    3 if k > 0 => json!({"op":"key","t":"sk","i":k}),
                    _ => json!({"op":"key","t":"rand"}),
                };
                if rec.call(&mut s, v) != "err" {
                    keys.push(());
                }
            }
            2 | 3 if k > 0 => {
                let m = r.gen_range(0, 60);
                let i = if r.gen_range(0, 4) == 0 && !nsig.is_empty() { nsig[0] } else { (k, m) };
                rec.call(&mut s, json!({"op":"sign","i":i.0,"m":i.1,"e":"none"}));
                nsig.push(i);
            }
            4 if k > 0 => {
                rec.call(&mut s, json!({"op":"signer","i":k,"m":r.gen_range(0, 60),"e":"none"}));
            }
            _ if !nsig.is_empty() => {
                let x = r.gen_range(0, nsig.len());
                let (i, m) = nsig[x];
                let mut c = json!({"op":"verify","s":x+1,"i":i,"m":m,"e":"none","pe":"none","pos":0});
                match r.gen_range(0, 8) {
                    0 => c["i"] = json!(k),
                    1 => c["m"] = json!(r.gen_range(0, 60)),
                    2 => {
                        c["e"] = json!("flip");
                        c["pos"] = json!(r.gen_range(0, 64));
                    }
                    3 => {
                        c["pe"] = json!("flip");
                        c["pos"] = json!(r.gen_range(0, 32));
                    }
                    4 => c["e"] = json!(["short", "long", "empty", "high", "double"][r.gen_range(0, 5)]),
                    5 => c["pe"] = json!(["short", "long", "empty", "unc"][r.gen_range(0, 4)]),
                    _ => {}
                }
                rec.call(&mut s, c);
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ key exchange
struct Kex<S> {
    ph: std::marker::PhantomData<S>,
    keys: Vec<Pair>,
    secs: Vec<Vec<u8>>,
}
impl<S> Kex<S> {
    fn new() -> Self {
        Kex { ph: std::marker::PhantomData, keys: vec![], secs: vec![] }
    }
}
trait KFam: KeyExchangeScheme {
    const X: bool;
}
impl KFam for X25519Sha256 {
    const X: bool = true;
}
impl KFam for EcdhSecp256k1Sha256 {
    const X: bool = false;
}
fn hx(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Public keys altered; `X25519`: points of low order, and the ignored top bit.
fn pk_edit(p: &PublicKey, e: &str, x: bool) -> PublicKey {
    let e = match e {
        "o8a" | "o8b" if !x => "zero",
        e => e,
    };
    let unc = || EcdsaSecp256k1Sha256::new().public_key_uncompressed(p);
    let near = |d: i32, top: bool| {
        let mut v = vec![255u8; 32];
        v[0] = (0xed + d) as u8;
        v[31] = if top { 255 } else { 127 };
        v
    };
    let pt = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut v = p[..].to_vec();
        f(&mut v);
        v
    };
    PublicKey(match e {
        "unc" => unc(),
        "uncshort" => edit(&unc(), "short", 0),
        "uncoff" => edit(&unc(), "flip", 64),
        // no point has this first coordinate
        "off" => pt(&|v| {
            v[1..].copy_from_slice(&[0; 32]);
            v[32] = 5;
        }),
        "tag" => pt(&|v| v[0] = 5),
        "inf" => vec![0],
        "top" => pt(&|v| v[31] ^= 128),
        "topzero" => {
            let mut v = vec![0; 32];
            v[31] = 128;
            v
        }
        "one" => {
            let mut v = vec![0; 32];
            v[0] = 1;
            v
        }
        "p" => near(0, false),
        "p1" => near(1, false),
        "pm1" => near(-1, false),
        "toppm1" => near(-1, true),
        "o8a" => hx("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        "o8b" => hx("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        e => edit(&p[..], e, 0),
    })
}
impl<S: KFam + Send + Sync> Sys for Kex<S> {
    fn fork(&self) -> Self {
        Kex { ph: self.ph, keys: self.keys.clone(), secs: self.secs.clone() }
    }
    fn step(&mut self, c: &Value) -> Value {
        guard(|| {
            let s = S::new();
            let key = |c: &Value| &self.keys[us(c) - 1];
            let ske = |k: &PrivateKey, e: &str| {
                PrivateKey(match e {
                    "n" => N256.to_vec(),
                    e => edit(&k[..], e, 0),
                })
            };
            match st(&c["op"]) {
                "new" => {
                    self.keys.clear();
                    self.secs.clear();
                    json!("ok")
                }
                "key" => {
                    let x = c.get("x");
                    let from = |k: PrivateKey| s.keypair(Some(KeyGenOption::FromSecretKey(k)));
                    let r = match st(&c["t"]) {
                        "rand" => s.keypair(None),
                        "seed" => s.keypair(Some(KeyGenOption::UseSeed(seed(us(&c["len"]), us(x.unwrap()))))),
                        "sk" => from(key(&c["i"]).1.clone()),
                        "raw" => from(PrivateKey(raw(st(x.unwrap()), S::X))),
                        "ed" => {
                            let (p, k) = Ed25519Sha512::new().keypair(Some(KeyGenOption::UseSeed(seed(40, us(x.unwrap()))))).unwrap();
                            let p = Ed25519Sha512::ver_key_to_key_exchange(&p).unwrap();
                            let k = Ed25519Sha512::sign_key_to_key_exchange(&k).unwrap();
                            let q = from(k.clone()).unwrap();
                            if q != (p, k) {
                                return json!("mismatch");
                            }
                            Ok(q)
                        }
                        "bad" => from(ske(&key(&c["i"]).1, st(&c["e"]))),
                        t => harness!("key {}", t),
                    };
                    match r {
                        Err(_) => json!("err"),
                        Ok(p) => {
                            if p.0.len() != S::public_key_size() || p.1.len() != S::private_key_size() {
                                return json!("size");
                            }
                            let r = first(&self.keys, &p);
                            self.keys.push(p);
                            r
                        }
                    }
                }
                "secret" => {
                    let k = ske(&key(&c["i"]).1, st(&c["se"]));
                    let p = pk_edit(&key(&c["j"]).0, st(&c["pe"]), S::X);
                    match s.compute_shared_secret(&k, &p) {
                        Err(_) => json!("err"),
                        Ok(x) => {
                            if x.len() != S::shared_secret_size() {
                                return json!("size");
                            }
                            if s.compute_shared_secret(&js(&k), &js(&p)).ok() != Some(x.clone()) {
                                return json!("split");
                            }
                            let x = x[..].to_vec();
                            let r = first(&self.secs, &x);
                            self.secs.push(x);
                            r
                        }
                    }
                }
                "long" => {
                    let (p, k) = key(&c["i"]);
                    let mut v = k[..].to_vec();
                    v.resize(32 + us(&c["n"]), 9);
                    let v = PrivateKey(v);
                    let a = match s.keypair(Some(KeyGenOption::FromSecretKey(v.clone()))) {
                        Ok((q, l)) => q == *p && l == *k,
                        Err(_) => true,
                    };
                    let b = match s.compute_shared_secret(&v, p) {
                        Ok(x) => x == s.compute_shared_secret(k, p).unwrap(),
                        Err(_) => true,
                    };
                    json!(if a && b { "ok" } else { "other" })
                }
                "conv" => {
                    let e = EcdsaSecp256k1Sha256::new();
                    let p = key(&c["i"]).0.clone();
                    let mut q = p.clone();
                    for x in arr(&c["path"]) {
                        q = match st(x) {
                            "c" => PublicKey(e.public_key_compressed(&q)),
                            "u" => {
                                let u = PublicKey(e.public_key_uncompressed(&q));
                                if u.len() != EcdsaSecp256k1Sha256::public_key_uncompressed_size() || u[0] != 4 || u[1..33] != p[1..33] {
                                    return json!("size");
                                }
                                u
                            }
                            _ => match e.parse(&q[..]) {
                                Ok(q) => q,
                                Err(_) => return json!("err"),
                            },
                        };
                    }
                    // in the end it is still the same key
                    match e.parse(&q[..]) {
                        Ok(q) => json!(if q == p { "same" } else { "other" }),
                        Err(_) => json!("err"),
                    }
                }
                "convbad" => {
                    let e = EcdsaSecp256k1Sha256::new();
                    let p = pk_edit(&key(&c["i"]).0, st(&c["e"]), S::X);
                    match st(&c["f"]) {
                        "p" => json!(if e.parse(&p[..]).is_err() { "err" } else { "ok" }),
                        "c" => {
                            e.public_key_compressed(&p);
                            json!("ok")
                        }
                        _ => {
                            e.public_key_uncompressed(&p);
                            json!("ok")
                        }
                    }
                }
                x => harness!("op {}", x),
            }
        })
    }
}
fn kex_record<S: KFam + Send + Sync>(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Kex::<S>::new();
    let mut n = 0;
    let lens = [0, 1, 7, 31, 32, 33, 48, 64, 100, 1000];
    while rec.n < a.n {
        if rec.n == 0 || r.gen_range(0, 60) == 0 {
            rec.call(&mut s, json!({"op":"new"}));
            n = 0;
        }
        let k = if n == 0 { 0 } else { r.gen_range(1, n + 1) };
        let j = if n == 0 { 0 } else { r.gen_range(1, n + 1) };
        match r.gen_range(0, 10) {
            0 | 1 if n < 7 => {
                let v = match r.gen_range(0, 6) {
                    0 | 1 => json!({"op":"key","t":"seed","len":lens[r.gen_range(0, lens.len())],"x":r.gen_range(0, 3)}),
                    2 if S::X => json!({"op":"key","t":"ed","x":r.gen_range(0, 3)}),
                    2 => json!({"op":"key","t":"raw","x":(["one","n1","zero"][r.gen_range(0, 3)])}),
                    3 if k > 0 => json!({"op":"key","t":"sk","i":k}),
                    _ => json!({"op":"key","t":"rand"}),
                };
                if rec.call(&mut s, v) != "err" {
                    n += 1;
                }
            }
            2 if k > 0 && !S::X => {
                let p: Vec<&str> = (0..r.gen_range(1, 8)).map(|_| ["c", "u", "p"][r.gen_range(0, 3)]).collect();
                rec.call(&mut s, json!({"op":"conv","i":k,"path":p}));
            }
            3 if k > 0 && S::X => {
                rec.call(&mut s, json!({"op":"long","i":k,"n":r.gen_range(1, 100)}));
            }
            _ if k > 0 => {
                rec.call(&mut s, json!({"op":"secret","i":k,"j":j,"se":"none","pe":"none"}));
            }
            _ => {}
        }
    }
}

fn main() {
    let a = args();
    match (a.mode.as_str(), a.opt.get("what").map(|x| x.as_str()).unwrap_or("")) {
        ("replay", "ed") => replay(&a, |_| Sigs::<Ed25519Sha512>::new()),
        ("replay", "secp") => replay(&a, |_| Sigs::<EcdsaSecp256k1Sha256>::new()),
        ("record", "ed") => sig_record::<Ed25519Sha512>(&a),
        ("record", "secp") => sig_record::<EcdsaSecp256k1Sha256>(&a),
        ("replay", "x") => replay(&a, |_| Kex::<X25519Sha256>::new()),
        ("replay", "ecdh") => replay(&a, |_| Kex::<EcdhSecp256k1Sha256>::new()),
        ("record", "x") => kex_record::<X25519Sha256>(&a),
        ("record", "ecdh") => kex_record::<EcdhSecp256k1Sha256>(&a),
        _ => panic!("HARNESS mode"),
    }
}
