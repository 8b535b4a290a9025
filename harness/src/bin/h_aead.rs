//! C13: authenticated encryption.
use rand::Rng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::io::{Cursor, Read, Write};
use std::str::FromStr;
use ursa::encryption::symm::prelude::*;
use vh::*;

#[derive(Clone)]
struct Bx {
    easy: bool,
    nonce: Vec<u8>,
    m: Vec<u8>,
    /// with the nonce in front if easy
    c: Vec<u8>,
}
#[derive(Clone)]
struct Aead {
    ci: String,
    boxes: Vec<Bx>,
}
fn bytes(len: usize, x: usize) -> Vec<u8> {
    (0..len).map(|i| (i * 31 + 5 + x) as u8).collect()
}
fn aad(a: usize) -> Vec<u8> {
    match a {
        0 => vec![],
        1 => vec![0],
        2 => vec![1],
        3 => bytes(40, 0),
        4 => bytes(40, 1),
        _ => bytes(a * 13, 0),
    }
}
struct Fails;
impl Read for Fails {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
    }
}
impl Write for Fails {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Gives a few bytes at a time.
struct Slow<'a>(&'a [u8]);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(5);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn ty(ci: &str) -> Option<EncryptorType> {
    Some(match ci {
        "aes-128-cbc-hmac-256" => EncryptorType::Aes128CbcHmac256,
        "aes-256-cbc-hmac-512" => EncryptorType::Aes256CbcHmac512,
        "aes-128-gcm" => EncryptorType::Aes128Gcm,
        "aes-256-gcm" => EncryptorType::Aes256Gcm,
        "xchacha20poly1305" => EncryptorType::XChaCha20Poly1305,
        _ => return None,
    })
}
/// Lengths of key, nonce.
fn lens(ci: &str) -> (usize, usize) {
    match ci {
        "aes-128-cbc-hmac-256" => (32, 16),
        "aes-256-cbc-hmac-512" => (64, 16),
        "aes-128-gcm" => (16, 12),
        "aes-256-gcm" => (32, 12),
        "chacha20poly1305" => (32, 12),
        "xchacha20poly1305" => (32, 24),
        x => harness!("cipher {}", x),
    }
}
fn run<E: Encryptor + Default + Serialize + DeserializeOwned + PartialEq>(s: &mut Aead, c: &Value) -> Value {
    let ci = s.ci.clone();
    let (kl, nl) = lens(&ci);
    let key = |k: &Value| bytes(kl, us(k) * 9);
    let enc = |k: &[u8]| SymmetricEncryptor::<E>::new_with_key(k).unwrap();
    let nonce = |n: &Value| bytes(nl, 100 + us(n));
    let op = st(&c["op"]);
    match op {
        "enc" => {
            let (k, a, via) = (key(&c["k"]), aad(us(&c["a"])), st(&c["via"]));
            let m = bytes(us(&c["m"]["len"]), us(&c["m"]["x"]));
            let n = if us(&c["n"]) > 0 { nonce(&c["n"]) } else { vec![] };
            let r = match via {
                "raw" => enc(&k).encrypt(&n[..], &a[..], &m[..]),
                "dyn" => ty(&ci).unwrap().gen_encryptor(&k).encrypt(&n, &a, &m),
                "easy" => enc(&k).encrypt_easy(&a, &m),
                "dyneasy" => ty(&ci).unwrap().gen_encryptor(&k).encrypt_easy(&a, &m),
                _ => {
                    let mut o = vec![];
                    enc(&k).encrypt_buffer(&a, &mut Slow(&m), &mut o).map(|_| o)
                }
            };
            match r {
                Err(_) => json!("err"),
                Ok(x) => {
                    let easy = n.is_empty();
                    let j = s.boxes.iter().position(|b| b.c == x).unwrap_or(s.boxes.len()) + 1;
                    let r = json!(format!("={}:{}", j, x.len()));
                    let nonce = if easy { x[..nl].to_vec() } else { n };
                    s.boxes.push(Bx { easy, nonce, m, c: x });
                    r
                }
            }
        }
        "dec" => {
            let b = &s.boxes[us(&c["i"]) - 1];
            let (k, via) = (key(&c["k"]), st(&c["via"]));
            let mut a = aad(us(&c["a"]));
            let n = if c["own"] == true { b.nonce.clone() } else { nonce(&c["n"]) };
            // nonce and ciphertext
            let mut x = n.clone();
            x.extend_from_slice(if b.easy { &b.c[nl..] } else { &b.c });
            let inside = !(via == "raw" || via == "dyn");
            let pos = us(&c["pos"]);
            let mut n = n;
            let mut y = x[nl..].to_vec();
            match st(&c["e"]) {
                "none" => {}
                // where the nonce is inside, alterations reach it
                "flip" => x[pos] ^= 1 << (pos % 8),
                "cut" => {
                    x.truncate(pos);
                    y.truncate(pos);
                }
                "append" => {
                    x.push(0);
                    y.push(0);
                }
                "dropfirst" => {
                    x.remove(0);
                    y.remove(0);
                }
                "empty" => {
                    x.clear();
                    y.clear();
                }
                "zero" => {
                    x = vec![0; x.len()];
                    y = vec![0; y.len()];
                }
                "swap" => {
                    x.rotate_left(1);
                    y.rotate_left(1);
                    // all bytes the same
                    if y[0] == y[y.len() - 1] && y.windows(2).all(|w| w[0] == w[1]) {
                        y.push(0);
                    }
                }
                "double" => {
                    let z = x.clone();
                    x.extend(z);
                    let z = y.clone();
                    y.extend(z);
                }
                // the same bytes in all, divided otherwise among associated data, nonce and ciphertext
                "shift" | "cbcshift" => {
                    a.extend_from_slice(&x[..nl]);
                    x = x[nl..].to_vec();
                    if y.len() < nl {
                        return json!("err");
                    }
                    n = y[..nl].to_vec();
                    y = y[nl..].to_vec();
                }
                "back" | "cbcback" => {
                    if a.len() < nl {
                        return json!("err");
                    }
                    let t = a.split_off(a.len() - nl);
                    let mut z = t.clone();
                    z.extend_from_slice(&x);
                    x = z;
                    let mut z = n.clone();
                    z.extend_from_slice(&y);
                    y = z;
                    n = t;
                }
                e => harness!("edit {}", e),
            }
            let r = match via {
                "raw" => enc(&k).decrypt(&n[..], &a[..], &y[..]),
                "dyn" => ty(&ci).unwrap().gen_encryptor(&k).decrypt(&n, &a, &y),
                "easy" => enc(&k).decrypt_easy(&a, &x),
                "dyneasy" => ty(&ci).unwrap().gen_encryptor(&k).decrypt_easy(&a, &x),
                _ => {
                    let mut o = vec![];
                    let r = enc(&k).decrypt_buffer(&a, &mut Slow(&x), &mut o);
                    if r.is_err() && !o.is_empty() {
                        return json!("leak");
                    }
                    r.map(|_| o)
                }
            };
            let _ = inside;
            match r {
                Err(_) => json!("err"),
                Ok(p) => json!(if p == b.m { "same" } else { "other" }),
            }
        }
        "key" => {
            let k = bytes(us(&c["len"]), 0);
            let t = ty(&ci).map(|t| t.is_valid_keysize(k.len()));
            let r = SymmetricEncryptor::<E>::new_with_key(&k).is_ok();
            json!(if t.unwrap_or(r) != r { "split" } else if r { "ok" } else { "err" })
        }
        "nonce" => {
            let n = bytes(us(&c["len"]), 0);
            let k = key(&json!(1));
            let a = aad(1);
            // a ciphertext for this nonce, if it is one
            let z: Vec<u8> = if n.len() == nl && st(&c["d"]) == "dec" { enc(&k).encrypt(&n[..], &a[..], &b"msg"[..]).unwrap() } else { bytes(100, 3) };
            let r = match (st(&c["via"]), st(&c["d"])) {
                ("raw", "enc") => enc(&k).encrypt(&n[..], &a[..], &z[..]).is_ok(),
                ("raw", _) => enc(&k).decrypt(&n[..], &a[..], &z[..]).is_ok(),
                (_, "enc") => ty(&ci).unwrap().gen_encryptor(&k).encrypt(&n, &a, &z).is_ok(),
                _ => ty(&ci).unwrap().gen_encryptor(&k).decrypt(&n, &a, &z).is_ok(),
            };
            let t = ty(&ci).map(|t| t.is_valid_noncesize(n.len()) && t.gen_encryptor(&k).noncesize() == n.len() && t.gen_encryptor(&k).keysize() == kl);
            json!(if t.unwrap_or(r) != r { "split" } else if r { "ok" } else { "err" })
        }
        "ser" => {
            let e = E::default();
            let j = serde_json::to_string(&e).unwrap();
            let h = j.trim_matches('"').to_string();
            let j = match st(&c["e"]) {
                "none" => j,
                "short" => format!("\"{}\"", &h[2..]),
                "long" => format!("\"{}00\"", h),
                "empty" => "\"\"".to_string(),
                "hex" => format!("\"{}zz\"", &h[2..]),
                _ => format!("\"{}\"", &h[1..]),
            };
            match serde_json::from_str::<E>(&j) {
                Err(_) => json!("err"),
                Ok(d) => {
                    let m = bytes(20, 0);
                    let x = Encryptor::encrypt_easy(&e, &m, &m).unwrap();
                    json!(if e == d && Encryptor::decrypt_easy(&d, &m, &x).ok() == Some(m.clone()) { "same" } else { "other" })
                }
            }
        }
        "type" => match EncryptorType::from_str(st(&c["s"])) {
            Err(_) => json!("err"),
            Ok(t) => {
                if t.to_string() != st(&c["s"]) {
                    return json!("split");
                }
                json!(if Some(t) == ty(&ci) { "same" } else { "other" })
            }
        },
        "io" => {
            let e = enc(&key(&json!(1)));
            let (a, m) = (aad(1), bytes(20, 0));
            let x = e.encrypt_easy(&a, &m).unwrap();
            let mut o = vec![];
            let r = match st(&c["w"]) {
                "eread" => e.encrypt_buffer(&a, &mut Fails, &mut o),
                "ewrite" => e.encrypt_buffer(&a, &mut Cursor::new(m), &mut Fails),
                "dread" => e.decrypt_buffer(&a, &mut Fails, &mut o),
                _ => e.decrypt_buffer(&a, &mut Cursor::new(x), &mut Fails),
            };
            json!(if r.is_err() && o.is_empty() { "err" } else { "ok" })
        }
        x => harness!("op {}", x),
    }
}
impl Sys for Aead {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        if st(&c["op"]) == "new" {
            self.ci = st(&c["ci"]).into();
            self.boxes.clear();
            return json!("ok");
        }
        match &self.ci[..] {
            "aes-128-cbc-hmac-256" => run::<Aes128CbcHmac256>(self, c),
            "aes-256-cbc-hmac-512" => run::<Aes256CbcHmac512>(self, c),
            "aes-128-gcm" => run::<Aes128Gcm>(self, c),
            "aes-256-gcm" => run::<Aes256Gcm>(self, c),
            "chacha20poly1305" => run::<ChaCha20Poly1305>(self, c),
            "xchacha20poly1305" => run::<XChaCha20Poly1305>(self, c),
            x => harness!("cipher {}", x),
        }
    }
}
fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let cs = ["aes-128-cbc-hmac-256", "aes-256-cbc-hmac-512", "aes-128-gcm", "aes-256-gcm", "chacha20poly1305", "xchacha20poly1305"];
    let mut s = Aead { ci: cs[0].into(), boxes: vec![] };
    let mut made: Vec<(i64, i64)> = vec![];
    let mut ci = cs[0];
    while rec.n < a.n {
        if rec.n == 0 || r.gen_range(0, 60) == 0 {
            ci = cs[r.gen_range(0, cs.len())];
            rec.call(&mut s, json!({"op":"new","ci":ci}));
            made.clear();
        }
        let mut vias = vec!["raw", "easy", "buffer"];
        if ty(ci).is_some() {
            vias.extend(&["dyn", "dyneasy"]);
        }
        let via = vias[r.gen_range(0, vias.len())];
        if made.len() < 8 && r.gen_range(0, 3) == 0 || made.is_empty() {
            let len = match r.gen_range(0, 3) {
                0 => r.gen_range(0, 20),
                1 => r.gen_range(0, 20) * 16,
                _ => r.gen_range(0, 5000),
            };
            let (k, aa) = (r.gen_range(1, 4), r.gen_range(0, 40));
            let n = if via == "raw" || via == "dyn" { r.gen_range(1, 20) } else { 0 };
            let e = rec.call(&mut s, json!({"op":"enc","k":k,"a":aa,"n":n,"m":{"len":len,"x":r.gen_range(0, 2)},"via":via}));
            if e != "err" {
                made.push((k, aa));
            }
        } else {
            let i = r.gen_range(0, made.len());
            let (k, aa) = made[i];
            let mut c = json!({"op":"dec","i":i+1,"k":k,"a":aa,"n":0,"own":true,"e":"none","pos":0,"via":via});
            match r.gen_range(0, 8) {
                0 => c["k"] = json!(r.gen_range(1, 4)),
                1 => c["a"] = json!(r.gen_range(0, 40)),
                2 => {
                    c["own"] = json!(false);
                    c["n"] = json!(r.gen_range(1, 20))
                }
                3 => c["e"] = json!((["append", "dropfirst", "empty", "zero", "swap", "double"][r.gen_range(0, 6)])),
                4 => {
                    let b = &s.boxes[i];
                    let l = b.c.len() + if b.easy { 0 } else { lens(ci).1 };
                    c["e"] = json!("cut");
                    c["pos"] = json!(if via == "raw" || via == "dyn" { r.gen_range(0, l - lens(ci).1) } else { r.gen_range(0, l) });
                    if r.gen_range(0, 2) == 0 && via != "raw" && via != "dyn" {
                        c["e"] = json!("flip");
                    }
                }
                _ => {}
            }
            rec.call(&mut s, c);
        }
    }
}
fn main() {
    let a = args();
    match a.mode.as_str() {
        "replay" => replay(&a, |v| Aead { ci: st(&v[0]).into(), boxes: vec![] }),
        "record" => record(&a),
        _ => panic!("HARNESS mode"),
    }
}
