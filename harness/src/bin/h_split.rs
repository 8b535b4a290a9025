//! C14: splitting of byte strings.
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::HashSet;
use ursa::bn::BigNumber;
use ursa::sharing::shamir::*;
use vh::*;

const ED: &str = "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED";
const BLS: &str = "73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001";
#[derive(Clone)]
struct Spl {
    p: u64,
    dealt: Vec<Share>,
}
fn n(x: u64) -> BigNumber {
    BigNumber::from_dec(&x.to_string()).unwrap()
}
fn field(p: u64, f: &str) -> BigNumber {
    match f {
        "zero" => n(0),
        "one" => n(1),
        "small" => n(p),
        "p257" => n(257),
        "m61" => n((1 << 61) - 1),
        "ed" => BigNumber::from_hex(ED).unwrap(),
        "bls" => BigNumber::from_hex(BLS).unwrap(),
        x => harness!("field {}", x),
    }
}
/// The number by class.
fn number(q: &BigNumber, s: &str) -> BigNumber {
    match s {
        "zero" | "empty" => n(0),
        "one" => n(1),
        "max" => q.sub(&n(1)).unwrap(),
        "size" => q.try_clone().unwrap(),
        "over" => q.add(&n(300)).unwrap(),
        "mid" => {
            // something between, all bytes of which matter; the largest there is in tiny fields
            let h = q.rshift1().unwrap();
            if h > n(1 << 40) { h.sub(&n(0x1234567)).unwrap() } else { h }
        }
        x => harness!("secret {}", x),
    }
}
fn secret(q: &BigNumber, s: &str, z: usize) -> Vec<u8> {
    if s == "empty" {
        return vec![];
    }
    let mut o = vec![0; z];
    o.extend(number(q, s).to_bytes().unwrap());
    if o.is_empty() {
        o.push(0);
    }
    o
}
fn dec(b: &[u8]) -> String {
    BigNumber::from_bytes(b).unwrap().to_dec().unwrap()
}
fn shares(v: &Value) -> Vec<Share> {
    arr(v).iter().map(|s| Share { identifier: us(&s[0]) as u8, value: n(us(&s[1]) as u64) }).collect()
}
impl Sys for Spl {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let small = n(self.p);
        let out = |r: ursa::CryptoResult<Vec<u8>>| match r {
            Ok(b) => json!(dec(&b)),
            Err(_) => json!("err"),
        };
        match st(&c["op"]) {
            "combine" => out(combine_shares(shares(&c["sh"]), &small)),
            "round" => {
                let q = field(self.p, st(&c["f"]));
                let s = secret(&q, st(&c["s"]), us(&c["z"]));
                let r = split_secret(&s, us(&c["t"]) as u8, us(&c["n"]) as u8, &q);
                let r = match r {
                    Ok(r) => r,
                    Err(_) => return json!("nosplit"),
                };
                if r.len() != us(&c["n"]) || r.iter().enumerate().any(|(i, s)| s.identifier as usize != i + 1) {
                    return json!("shares");
                }
                let mut p: Vec<Share> = arr(&c["pick"]).iter().map(|i| r[us(i) - 1].clone()).collect();
                if c["how"] == "bytes" {
                    p = p.iter().map(|s| Share::from_bytes(&s.to_bytes(), &q).unwrap()).collect();
                }
                match combine_shares(p, &q) {
                    Ok(b) => json!(if dec(&b) == dec(&s) { "same" } else { "other" }),
                    Err(_) => json!("err"),
                }
            }
            "from" | "fromno" => {
                let b: Vec<u8> = arr(&c["b"]).iter().map(|x| us(x) as u8).collect();
                let q = if c["op"] == "from" { small } else { field(self.p, st(&c["f"])) };
                match Share::from_bytes(&b, &q) {
                    Ok(s) => json!(format!("{}:{}", s.identifier, s.value.to_dec().unwrap())),
                    Err(_) => json!("err"),
                }
            }
            "share" => {
                let q = field(self.p, st(&c["f"]));
                let s = Share { identifier: us(&c["id"]) as u8, value: number(&q, st(&c["s"])) };
                let t = Share::from_bytes(&s.to_bytes(), &q).unwrap();
                json!(if t.identifier == s.identifier && t.value == s.value { "same" } else { "other" })
            }
            "odd" => {
                let neg = n(3).set_negative(true).unwrap();
                let s = |i, v: &BigNumber| Share { identifier: i, value: v.try_clone().unwrap() };
                match st(&c["e"]) {
                    "negid" | "negval" => out(combine_shares(vec![s(1, &neg), s(2, &n(2))], &small)),
                    "negfield" => {
                        let _ = split_secret(b"a", 2, 3, &neg).map(|_| ());
                        let _ = Share::from_bytes(b"ab", &neg).map(|_| ());
                        out(combine_shares(vec![s(1, &n(1)), s(2, &n(2))], &neg))
                    }
                    "zeroval" => out(combine_shares(vec![s(1, &n(0)), s(2, &n(0))], &small)),
                    _ => out(combine_shares((0..255).map(|i| s(i, &n(0))).collect::<Vec<_>>(), &small)),
                }
            }
            "split" => match split_secret(n(us(&c["secret"]) as u64).to_bytes().map(|mut b| { b.insert(0, 0); b }).unwrap(), us(&c["t"]) as u8, us(&c["n"]) as u8, &small) {
                Ok(r) => {
                    self.dealt = r;
                    Value::Array(self.dealt.iter().map(|s| json!([s.identifier, s.value.to_dec().unwrap().parse::<u64>().unwrap()])).collect())
                }
                Err(_) => json!([]),
            },
            "recover" => {
                let p: Vec<Share> = arr(&c["pick"]).iter().map(|i| self.dealt[us(i) - 1].clone()).collect();
                out(combine_shares(p, &small))
            }
            "spread" => {
                let t = us(&c["t"]);
                let mut seen = HashSet::new();
                for _ in 0..40 * (self.p as usize).pow(t as u32 - 1) {
                    let r = split_secret(&[us(&c["secret"]) as u8], t as u8, t as u8, &small).unwrap();
                    seen.insert(r[1..].iter().map(|s| s.value.to_dec().unwrap()).collect::<Vec<_>>());
                }
                json!(seen.len().to_string())
            }
            x => harness!("op {}", x),
        }
    }
}
fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Spl { p: 257, dealt: vec![] };
    if a.mode == "spread" {
        s.p = 5;
        for t in 2..5 {
            for x in 0..5 {
                rec.call(&mut s, json!({"op":"spread","t":t,"secret":x}));
            }
        }
        return;
    }
    while rec.n < a.n {
        let tot = if r.gen_range(0, 12) == 0 { r.gen_range(60, 90) } else { r.gen_range(2, 12) };
        let t = r.gen_range(0, tot.min(14) + 2);
        let sec = r.gen_range(0, 262);
        let v = rec.call(&mut s, json!({"op":"split","t":t,"n":tot,"secret":sec}));
        if arr(&v).is_empty() {
            continue;
        }
        for _ in 0..6 {
            let mut p: Vec<usize> = (1..=tot).collect();
            p.shuffle(&mut r);
            p.truncate(match r.gen_range(0, 4) {
                0 => t,
                1 => r.gen_range(0, tot.min(30) + 1),
                2 => (t + 1).min(tot),
                _ => r.gen_range(t, tot.min(t + 6) + 1),
            });
            if r.gen_range(0, 6) == 0 && !p.is_empty() {
                let x = p[r.gen_range(0, p.len())];
                p.push(x);
            }
            rec.call(&mut s, json!({"op":"recover","pick":p}));
        }
    }
}
fn main() {
    let a = args();
    let p = a.opt.get("p").map_or(5, |x| x.parse().unwrap());
    match a.mode.as_str() {
        "replay" => replay(&a, |_| Spl { p, dealt: vec![] }),
        _ => record(&a),
    }
}
