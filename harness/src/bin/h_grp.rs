//! C28: scalars, points and pairings.
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use rand::Rng;
use serde_json::{json, Value};
use std::sync::Arc;
use ursa::pair::*;
use vh::*;

const ORDER: &str = "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D";
fn order() -> BigInt {
    BigInt::parse_bytes(ORDER.as_bytes(), 16).unwrap()
}
fn scalar(x: &BigInt) -> GroupOrderElement {
    let b = x.to_bytes_be().1;
    GroupOrderElement::from_bytes(&b).unwrap()
}
fn residue(n: i64, d: i64) -> BigInt {
    let r = order();
    let inv = BigInt::from(d).modpow(&(&r - 2), &r);
    (BigInt::from(n) * inv).mod_floor(&r)
}
#[derive(Clone, Copy)]
enum El {
    S(GroupOrderElement),
    P(PointG1),
    Q(PointG2),
    T(Pair),
}
struct Tab {
    p: PointG1,
    q: PointG2,
    rats: Vec<(i64, i64)>,
    s: Vec<Vec<u8>>,
    g1: Vec<PointG1>,
    g2: Vec<PointG2>,
    gt: Vec<Pair>,
}
#[derive(Clone)]
struct Grp {
    t: Arc<Tab>,
    e: El,
}
fn bytes32(x: &BigInt) -> Vec<u8> {
    let b = x.to_bytes_be().1;
    let mut o = vec![0; 32 - b.len()];
    o.extend(b);
    o
}
impl Tab {
    fn new(n: i64, d: i64) -> Tab {
        let p = PointG1::new().unwrap();
        let q = PointG2::new().unwrap();
        let e = Pair::pair(&p, &q).unwrap();
        let mut t = Tab { p, q, rats: vec![], s: vec![], g1: vec![], g2: vec![], gt: vec![] };
        for dd in 1..=d {
            for nn in -n..=n {
                if nn.gcd(&dd) != 1 {
                    continue;
                }
                let x = residue(nn, dd);
                let k = scalar(&x);
                t.rats.push((nn, dd));
                t.s.push(bytes32(&x));
                // small integers by adding up, the others by multiplication
                let mut a = (PointG1::new_inf().unwrap(), PointG2::new_inf().unwrap());
                let mut c = Pair::pair(&p, &a.1).unwrap();
                if dd == 1 {
                    for _ in 0..nn.abs() {
                        a = (a.0.add(&p).unwrap(), a.1.add(&q).unwrap());
                        c = c.mul(&e).unwrap();
                    }
                    if nn < 0 {
                        a = (a.0.neg().unwrap(), a.1.neg().unwrap());
                        c = c.inverse().unwrap();
                    }
                } else {
                    a = (p.mul(&k).unwrap(), q.mul(&k).unwrap());
                    c = e.pow(&k).unwrap();
                }
                t.g1.push(a.0);
                t.g2.push(a.1);
                t.gt.push(c);
            }
        }
        t
    }
    fn at(&self, v: &Value) -> usize {
        let (n, d) = (int(&arr(v)[0]), int(&arr(v)[1]));
        self.rats.iter().position(|x| *x == (n, d)).unwrap_or_else(|| harness!("rational {}/{}", n, d))
    }
    fn sc(&self, v: &Value, way: &str) -> GroupOrderElement {
        let x = BigInt::from_bytes_be(Sign::Plus, &self.s[self.at(v)]);
        scalar(&if way == "over" { x + order() } else { x })
    }
    fn name(&self, e: &El) -> Value {
        let (k, m): (&str, Vec<bool>) = match e {
            El::S(s) => {
                let b = s.to_bytes().unwrap();
                ("s", self.s.iter().map(|x| *x == b).collect())
            }
            El::P(p) => ("g1", self.g1.iter().map(|x| x == p).collect()),
            El::Q(p) => ("g2", self.g2.iter().map(|x| x == p).collect()),
            El::T(p) => ("gt", self.gt.iter().map(|x| x == p).collect()),
        };
        let h: Vec<usize> = m.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
        json!(match h.len() {
            0 => format!("{} unknown", k),
            1 => format!("{} {}/{}", k, self.rats[h[0]].0, self.rats[h[0]].1),
            _ => format!("{} ambiguous {:?}", k, h),
        })
    }
}
fn de<T: for<'a> serde::Deserialize<'a>>(s: &str, how: &str) -> Option<T> {
    serde_json::from_str(&if how == "raw" { s.to_string() } else { serde_json::to_string(s).unwrap() }).ok()
}
impl Sys for Grp {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let t = self.t.clone();
        let op = st(&c["op"]);
        let yes = |b: bool| json!(if b { "yes" } else { "no" });
        let w = c.get("w").map_or("plain", st);
        let e = self.e;
        let b = c.get("b").map(|b| t.at(b));
        let new = match (op, e) {
            ("load", _) => El::S(t.sc(&c["b"], w).mul_mod(&scalar(&BigInt::from(1))).unwrap()),
            ("add", El::S(s)) => El::S(s.add_mod(&t.sc(&c["b"], w)).unwrap()),
            ("add", El::P(p)) => El::P(p.add(&t.g1[b.unwrap()]).unwrap()),
            ("add", El::Q(p)) => El::Q(p.add(&t.g2[b.unwrap()]).unwrap()),
            ("add", El::T(p)) => El::T(p.mul(&t.gt[b.unwrap()]).unwrap()),
            ("sub", El::S(s)) => El::S(s.sub_mod(&t.sc(&c["b"], w)).unwrap()),
            ("sub", El::P(p)) => El::P(p.sub(&t.g1[b.unwrap()]).unwrap()),
            ("sub", El::Q(p)) => El::Q(p.sub(&t.g2[b.unwrap()]).unwrap()),
            ("mul", El::S(s)) => El::S(s.mul_mod(&t.sc(&c["b"], w)).unwrap()),
            ("mul", El::P(p)) => El::P(p.mul(&t.sc(&c["b"], w)).unwrap()),
            ("mul", El::Q(p)) => El::Q(p.mul(&t.sc(&c["b"], w)).unwrap()),
            ("mul", El::T(p)) => El::T(p.pow(&t.sc(&c["b"], w)).unwrap()),
            ("neg", El::S(s)) => El::S(s.mod_neg().unwrap()),
            ("neg", El::P(p)) => El::P(p.neg().unwrap()),
            ("neg", El::Q(p)) => El::Q(p.neg().unwrap()),
            ("neg", El::T(p)) => El::T(p.inverse().unwrap()),
            ("inv", El::S(s)) => match s.inverse() {
                Ok(x) => El::S(x),
                Err(_) => return json!("err"),
            },
            ("pow", El::S(s)) => El::S(s.pow_mod(&scalar(&BigInt::from(int(&c["n"])))).unwrap()),
            ("fermat", El::S(s)) => El::S(s.pow_mod(&scalar(&(order() - 1))).unwrap()),
            ("to1", El::S(s)) => El::P(t.p.mul(&s).unwrap()),
            ("to2", El::S(s)) => El::Q(t.q.mul(&s).unwrap()),
            ("pair", El::P(p)) => El::T(Pair::pair(&p, &t.g2[b.unwrap()]).unwrap()),
            ("pair", El::Q(q)) => El::T(Pair::pair(&t.g1[b.unwrap()], &q).unwrap()),
            ("pair2", El::P(p)) => El::T(Pair::pair2(&p, &t.g2[b.unwrap()], &t.g1[t.at(&c["x"])], &t.g2[t.at(&c["y"])]).unwrap()),
            ("pair2", El::Q(q)) => El::T(Pair::pair2(&t.g1[t.at(&c["x"])], &t.g2[t.at(&c["y"])], &t.g1[b.unwrap()], &q).unwrap()),
            ("inf", _) => {
                if c["k"] == "g1" {
                    El::P(PointG1::new_inf().unwrap())
                } else {
                    El::Q(PointG2::new_inf().unwrap())
                }
            }
            ("zero", e) => {
                return yes(match e {
                    El::P(p) => p.is_inf().unwrap(),
                    El::Q(q) => q == PointG2::new_inf().unwrap(),
                    El::T(x) => x.is_unity().unwrap(),
                    _ => harness!("zero"),
                })
            }
            ("same", e) => {
                let b = b.unwrap();
                return yes(match e {
                    El::S(s) => s == scalar(&BigInt::from_bytes_be(Sign::Plus, &t.s[b])),
                    El::P(p) => p == t.g1[b],
                    El::Q(p) => p == t.g2[b],
                    El::T(p) => p == t.gt[b],
                });
            }
            ("text", e) => {
                let how = st(&c["how"]);
                macro_rules! tx {
                    ($x:expr, $t:ty) => {
                        match how {
                            "string" => <$t>::from_string(&$x.to_string().unwrap()).ok().map_or(false, |y| y == $x),
                            _ => serde_json::from_str::<$t>(&serde_json::to_string(&$x).unwrap()).ok().map_or(false, |y| y == $x),
                        }
                    };
                }
                macro_rules! by {
                    ($x:expr, $t:ty) => {
                        if how == "bytes" { <$t>::from_bytes(&$x.to_bytes().unwrap()).ok().map_or(false, |y| y == $x) } else { tx!($x, $t) }
                    };
                }
                let ok = match e {
                    El::S(x) => by!(x, GroupOrderElement),
                    El::P(x) => by!(x, PointG1),
                    El::Q(x) => by!(x, PointG2),
                    El::T(x) => tx!(x, Pair),
                };
                return json!(if ok { "same" } else { "other" });
            }
            ("read", _) => {
                let good = match st(&c["k"]) {
                    "s" => scalar(&residue(5, 3)).to_string().unwrap(),
                    "g1" => t.p.to_string().unwrap(),
                    "g2" => t.q.to_string().unwrap(),
                    _ => t.gt.last().unwrap().to_string().unwrap(),
                };
                let how = st(&c["how"]);
                let mut how2 = how;
                let s = match st(&c["e"]) {
                    "empty" => String::new(),
                    "short" => good.rsplitn(2, ' ').last().unwrap().to_string(),
                    "long" => format!("{} 1", good) + &"0".repeat(if c["k"] == "s" { 64 } else { 0 }),
                    "nohex" => good[..good.len() - 1].to_string() + "g",
                    "nul" => good.clone() + "\0",
                    "words" => good.split(' ').skip(2).collect::<Vec<_>>().join(" "),
                    "excess" => good.replacen("1 ", "99999999 ", 1).replacen("2 ", "99999999 ", 1),
                    "notcurve" => {
                        // a digit of the first coordinate
                        let i = good.find(' ').unwrap() + 20;
                        let d = if &good[i..i + 1] == "5" { "6" } else { "5" };
                        good[..i].to_string() + d + &good[i + 1..]
                    }
                    "number" => {
                        how2 = "raw";
                        "5".into()
                    }
                    x => harness!("bad {}", x),
                };
                macro_rules! rd {
                    ($t:ty) => {
                        if how == "string" { <$t>::from_string(&s).is_ok() } else { de::<$t>(&s, how2).is_some() }
                    };
                }
                let ok = match st(&c["k"]) {
                    "s" => rd!(GroupOrderElement),
                    "g1" => rd!(PointG1),
                    "g2" => rd!(PointG2),
                    _ => rd!(Pair),
                };
                return json!(if ok { "ok" } else { "err" });
            }
            ("law", _) => return json!(if law(st(&c["f"]), us(&c["seed"]) as u64) { "ok" } else { "broken" }),
            x => harness!("op {:?}", x.0),
        };
        self.e = new;
        t.name(&self.e)
    }
}
/// Laws on random elements.
fn law(f: &str, seed: u64) -> bool {
    let mut r = rng(seed);
    let o = order();
    let mut rs = || -> BigInt {
        let b: Vec<u8> = (0..r.gen_range(1, 33)).map(|_| r.gen()).collect();
        let x = BigInt::from_bytes_be(Sign::Plus, &b);
        match r.gen_range(0, 8) {
            0 => &o - (x % 1000u32),
            1 => x % 1000u32,
            2 => (BigInt::from(1) << r.gen_range(0, 253)) - r.gen_range(0, 2),
            _ => x % &o,
        }
    };
    let (a, b, c) = (rs(), rs(), rs());
    let (x, y, z) = (scalar(&a), scalar(&b), scalar(&c));
    let val = |s: &GroupOrderElement| BigInt::from_bytes_be(Sign::Plus, &s.to_bytes().unwrap());
    match f {
        "field" => {
            val(&x.add_mod(&y).unwrap()) == (&a + &b).mod_floor(&o)
                && val(&x.sub_mod(&y).unwrap()) == (&a - &b).mod_floor(&o)
                && val(&x.mul_mod(&y).unwrap()) == (&a * &b).mod_floor(&o)
                && val(&x.mod_neg().unwrap()) == (-&a).mod_floor(&o)
                && val(&x.pow_mod(&y).unwrap()) == a.modpow(&b, &o)
                && (a.mod_floor(&o) == BigInt::from(0) || val(&x.inverse().unwrap()) == a.modpow(&(&o - 2), &o))
        }
        "bytes" => {
            let s = GroupOrderElement::new().unwrap();
            let mut seed = vec![0u8; 32];
            r.fill(&mut seed[..]);
            let t = GroupOrderElement::new_from_seed(&seed).unwrap();
            let p = PointG1::new().unwrap();
            let q = PointG2::new().unwrap();
            GroupOrderElement::from_bytes(&s.to_bytes().unwrap()).unwrap() == s
                && GroupOrderElement::from_string(&s.to_string().unwrap()).unwrap() == s
                && val(&s) < o
                && val(&t) < o
                && t == GroupOrderElement::new_from_seed(&seed).unwrap()
                && s != t
                && GroupOrderElement::new_from_seed(&seed[1..]).is_err()
                && GroupOrderElement::from_bytes(&[1; 33]).is_err()
                && PointG1::from_bytes(&p.to_bytes().unwrap()).unwrap() == p
                && PointG2::from_bytes(&q.to_bytes().unwrap()).unwrap() == q
                && p != PointG1::new().unwrap()
                && q != PointG2::new().unwrap()
                && p.mul(&scalar(&o)).unwrap().is_inf().unwrap()
                && q.mul(&scalar(&o)).unwrap() == PointG2::new_inf().unwrap()
                && PointG1::from_bytes(&p.to_bytes().unwrap()[1..]).is_err()
                && PointG2::from_bytes(&q.to_bytes().unwrap()[1..]).is_err()
        }
        "hash" => {
            let h = x.to_bytes().unwrap();
            let p = PointG1::from_hash(&h).unwrap();
            !p.is_inf().unwrap() && p == PointG1::from_hash(&h).unwrap() && p != PointG1::from_hash(&y.to_bytes().unwrap()).unwrap() && p.mul(&scalar(&o)).unwrap().is_inf().unwrap() && PointG1::from_string(&p.to_string().unwrap()).unwrap() == p
        }
        "group" => {
            let p = PointG1::new().unwrap();
            let q = PointG2::new().unwrap();
            let s = x.add_mod(&y).unwrap();
            p.mul(&x).unwrap().add(&p.mul(&y).unwrap()).unwrap() == p.mul(&s).unwrap()
                && q.mul(&x).unwrap().add(&q.mul(&y).unwrap()).unwrap() == q.mul(&s).unwrap()
                && p.mul(&x).unwrap().mul(&y).unwrap() == p.mul(&x.mul_mod(&y).unwrap()).unwrap()
                && q.mul(&x).unwrap().mul(&y).unwrap() == q.mul(&x.mul_mod(&y).unwrap()).unwrap()
                && p.mul(&x).unwrap().sub(&p.mul(&y).unwrap()).unwrap() == p.mul(&x.sub_mod(&y).unwrap()).unwrap()
                && q.mul(&x).unwrap().sub(&q.mul(&y).unwrap()).unwrap() == q.mul(&x.sub_mod(&y).unwrap()).unwrap()
                && p.mul(&x).unwrap().neg().unwrap() == p.mul(&x.mod_neg().unwrap()).unwrap()
        }
        "pairing" => {
            let p = PointG1::new().unwrap();
            let q = PointG2::new().unwrap();
            let e = Pair::pair(&p, &q).unwrap();
            let l = Pair::pair(&p.mul(&x).unwrap(), &q.mul(&y).unwrap()).unwrap();
            let m = Pair::pair(&p.mul(&z).unwrap(), &q).unwrap();
            let d = x.mul_mod(&y).unwrap();
            !e.is_unity().unwrap()
                && l == e.pow(&d).unwrap()
                && l.mul(&m).unwrap() == e.pow(&d.add_mod(&z).unwrap()).unwrap()
                && Pair::pair2(&p.mul(&x).unwrap(), &q.mul(&y).unwrap(), &p.mul(&z).unwrap(), &q).unwrap() == l.mul(&m).unwrap()
                && l.mul(&l.inverse().unwrap()).unwrap().is_unity().unwrap()
                && l.to_bytes().unwrap() == e.pow(&d).unwrap().to_bytes().unwrap()
                && Pair::from_string(&l.to_string().unwrap()).unwrap() == l
                && Pair::from_string(&e.pow(&x).unwrap().to_string().unwrap()).unwrap() == e.pow(&x).unwrap()
        }
        x => harness!("law {}", x),
    }
}
fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let t = Arc::new(Tab::new(2, 1));
    let mut s = Grp { e: El::S(scalar(&BigInt::from(0))), t };
    while rec.n < a.n {
        let f = ["field", "field", "field", "bytes", "hash", "group", "pairing"][r.gen_range(0, 7)];
        rec.call(&mut s, json!({"op":"law","f":f,"seed":r.gen_range(0, 1 << 30)}));
    }
}
fn main() {
    let a = args();
    let o = |k: &str, d: i64| a.opt.get(k).map_or(d, |x| x.parse().unwrap());
    match a.mode.as_str() {
        "replay" => {
            let t = Arc::new(Tab::new(o("n", 6), o("d", 3)));
            replay(&a, move |_| Grp { e: El::S(scalar(&BigInt::from(0))), t: t.clone() })
        }
        _ => record(&a),
    }
}
