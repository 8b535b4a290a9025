//! C28: big numbers as integers.
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use rand::Rng;
use serde_json::{json, Value};
use ursa::bn::BigNumber;
use vh::*;

/// The large numbers that the formal W stands for.
fn ws() -> Vec<BigInt> {
    vec![BigInt::one() << 31, BigInt::one() << 32, BigInt::one() << 64, (BigInt::one() << 521) - 1, BigInt::from(10_000_000_019u64), (BigInt::one() << 2048) + 3]
}
fn big(s: &str, radix: u32) -> BigInt {
    match BigInt::parse_bytes(s.as_bytes(), radix) {
        Some(x) => x,
        None => BigInt::from(-987_654_321),
    }
}
fn poly(v: &Value, w: &BigInt) -> BigInt {
    let a = arr(v);
    (BigInt::from(int(&a[0])) * w + BigInt::from(int(&a[1]))) * w + BigInt::from(int(&a[2]))
}
fn digits(x: &BigInt, w: &BigInt) -> String {
    let h: BigInt = w / 2;
    let c0: BigInt = (x + &h).mod_floor(w) - &h;
    let x1: BigInt = (x - &c0) / w;
    let c1: BigInt = (&x1 + &h).mod_floor(w) - &h;
    let c2: BigInt = (&x1 - &c1) / w;
    format!("{},{},{}", c2, c1, c0)
}
/// The number through another library, by each way out; they agree.
fn read(b: &BigNumber) -> Option<BigInt> {
    let d = big(&b.to_dec().ok()?, 10);
    let m = BigInt::from_bytes_be(Sign::Plus, &b.to_bytes().ok()?);
    let ok = big(&b.to_hex().ok()?, 16) == d
        && m == d.abs()
        && b.is_negative() == d.is_negative()
        && b.num_bits().ok()? as u64 == m.bits()
        && serde_json::to_string(b).ok()? == format!("\"{}\"", d)
        && b.to_dec().ok()? == d.to_string()
        && &b.try_clone().ok()? == b
        && b.cmp(&b.try_clone().ok()?) == std::cmp::Ordering::Equal;
    if ok {
        Some(d)
    } else {
        None
    }
}
fn from(x: &BigInt, how: &str) -> BigNumber {
    match how {
        "dec" => BigNumber::from_dec(&x.to_string()).unwrap(),
        "hex" => BigNumber::from_hex(&x.to_str_radix(16)).unwrap(),
        "HEX" => BigNumber::from_hex(&x.to_str_radix(16).to_uppercase()).unwrap(),
        "bytes" => {
            let mut b = vec![0, 0];
            b.extend(x.to_bytes_be().1);
            let n = BigNumber::from_bytes(&b).unwrap();
            n.set_negative(x.is_negative()).unwrap()
        }
        "json" => serde_json::from_str(&format!("\"{}\"", x)).unwrap(),
        x => harness!("how {}", x),
    }
}
#[derive(Debug)]
struct Bns(Vec<BigNumber>);
type R = ursa::errors::UrsaCryptoResult<BigNumber>;
/// with a context of one's own and without give the same
fn both<F: Fn(Option<&mut ursa::bn::BigNumberContext>) -> R>(f: F) -> Option<BigInt> {
    let mut x = BigNumber::new_context().unwrap();
    match (f(None), f(Some(&mut x)), f(Some(&mut x))) {
        (Ok(a), Ok(b), Ok(c)) => Some(if a == b && b == c { read(&a).unwrap_or(BigInt::from(-987_654_321)) } else { BigInt::from(-123_456_789) }),
        (Err(_), Err(_), Err(_)) => None,
        _ => Some(BigInt::from(-111_111_111)),
    }
}
fn txt(r: Option<BigInt>) -> Value {
    json!(r.map_or("err".to_string(), |x| x.to_string()))
}
impl Bns {
    fn all(&self) -> Value {
        let mut o: Vec<String> = self.0.iter().zip(ws()).map(|(b, w)| read(b).map_or("unreadable".to_string(), |x| digits(&x, &w))).collect();
        o.dedup();
        json!(if o.len() == 1 { o.remove(0) } else { format!("differ {:?}", o) })
    }
    fn each<F: Fn(&BigNumber, &BigInt) -> BigNumber>(&mut self, f: F) -> Value {
        let w = ws();
        let n: Vec<BigNumber> = self.0.iter().zip(&w).map(|(a, w)| f(a, w)).collect();
        self.0 = n;
        self.all()
    }
}
fn pick(g: &str) -> String {
    if g == "nul" { "\0".into() } else { g.into() }
}
impl Sys for Bns {
    fn fork(&self) -> Self {
        Bns(self.0.iter().map(|b| b.try_clone().unwrap()).collect())
    }
    fn step(&mut self, c: &Value) -> Value {
        let op = st(&c["op"]);
        let opnd = |w: &BigInt| from(&poly(&c["b"], w), "dec");
        let word = || us(&c["b"]) as u32;
        match op {
            "set" => self.each(|_, w| from(&poly(&c["b"], w), st(&c["how"]))),
            "add" => self.each(|a, w| a.add(&opnd(w)).unwrap()),
            "sub" => self.each(|a, w| a.sub(&opnd(w)).unwrap()),
            "mul" => self.each(|a, w| {
                let b = opnd(w);
                let r = a.mul(&b, None).unwrap();
                let mut x = BigNumber::new_context().unwrap();
                if a.mul(&b, Some(&mut x)).unwrap() == r && b.mul(a, Some(&mut x)).unwrap() == r { r } else { BigNumber::from_dec("-1111").unwrap() }
            }),
            "sqr" => self.each(|a, _| {
                let mut x = BigNumber::new_context().unwrap();
                let r = a.sqr(None).unwrap();
                if a.sqr(Some(&mut x)).unwrap() == r { r } else { BigNumber::from_dec("-1111").unwrap() }
            }),
            "inc" => self.each(|a, _| a.increment().unwrap()),
            "dec" => self.each(|a, _| a.decrement().unwrap()),
            "lsh" => self.each(|a, _| a.lshift1().unwrap()),
            "pos" => self.each(|a, _| a.set_negative(false).unwrap()),
            "neg" => self.each(|a, _| a.set_negative(true).unwrap()),
            "addw" | "subw" | "mulw" => {
                for a in self.0.iter_mut() {
                    match op {
                        "addw" => a.add_word(word()).map(|_| ()),
                        "subw" => a.sub_word(word()).map(|_| ()),
                        _ => a.mul_word(word()).map(|_| ()),
                    }
                    .unwrap();
                }
                self.all()
            }
            "cmp" => {
                let mut o: Vec<&str> = self
                    .0
                    .iter()
                    .zip(ws())
                    .map(|(a, w)| {
                        let b = opnd(&w);
                        match (a < &b, a == &b, a > &b, a <= &b, b < *a, a.partial_cmp(&b).unwrap(), a.cmp(&b) == b.cmp(a).reverse()) {
                            (true, false, false, true, false, std::cmp::Ordering::Less, true) => "lt",
                            (false, true, false, true, false, std::cmp::Ordering::Equal, true) => "eq",
                            (false, false, true, false, true, std::cmp::Ordering::Greater, true) => "gt",
                            _ => "inconsistent",
                        }
                    })
                    .collect();
                o.dedup();
                json!(if o.len() == 1 { o[0] } else { "differ" })
            }
            "divmod" => {
                let mut o: Vec<&str> = self
                    .0
                    .iter()
                    .zip(ws())
                    .map(|(a, w)| {
                        let b = opnd(&w);
                        match (both(|x| a.div(&b, x)), both(|x| a.modulus(&b, x))) {
                            (None, None) => "err",
                            (Some(q), Some(m)) => {
                                let (a, b) = (read(a).unwrap(), read(&b).unwrap());
                                if q == &a / &b && m == a.mod_floor(&b.abs()) { "ok" } else { "wrong" }
                            }
                            _ => "half",
                        }
                    })
                    .collect();
                o.dedup();
                json!(if o.len() == 1 { o[0] } else { "differ" })
            }
            "q" => {
                let a = &self.0[0];
                let b = int(&c["b"]);
                let bb = from(&BigInt::from(b), "dec");
                let m = from(&BigInt::from(c.get("m").map_or(0, int)), "dec");
                let yes = |b: bool| json!(if b { "yes" } else { "no" });
                match st(&c["f"]) {
                    "div" => txt(both(|x| a.div(&bb, x))),
                    "divw" => {
                        let mut y = a.try_clone().unwrap();
                        let r = y.div_word(b as u32).map(|_| ()).is_ok();
                        txt(if r { Some(read(&y).unwrap_or(BigInt::from(-987_654_321))) } else { None })
                    }
                    "modulus" => txt(both(|x| a.modulus(&bb, x))),
                    "gcd" => txt(both(|x| BigNumber::gcd(a, &bb, x))),
                    "inverse" => txt(both(|x| a.inverse(&bb, x))),
                    "exp" => txt(both(|x| a.exp(&bb, x))),
                    "mod_mul" => txt(both(|x| a.mod_mul(&bb, &m, x))),
                    "mod_sub" => txt(both(|x| a.mod_sub(&bb, &m, x))),
                    "mod_div" => txt(both(|x| a.mod_div(&bb, &m, x))),
                    "mod_exp" => txt(both(|x| a.mod_exp(&bb, &m, x))),
                    "rshift" => {
                        let r = a.rshift(b as u32).unwrap();
                        if b == 1 && a.rshift1().unwrap() != r {
                            return json!("differ");
                        }
                        txt(read(&r))
                    }
                    "bits" => json!(a.num_bits().unwrap().to_string()),
                    "is_bit" => yes(a.is_bit_set(b as i32).unwrap()),
                    "set_bit" => {
                        let mut y = a.try_clone().unwrap();
                        let ok = y.set_bit(b as i32).map(|_| ()).is_ok();
                        txt(if ok { read(&y) } else { None })
                    }
                    f => {
                        let mut x = BigNumber::new_context().unwrap();
                        let (r, s) = if f == "prime" { (a.is_prime(None), a.is_prime(Some(&mut x))) } else { (a.is_safe_prime(None), a.is_safe_prime(Some(&mut x))) };
                        match (r, s) {
                            (Ok(r), Ok(s)) if r == s => yes(r),
                            _ => json!("err"),
                        }
                    }
                }
            }
            "parse" => {
                let s: String = arr(&c["q"]).iter().map(|x| pick(st(x))).collect();
                let r = match st(&c["k"]) {
                    "dec" => BigNumber::from_dec(&s).ok(),
                    "hex" => BigNumber::from_hex(&s).ok(),
                    _ => serde_json::from_str(&serde_json::to_string(&s).unwrap()).ok(),
                };
                match r {
                    None => json!("err"),
                    Some(b) => json!(read(&b).map_or("unreadable".to_string(), |x| x.to_string())),
                }
            }
            "law" => json!(match law(st(&c["f"]), us(&c["seed"]) as u64, us(&c["bits"])) {
                Some(true) => "ok",
                Some(false) => "broken",
                None => "err",
            }),
            x => harness!("op {}", x),
        }
    }
}
fn random(r: &mut rand::rngs::StdRng, bits: usize) -> BigInt {
    let bits = r.gen_range(1, bits.max(2));
    let mut b: Vec<u8> = (0..bits / 8 + 1).map(|_| r.gen()).collect();
    match r.gen_range(0, 4) {
        0 => b.iter_mut().skip(1).for_each(|x| *x = 0),
        1 => b.iter_mut().for_each(|x| *x = 255),
        _ => (),
    }
    let n = BigInt::from_bytes_be(Sign::Plus, &b);
    if r.gen() { n } else { -n }
}
/// Laws on random numbers, those of the other library as the oracle. Some: whether it holds.
fn law(f: &str, seed: u64, bits: usize) -> Option<bool> {
    let mut r = rng(seed);
    let (a, b) = (random(&mut r, bits), random(&mut r, bits));
    let m = random(&mut r, bits).abs() + 2;
    let (x, y, n) = (from(&a, "dec"), from(&b, "HEX"), from(&m, "bytes"));
    let ab = a.abs();
    let bb = b.abs();
    Some(match f {
        "ring" => both(|c| x.mul(&y, c))? == &a * &b && read(&x.add(&y).ok()?)? == &a + &b && read(&x.sub(&y).ok()?)? == &a - &b && both(|c| x.sqr(c))? == &a * &a && read(&x)? == a && (x < y) == (a < b),
        "word" => {
            let w: u32 = r.gen();
            let mut o = vec![];
            for i in 0..4 {
                let mut z = x.try_clone().ok()?;
                match i {
                    0 => z.add_word(w).map(|_| ()),
                    1 => z.sub_word(w).map(|_| ()),
                    2 => z.mul_word(w).map(|_| ()),
                    _ => z.div_word(w | 1).map(|_| ()),
                }
                .ok()?;
                o.push(read(&z)?);
            }
            let w = BigInt::from(w);
            o[0] == &a + &w && o[1] == &a - &w && o[2] == &a * &w && o[3] == &a / (if w.is_odd() { w } else { w + 1 })
        }
        "div" => both(|c| x.div(&y, c)) == if b.is_zero() { None } else { Some(&a / &b) } && both(|c| x.modulus(&n, c))? == a.mod_floor(&m),
        "modular" => both(|c| x.mod_mul(&y, &n, c))? == (&a * &b).mod_floor(&m) && both(|c| x.mod_sub(&y, &n, c))? == (&a - &b).mod_floor(&m),
        "gcd" => both(|c| BigNumber::gcd(&x, &y, c))? == a.gcd(&b),
        "inverse" => {
            let i = both(|c| x.inverse(&n, c));
            let d = both(|c| y.mod_div(&x, &n, c));
            if a.gcd(&m).is_one() {
                let (i, d) = (i?, d?);
                !i.is_negative() && i < m && (&i * &a).mod_floor(&m).is_one() && d == (&b * &i).mod_floor(&m)
            } else {
                i.is_none() && d.is_none()
            }
        }
        "mod_exp" => {
            let p = both(|c| x.mod_exp(&from(&bb, "dec"), &n, c))?;
            let q = both(|c| x.mod_exp(&from(&-&bb, "dec"), &n, c));
            p == a.mod_floor(&m).modpow(&bb, &m) && (bb.is_zero() || if a.gcd(&m).is_one() { (&q? * &p).mod_floor(&m).is_one() } else { q.is_none() })
        }
        "exp" => {
            let e: u32 = r.gen_range(0, 40);
            let mut p = BigInt::one();
            for _ in 0..e {
                p *= &a;
            }
            both(|c| x.exp(&from(&BigInt::from(e), "dec"), c))? == p
        }
        "shift" => {
            let k: u32 = r.gen_range(0, bits as u32 + 70);
            let z = from(&ab, "hex");
            let mut s = z.try_clone().ok()?;
            s.set_bit(k as i32).ok()?;
            let bit = (&ab >> k as usize).is_odd();
            read(&z.rshift(k).ok()?)? == &ab >> k as usize && z.is_bit_set(k as i32).ok()? == bit && read(&s)? == if bit { ab.clone() } else { &ab + (BigInt::one() << k as usize) }
        }
        "rand" => {
            let k = r.gen_range(1, bits);
            let lim = from(&(&ab + 1), "dec");
            let t = read(&lim.rand_range().ok()?)?;
            let u = read(&BigNumber::rand(k).ok()?)?;
            !t.is_negative() && t <= ab && !u.is_negative() && u.bits() <= k as u64
        }
        "qr" => {
            // a square modulo a prime: Euler's criterion
            let p = read(&BigNumber::generate_prime(if RS { 128 } else { 64 }).ok()?)?;
            let q = read(&BigNumber::random_qr(&from(&p, "dec")).ok()?)?;
            !q.is_negative() && q < p && (q.is_zero() || q.modpow(&((&p - 1) / 2), &p).is_one())
        }
        "prime" => {
            // the portable library makes no small ones, and some a little shorter than asked for
            let k = if RS { r.gen_range(128, 200) } else { r.gen_range(64, 200) };
            let p = BigNumber::generate_prime(k).ok()?;
            let n = read(&p)?;
            (n.bits() == k as u64 || RS && n.bits() < k as u64) && p.is_prime(None).ok()? && fermat(&n) && !from(&(&n * &n), "dec").is_prime(None).ok()? && !from(&(&n * (&n - 1)), "dec").is_prime(None).ok()? && !from(&-&n, "dec").is_prime(None).ok()?
        }
        "safe" => {
            let p = BigNumber::generate_safe_prime(if RS { 128 } else { 100 }).ok()?;
            let n = read(&p)?;
            (RS && n.bits() <= 129 || n.bits() == 100 || n.bits() == 101) && p.is_safe_prime(None).ok()? && fermat(&n) && fermat(&((&n - 1) / 2)) && !from(&((&n - 1) / 2 * 3), "dec").is_safe_prime(None).ok()?
        }
        "range" => {
            let lo = &ab + 3;
            let hi = &lo + (BigInt::one() << 60);
            let p = read(&BigNumber::generate_prime_in_range(&from(&lo, "dec"), &from(&hi, "dec")).ok()?)?;
            p >= lo && p < hi && fermat(&p)
        }
        "u32" => {
            let k: u32 = r.gen();
            let w: usize = r.gen_range(0, 1 << 62);
            // what does not fit is refused or kept, not cut off
            read(&BigNumber::from_u32(k as usize).ok()?)? == BigInt::from(k) && BigNumber::from_u32(w).ok().and_then(|x| read(&x)).map_or(true, |x| x == BigInt::from(w))
        }
        "hash" => {
            let parts: Vec<Vec<u8>> = (0..r.gen_range(0, 5)).map(|_| (0..r.gen_range(0, 70)).map(|_| r.gen()).collect()).collect();
            let all = parts.concat();
            let h = BigNumber::hash(&all).ok()?;
            h.len() == 32 && BigNumber::hash_array(&parts).ok()? == h && BigNumber::hash(&[&all[..], &[0]].concat()).ok()? != h && read(&BigNumber::default())?.is_zero() && read(&BigNumber::new().ok()?)?.is_zero()
        }
        x => harness!("law {}", x),
    })
}
fn fermat(n: &BigInt) -> bool {
    [2, 3, 5, 7, 11, 13].iter().all(|g| BigInt::from(*g).modpow(&(n - 1), n).is_one())
}
/// whether this is the build with the portable big numbers
const RS: bool = cfg!(feature = "rsbn");
const LAWS: [&str; 18] = ["ring", "word", "div", "modular", "gcd", "inverse", "mod_exp", "exp", "shift", "rand", "u32", "hash", "ring", "div", "qr", "prime", "safe", "range"];
fn record(a: &Args) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Bns(ws().iter().map(|_| BigNumber::new().unwrap()).collect());
    let mut i = 0;
    while rec.n < a.n {
        i += 1;
        let heavy = i % 20 == 0;
        let f = if heavy { LAWS[r.gen_range(14, 18)] } else { LAWS[r.gen_range(0, 14)] };
        let bits = [10, 40, 70, 130, 300, 700, 1500][r.gen_range(0, 7)];
        rec.call(&mut s, json!({"op":"law","f":f,"seed":r.gen_range(0, 1 << 30),"bits":bits}));
    }
}
fn main() {
    let a = args();
    match a.mode.as_str() {
        "replay" => replay(&a, |_| Bns(ws().iter().map(|_| BigNumber::new().unwrap()).collect())),
        _ => record(&a),
    }
}
