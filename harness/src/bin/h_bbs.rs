//! C17, C18: BBS+ signatures and proofs of knowledge of them.
use bbs::prelude::*;
use ff_zeroize::Field;
use pairing_plus::bls12_381::{Fr, G1, G2};
use pairing_plus::serdes::SerDes;
use pairing_plus::CurveProjective;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::sync::Arc;
use vh::*;

pub const N: usize = 8;
/// Keys of every family and count, made once.
struct World {
    keys: HashMap<(String, usize), (PublicKey, SecretKey)>,
    short: DeterministicPublicKey,
}
impl World {
    fn new() -> Self {
        let mut keys = HashMap::new();
        let (short, ssk) = DeterministicPublicKey::new(None).unwrap();
        for n in 1..=N {
            for k in ["a", "b"].iter() {
                keys.insert((k.to_string(), n), Issuer::new_keys(n).unwrap());
            }
            keys.insert(("s".to_string(), n), (short.to_public_key(n).unwrap(), ssk.clone()));
        }
        World { keys, short }
    }
    fn key(&self, c: &Value) -> &(PublicKey, SecretKey) {
        self.k(st(&c["k"]), us(&c["n"]))
    }
    fn k(&self, k: &str, n: usize) -> &(PublicKey, SecretKey) {
        self.keys.get(&(k.to_string(), n)).unwrap_or_else(|| harness!("key {} {}", k, n))
    }
}
fn msg(i: i64) -> SignatureMessage {
    if i == 0 { SignatureMessage::default() } else { SignatureMessage::hash(format!("message {}", i)) }
}
fn msgs(v: &Value) -> Vec<SignatureMessage> {
    ints(v).into_iter().map(msg).collect()
}
fn nonce(v: &Value) -> ProofNonce {
    ProofNonce::hash(format!("nonce {}", int(v)))
}
fn map(v: &Value) -> BTreeMap<usize, SignatureMessage> {
    ints(v).into_iter().enumerate().filter(|(_, x)| *x != -1).map(|(i, x)| (i, msg(x))).collect()
}
fn fr() -> Fr {
    *ProofNonce::random().as_ref()
}
fn pt() -> G1 {
    *GeneratorG1::random().as_ref()
}
fn mul(p: &G1, s: &Fr) -> G1 {
    let mut q = *p;
    q.mul_assign(*s);
    q
}
fn add(p: &G1, q: &G1) -> G1 {
    let mut r = *p;
    r.add_assign(q);
    r
}
fn neg(s: &Fr) -> Fr {
    let mut t = *s;
    t.negate();
    t
}
fn negp(p: &G1) -> G1 {
    let mut t = *p;
    t.negate();
    t
}
fn fmul(a: &Fr, b: &Fr) -> Fr {
    let mut t = *a;
    t.mul_assign(b);
    t
}
fn fsub(a: &Fr, b: &Fr) -> Fr {
    let mut t = *a;
    t.sub_assign(b);
    t
}
fn put<T: SerDes>(o: &mut Vec<u8>, x: &T) {
    x.serialize(o, true).unwrap()
}
fn json_rt<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    match serde_json::from_slice(&serde_json::to_vec(x).unwrap()) {
        Ok(x) => x,
        Err(e) => panic!("json: {}", e),
    }
}

/// A signature in its parts.
#[derive(Clone, Copy)]
struct Parts {
    a: G1,
    e: Fr,
    s: Fr,
}
impl Parts {
    fn of(b: &[u8]) -> Parts {
        let mut c = std::io::Cursor::new(b);
        Parts { a: G1::deserialize(&mut c, true).unwrap(), e: Fr::deserialize(&mut c, true).unwrap(), s: Fr::deserialize(&mut c, true).unwrap() }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        put(&mut o, &self.a);
        put(&mut o, &self.e);
        put(&mut o, &self.s);
        o
    }
    fn edit(mut self, e: &str) -> Parts {
        match e {
            "none" => {}
            "a" => self.a = pt(),
            "e" => self.e = fr(),
            "s" => self.s = fr(),
            "neg" => self.a = negp(&self.a),
            "swap" => std::mem::swap(&mut self.e, &mut self.s),
            "ident" => self.a = G1::zero(),
            "zeroe" => self.e = Fr::zero(),
            "zeros" => self.s = Fr::zero(),
            x => harness!("edit {}", x),
        }
        self
    }
}

#[derive(Clone)]
struct Sig {
    w: Arc<World>,
    ctx: Option<(BlindSignatureContext, SignatureBlinding)>,
    bs: Option<BlindSignature>,
    sig: Option<Signature>,
}
/// How a type is written and read: its bytes, and whether reading gives the same again.
type Codec = (Vec<u8>, Box<dyn Fn(&[u8]) -> Option<bool>>);
fn jc<T: serde::Serialize + serde::de::DeserializeOwned + 'static, F: Fn(&T) -> Vec<u8> + 'static>(x: T, f: F) -> Codec {
    let want = f(&x);
    (serde_json::to_vec(&x).unwrap(), Box::new(move |b| serde_json::from_slice::<T>(b).ok().map(|y| f(&y) == want)))
}
macro_rules! fixed {
    ($x:expr, $t:ident, $form:expr) => {{
        let x: $t = $x;
        match $form {
            "json" => jc(x, |x| x.to_bytes_uncompressed_form().to_vec()),
            f => {
                let want = x.to_bytes_uncompressed_form().to_vec();
                let b = if f == "comp" { x.to_bytes_compressed_form().to_vec() } else { want.clone() };
                let z: Codec = (b, Box::new(move |b| $t::try_from(b).ok().map(|y| y.to_bytes_uncompressed_form().to_vec() == want)));
                z
            }
        }
    }};
}
macro_rules! varlen {
    ($x:expr, $t:ident, $form:expr) => {{
        let x: $t = $x;
        match $form {
            "json" => jc(x, |x| x.to_bytes_uncompressed_form()),
            f => {
                let want = x.to_bytes_uncompressed_form();
                let comp = f == "comp";
                let b = if comp { x.to_bytes_compressed_form() } else { want.clone() };
                let z: Codec = (
                    b,
                    Box::new(move |b| {
                        let y = if comp { $t::from_bytes_compressed_form(b) } else { $t::from_bytes_uncompressed_form(b) };
                        y.ok().map(|y| y.to_bytes_uncompressed_form() == want)
                    }),
                );
                z
            }
        }
    }};
}
const ORDER: &str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Reads altered bytes; several alterations of one sort, the worst result of which counts.
fn bytes(w: &World, c: &Value) -> Value {
    let form = st(&c["f"]);
    let (pk, sk) = w.k("a", 2);
    let m = vec![msg(1), msg(2)];
    let sig = || Signature::new(&m, sk, pk).unwrap();
    let mut one = BTreeMap::new();
    one.insert(0usize, msg(1));
    let ctx = || Prover::new_blind_signature_context(pk, &one, &nonce(&json!(1))).unwrap();
    let req = || Verifier::new_proof_request(&[1], pk).unwrap();
    let proof = || {
        let pm = [ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(m[0])), ProofMessage::Revealed(m[1])];
        let pok = Prover::commit_signature_pok(&req(), &pm, &sig()).unwrap();
        let ch = Prover::create_challenge_hash(&[pok.clone()], None, &nonce(&json!(1))).unwrap();
        Prover::generate_signature_pok(pok, &ch).unwrap()
    };
    let bsig = || {
        let (cx, _) = ctx();
        let mut two = BTreeMap::new();
        two.insert(1usize, msg(2));
        Issuer::blind_sign(&cx, &two, sk, pk, &nonce(&json!(1))).unwrap()
    };
    // offsets of the counts within the encoding
    let g1 = if form == "comp" { 48 } else { 96 };
    let mut counts: Vec<usize> = vec![];
    let (orig, read): Codec = match st(&c["ty"]) {
        "sig" => fixed!(sig(), Signature, form),
        "bsig" => fixed!(bsig(), BlindSignature, form),
        "pk" => {
            counts.push(3 * g1);
            varlen!(pk.clone(), PublicKey, form)
        }
        "dpk" => fixed!(w.short, DeterministicPublicKey, form),
        "sk" => fixed!(sk.clone(), SecretKey, form),
        "ctx" => {
            counts.push(2 * g1 + 32);
            varlen!(ctx().0, BlindSignatureContext, form)
        }
        "msg" => fixed!(msg(1), SignatureMessage, form),
        "nonce" => fixed!(nonce(&json!(1)), ProofNonce, form),
        "chal" => fixed!(ProofChallenge::random(), ProofChallenge, form),
        "blinding" => fixed!(SignatureBlinding::random(), SignatureBlinding, form),
        "com" => fixed!(ctx().0.commitment, Commitment, form),
        "gen1" => fixed!(GeneratorG1::random(), GeneratorG1, form),
        "gen2" => fixed!(GeneratorG2::hash(b"x"), GeneratorG2, form),
        "proof1" => {
            counts.push(g1);
            varlen!(ctx().0.proof_of_hidden_messages, ProofG1, form)
        }
        "req" => {
            counts.push(0);
            counts.push(4 + 1 + 3 * g1);
            varlen!(req(), ProofRequest, form)
        }
        "sigproof" => {
            let p = 4 + 3 * g1 + 4 + g1 + 4 + 64 + g1 + 4 + 96;
            counts.extend(&[0, 4 + 3 * g1, 4 + 3 * g1 + 4 + g1, p - 100, p]);
            varlen!(proof(), SignatureProof, form)
        }
        "pokproof" => {
            counts.extend(&[3 * g1, 3 * g1 + 4 + g1, 3 * g1 + 4 + g1 + 4 + 64 + g1]);
            varlen!(proof().proof, PoKOfSignatureProof, form)
        }
        x => harness!("type {}", x),
    };
    if form == "json" {
        counts.clear();
    }
    let i = us(&c["i"]);
    let mut r = rng(i as u64);
    let mut t: Vec<Vec<u8>> = vec![];
    match st(&c["e"]) {
        "none" => t.push(orig.clone()),
        "empty" => t.push(vec![]),
        "ext" => {
            for n in [1usize, 2, 4, 32, 48, 96, 100].iter() {
                for v in [0u8, 1, 0xc0, 0xff].iter() {
                    let mut b = orig.clone();
                    b.extend(vec![*v; *n]);
                    t.push(b);
                }
            }
            let mut b = orig.clone();
            b.extend(&orig);
            t.push(b);
        }
        "cut" => {
            for n in (0..orig.len()).filter(|n| n % 32 == i) {
                t.push(orig[..n].to_vec());
                if form != "json" {
                    t.push(orig[orig.len() - n..].to_vec());
                }
            }
        }
        "flip" => {
            for p in (0..orig.len()).filter(|p| p % 32 == i) {
                let mut b = orig.clone();
                b[p] ^= 1 << ((p / 32 + p) % 8);
                t.push(b);
            }
        }
        "len" => {
            for o in &counts {
                for v in [1u32, 2, 3, 7, 8, 31, 32, 33, 255, 256, 65536, 1 << 24].iter() {
                    let mut b = orig.clone();
                    let mut old = [0u8; 4];
                    old.copy_from_slice(&b[*o..*o + 4]);
                    let old = u32::from_be_bytes(old);
                    if old > 1000 {
                        harness!("count {} at {} of {}", old, o, c);
                    }
                    let new = match i % 4 {
                        0 => old.wrapping_add(*v),
                        1 => old.saturating_sub(*v),
                        2 => *v - 1,
                        _ => v.wrapping_mul(i as u32 + 1),
                    };
                    if new != old {
                        b[*o..*o + 4].copy_from_slice(&new.to_be_bytes());
                        t.push(b);
                    }
                }
            }
        }
        "rand" => t.push((0..orig.len()).map(|_| r.gen()).collect()),
        "ones" => t.push(vec![0xff; orig.len() - i.min(orig.len())]),
        "zeros" => t.push(vec![0; orig.len() - i.min(orig.len())]),
        "big" => {
            let q = unhex(ORDER);
            for p in (0..orig.len()).filter(|p| p % 32 == i && p + 32 <= orig.len()) {
                let mut b = orig.clone();
                b[p..p + 32].copy_from_slice(&q);
                t.push(b);
            }
        }
        x => harness!("bytes {}", x),
    }
    let mut res = "err";
    for b in t {
        match read(&b) {
            Some(true) => return json!("same"),
            Some(false) => res = "diff",
            None => {}
        }
    }
    json!(res)
}
fn arr_conv(c: &Value) -> Value {
    let v = if c["e"] == "ones" { 0xffu8 } else { 0x7f };
    macro_rules! go {
        ($t:ident, $n:expr) => {{
            let _ = $t::from([v; $n]);
        }};
    }
    match st(&c["ty"]) {
        "sig" => go!(Signature, SIGNATURE_COMPRESSED_SIZE),
        "bsig" => go!(BlindSignature, SIGNATURE_COMPRESSED_SIZE),
        "sigu" => go!(Signature, SIGNATURE_UNCOMPRESSED_SIZE),
        "bsigu" => go!(BlindSignature, SIGNATURE_UNCOMPRESSED_SIZE),
        "sk" => go!(SecretKey, 32),
        "msg" => go!(SignatureMessage, 32),
        "nonce" => go!(ProofNonce, 32),
        "chal" => go!(ProofChallenge, 32),
        "blinding" => go!(SignatureBlinding, 32),
        "com" => go!(Commitment, 48),
        "gen1" => go!(GeneratorG1, 48),
        "gen2" => go!(GeneratorG2, 96),
        "dpk" => go!(DeterministicPublicKey, 96),
        x => harness!("type {}", x),
    }
    json!("ok")
}
fn ok<T, E>(r: Result<T, E>) -> Value {
    json!(if r.is_ok() { "ok" } else { "err" })
}
impl Sys for Sig {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w.clone();
        match st(&c["op"]) {
            "new" => {
                self.ctx = None;
                self.bs = None;
                self.sig = None;
                json!("ok")
            }
            "key" => {
                let n = us(&c["n"]);
                match st(&c["k"]) {
                    "s" => match DeterministicPublicKey::new(Some(KeyGenOption::UseSeed(vec![n as u8; n]))) {
                        Ok((d, sk)) => match d.to_public_key(n) {
                            Ok(p) => {
                                // the same again from the seed, and from the secret key
                                let (e, _) = DeterministicPublicKey::new(Some(KeyGenOption::FromSecretKey(sk))).unwrap();
                                json!(if e.to_public_key(n).unwrap() == p && p.message_count() == n && p.validate().is_ok() { "ok" } else { "other" })
                            }
                            Err(_) => json!("err"),
                        },
                        Err(_) => json!("err"),
                    },
                    _ => ok(Issuer::new_keys(n)),
                }
            }
            "sign" => {
                if us(&c["n"]) == 0 {
                    return json!("err");
                }
                let (pk, sk) = w.key(c);
                let r = Issuer::sign(&msgs(&c["m"]), sk, pk);
                if let Ok(s) = &r {
                    self.sig = Some(s.clone());
                }
                ok(r)
            }
            "verify" => {
                let s = self.sig.as_ref().unwrap();
                let p = Parts::of(&s.to_bytes_compressed_form()).edit(st(&c["e"]));
                let b = p.bytes();
                let s = match st(&c["via"]) {
                    "direct" | "comp" => Signature::try_from(b).unwrap(),
                    "uncomp" => Signature::try_from(&s.to_bytes_uncompressed_form()[..]).unwrap(),
                    "serde" => {
                        let d = serde::de::value::BytesDeserializer::<serde::de::value::Error>::new(&b);
                        serde::Deserialize::deserialize(d).unwrap_or_else(|_| panic!("serde"))
                    }
                    "json" => json_rt(s),
                    "box" => Signature::from(b.into_boxed_slice()),
                    "array" => Signature::from(s.to_bytes_uncompressed_form()),
                    x => harness!("via {}", x),
                };
                match s.verify(&msgs(&c["m"]), &w.key(c).0) {
                    Ok(true) => json!("yes"),
                    Ok(false) => json!("no"),
                    Err(_) => json!("err"),
                }
            }
            "ctx" => {
                let r = Prover::new_blind_signature_context(&w.key(c).0, &map(&c["b"]), &nonce(&c["nonce"]));
                match r {
                    Ok(x) => {
                        self.ctx = Some(x);
                        json!("ok")
                    }
                    Err(_) => json!("err"),
                }
            }
            "bsign" => {
                let mut cx = self.ctx.as_ref().unwrap().0.clone();
                let e = st(&c["e"]);
                // commitment 48, challenge 32, commitment of the proof 48, count 4, responses
                let mut b = cx.to_bytes_compressed_form();
                let l = b.len();
                let sc = |x: &Fr| {
                    let mut o = vec![];
                    put(&mut o, x);
                    o
                };
                let po = |x: &G1| {
                    let mut o = vec![];
                    put(&mut o, x);
                    o
                };
                let cnt = (l - 132) / 32;
                match e {
                    "none" => {}
                    "com" => b.splice(0..48, po(&pt())).for_each(drop),
                    "ident" => b.splice(0..48, po(&G1::zero())).for_each(drop),
                    "chal" => b.splice(48..80, sc(&fr())).for_each(drop),
                    "t" => b.splice(80..128, po(&pt())).for_each(drop),
                    "r0" => b.splice(132..164, sc(&fr())).for_each(drop),
                    "rlast" => b.splice(l - 32..l, sc(&fr())).for_each(drop),
                    "more" => {
                        b[131] = cnt as u8 + 1;
                        b.extend(sc(&fr()));
                    }
                    "less" => {
                        b[131] = cnt as u8 - 1;
                        b.truncate(l - 32);
                    }
                    "swap" => {
                        let x = b[0..48].to_vec();
                        let y = b[80..128].to_vec();
                        b.splice(0..48, y).for_each(drop);
                        b.splice(80..128, x).for_each(drop);
                    }
                    x => harness!("edit {}", x),
                }
                if e != "none" {
                    cx = BlindSignatureContext::from_bytes_compressed_form(&b).unwrap_or_else(|x| harness!("ctx edit {} {}", e, x));
                }
                let (pk, sk) = w.key(c);
                let r = Issuer::blind_sign(&cx, &map(&c["w"]), sk, pk, &nonce(&c["nonce"]));
                if let Ok(s) = &r {
                    self.bs = Some(*s);
                }
                ok(r)
            }
            "raw" => {
                let (pk, sk) = w.key(c);
                ok(BlindSignature::new(&Commitment::default(), &map(&c["w"]), sk, pk))
            }
            "complete" => {
                let b = Parts::of(&self.bs.as_ref().unwrap().to_bytes_compressed_form()).edit(st(&c["e"]));
                let b = BlindSignature::try_from(b.bytes()).unwrap();
                let bl = match st(&c["bl"]) {
                    "own" => self.ctx.as_ref().unwrap().1,
                    "zero" => SignatureBlinding::default(),
                    _ => SignatureBlinding::random(),
                };
                let r = Prover::complete_signature(&w.key(c).0, &msgs(&c["m"]), &b, &bl);
                if let Ok(s) = &r {
                    self.sig = Some(s.clone());
                }
                ok(r)
            }
            "bytes" => bytes(&w, c),
            "arr" => arr_conv(c),
            x => harness!("op {}", x),
        }
    }
}

/// A proof in its parts, as written.
#[derive(Clone)]
struct PP {
    ap: G1,
    abar: G1,
    d: G1,
    t1: G1,
    r1: Vec<Fr>,
    t2: G1,
    r2: Vec<Fr>,
    shown: Vec<(u32, Fr)>,
}
impl PP {
    fn bytes(&self) -> Vec<u8> {
        let mut p = vec![];
        put(&mut p, &self.ap);
        put(&mut p, &self.abar);
        put(&mut p, &self.d);
        p.extend(&((48 + 4 + 32 * self.r1.len()) as u32).to_be_bytes());
        for (t, r) in [(&self.t1, &self.r1), (&self.t2, &self.r2)].iter() {
            put(&mut p, *t);
            p.extend(&(r.len() as u32).to_be_bytes());
            r.iter().for_each(|x| put(&mut p, x));
        }
        let mut o = (p.len() as u32).to_be_bytes().to_vec();
        o.extend(p);
        o.extend(&(self.shown.len() as u32).to_be_bytes());
        for (i, m) in &self.shown {
            o.extend(&i.to_be_bytes());
            put(&mut o, m);
        }
        o
    }
    fn of(b: &[u8]) -> PP {
        let mut c = std::io::Cursor::new(b);
        fn u(c: &mut std::io::Cursor<&[u8]>) -> usize {
            use std::io::Read;
            let mut x = [0u8; 4];
            c.read_exact(&mut x).unwrap();
            u32::from_be_bytes(x) as usize
        }
        fn g(c: &mut std::io::Cursor<&[u8]>) -> G1 {
            G1::deserialize(c, true).unwrap()
        }
        fn f(c: &mut std::io::Cursor<&[u8]>) -> Fr {
            Fr::deserialize(c, true).unwrap()
        }
        u(&mut c);
        let (ap, abar, d) = (g(&mut c), g(&mut c), g(&mut c));
        u(&mut c);
        let t1 = g(&mut c);
        let n = u(&mut c);
        let r1 = (0..n).map(|_| f(&mut c)).collect();
        let t2 = g(&mut c);
        let n = u(&mut c);
        let r2 = (0..n).map(|_| f(&mut c)).collect();
        let n = u(&mut c);
        let shown = (0..n).map(|_| (u(&mut c) as u32, f(&mut c))).collect();
        PP { ap, abar, d, t1, r1, t2, r2, shown }
    }
    fn get(&self) -> Option<SignatureProof> {
        SignatureProof::from_bytes_compressed_form(&self.bytes()).ok()
    }
}
#[derive(Clone)]
struct Pok {
    w: Arc<World>,
    pf: Option<(SignatureProof, SignatureProof, Vec<i64>)>,
}
fn set(v: &Value) -> Vec<usize> {
    ints(v).into_iter().map(|i| i as usize - 1).collect()
}
fn pms(m: &[SignatureMessage], r: &[usize]) -> Vec<ProofMessage> {
    m.iter()
        .enumerate()
        .map(|(i, m)| if r.contains(&i) { ProofMessage::Revealed(*m) } else { ProofMessage::Hidden(HiddenMessage::ProofSpecificBlinding(*m)) })
        .collect()
}
fn show(v: &[SignatureMessage]) -> Value {
    let n: Vec<String> = v.iter().map(|m| (0..20).find(|i| msg(*i) == *m).map_or("x".into(), |i| i.to_string())).collect();
    json!(format!("ok:{}", n.join(",")))
}
fn verdict(r: Result<Vec<SignatureMessage>, BBSError>) -> Value {
    match r {
        Ok(v) => show(&v),
        Err(_) => json!("err"),
    }
}
fn challenge(p: &PP, req: &ProofRequest, n: &ProofNonce) -> Fr {
    let sp = p.get().unwrap();
    *Verifier::create_challenge_hash(&[sp], &[req.clone()], n, None).unwrap().as_ref()
}
/// Bases of the second relation.
fn bases2(pk: &PublicKey, d: &G1, r: &[usize]) -> Vec<G1> {
    let mut b = vec![*d, *pk.h0.as_ref()];
    for i in 0..pk.message_count() {
        if !r.contains(&i) {
            b.push(*pk.h[i].as_ref());
        }
    }
    b
}
fn msm(b: &[G1], s: &[Fr]) -> G1 {
    b.iter().zip(s).fold(G1::zero(), |a, (b, s)| add(&a, &mul(b, s)))
}
/// A prover of our own. `wrong` is added to the hidden messages' secrets, `forge`: the commitment
/// leaves room to choose the shown message after the challenge.
fn own_prover(pk: &PublicKey, sig: &Parts, m: &[Fr], r: &[usize], req: &ProofRequest, n: &ProofNonce, wrong: Option<Fr>, forge: bool) -> PP {
    let mut b = add(&G1::one(), &mul(pk.h0.as_ref(), &sig.s));
    for (h, m) in pk.h.iter().zip(m) {
        b = add(&b, &mul(h.as_ref(), m));
    }
    let (r1, r2) = (fr(), fr());
    let ap = mul(&sig.a, &r1);
    let abar = add(&mul(&b, &r1), &negp(&mul(&ap, &sig.e)));
    let d = add(&mul(&b, &r1), &negp(&mul(pk.h0.as_ref(), &r2)));
    let r3 = r1.inverse().unwrap();
    let sp = fsub(&sig.s, &fmul(&r2, &r3));
    let b1 = vec![ap, *pk.h0.as_ref()];
    let s1 = vec![neg(&sig.e), r2];
    let b2 = bases2(pk, &d, r);
    let mut s2 = vec![neg(&r3), sp];
    s2.extend((0..m.len()).filter(|i| !r.contains(i)).map(|i| m[i]));
    if let Some(x) = wrong {
        let l = s2.len() - 1;
        s2[l].add_assign(&x);
    }
    let k1: Vec<Fr> = s1.iter().map(|_| fr()).collect();
    let k2: Vec<Fr> = s2.iter().map(|_| fr()).collect();
    let mut t2 = msm(&b2, &k2);
    let w = fr();
    if forge {
        t2 = add(&t2, &mul(pk.h[r[0]].as_ref(), &w));
    }
    let mut p = PP { ap, abar, d, t1: msm(&b1, &k1), r1: k1.clone(), t2, r2: k2.clone(), shown: r.iter().map(|i| (*i as u32, m[*i])).collect() };
    let c = challenge(&p, req, n);
    p.r1 = k1.iter().zip(&s1).map(|(k, s)| fsub(k, &fmul(&c, s))).collect();
    p.r2 = k2.iter().zip(&s2).map(|(k, s)| fsub(k, &fmul(&c, s))).collect();
    if forge {
        p.shown[0].1 = fsub(&p.shown[0].1, &fmul(&w, &c.inverse().unwrap()));
    }
    p
}
fn alter(p: &PP, q: &PP, e: &str, n: usize, m: &[i64]) -> PP {
    let mut p = p.clone();
    let r: Vec<usize> = p.shown.iter().map(|x| x.0 as usize).collect();
    let hid: Vec<usize> = (0..n).filter(|i| !r.contains(i)).collect();
    let f = |i: i64| *msg(i).as_ref();
    let l2 = p.r2.len() - 1;
    match e {
        "ap" => p.ap = pt(),
        "abar" => p.abar = pt(),
        "d" => p.d = pt(),
        "t1" => p.t1 = pt(),
        "t2" => p.t2 = pt(),
        "apid" => p.ap = G1::zero(),
        "abarid" => p.abar = G1::zero(),
        "did" => p.d = G1::zero(),
        "allid" => {
            p.ap = G1::zero();
            p.abar = G1::zero();
            p.d = G1::zero();
        }
        "swapad" => std::mem::swap(&mut p.ap, &mut p.abar),
        "r10" => p.r1[0] = fr(),
        "r11" => p.r1[1] = fr(),
        "r20" => p.r2[0] = fr(),
        "r21" => p.r2[1] = fr(),
        "r2l" => p.r2[l2] = fr(),
        "r2more" => p.r2.push(fr()),
        "r2less" => {
            p.r2.pop();
        }
        "r1more" => p.r1.push(fr()),
        "r1less" => {
            p.r1.pop();
        }
        "r1none" => p.r1.clear(),
        "r2none" => p.r2.clear(),
        "shown" if !r.is_empty() => p.shown[0].1 = f(m[r[0]] + 1),
        "shownzero" if !r.is_empty() && m[r[0]] != 0 => p.shown[0].1 = f(0),
        "add" if !hid.is_empty() => p.shown.push((hid[0] as u32, f(m[hid[0]]))),
        "addlie" if !hid.is_empty() => p.shown.push((hid[0] as u32, f(m[hid[0]] + 1))),
        "drop" if !r.is_empty() => {
            p.shown.pop();
        }
        "move" if !r.is_empty() && !hid.is_empty() => p.shown[0].0 = hid[0] as u32,
        "addrange" => p.shown.push((n as u32 + 5, f(1))),
        "other" => {
            p.ap = q.ap;
            p.abar = q.abar;
            p.d = q.d;
        }
        "scale" => {
            let x = fr();
            p.ap = mul(&p.ap, &x);
            p.abar = mul(&p.abar, &x);
        }
        // nothing to alter in that way
        "shown" | "shownzero" | "add" | "addlie" | "drop" | "move" => p.ap = pt(),
        x => harness!("edit {}", x),
    }
    p
}
impl Sys for Pok {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let w = self.w.clone();
        let none = |r: Result<SignatureProof, BBSError>| r.unwrap_or_else(|_| harness!("proof"));
        match st(&c["op"]) {
            "request" => ok(Verifier::new_proof_request(&set(&c["r"]), &w.k("a", us(&c["n"])).0)),
            "prove" => {
                let (pk, sk) = w.key(c);
                let m = ints(&c["m"]);
                let r = set(&c["r"]);
                let mm: Vec<_> = m.iter().map(|i| msg(*i)).collect();
                let mut claimed = mm.clone();
                let mut spk = pk;
                let mut sig = Issuer::sign(&mm, sk, pk).unwrap();
                match st(&c["lie"]) {
                    "no" => {}
                    "msg" => claimed[0] = msg(m[0] + 1),
                    "key" => spk = &w.k(if c["k"] == "a" { "b" } else { "a" }, m.len()).0,
                    "more" => claimed.push(msg(0)),
                    "less" => {
                        claimed.pop();
                    }
                    "sig" => sig = Signature::try_from(Parts::of(&sig.to_bytes_compressed_form()).edit("a").bytes()).unwrap(),
                    x => harness!("lie {}", x),
                }
                let req = Verifier::new_proof_request(&r, spk).unwrap();
                let n = nonce(&c["nonce"]);
                let make = || -> Result<SignatureProof, BBSError> {
                    let pok = Prover::commit_signature_pok(&req, &pms(&claimed, &r), &sig)?;
                    let ch = Prover::create_challenge_hash(&[pok.clone()], None, &n)?;
                    Prover::generate_signature_pok(pok, &ch)
                };
                match make() {
                    Ok(p) => {
                        self.pf = Some((p, none(make()), m));
                        json!("ok")
                    }
                    Err(_) => json!("err"),
                }
            }
            "verify" => {
                let (p, q, m) = self.pf.as_ref().unwrap();
                let req = Verifier::new_proof_request(&set(&c["r"]), &w.key(c).0).unwrap();
                let n = nonce(&c["nonce"]);
                let b = p.to_bytes_compressed_form();
                let p = match st(&c["e"]) {
                    "none" => p.clone(),
                    "comp" => none(SignatureProof::from_bytes_compressed_form(&b)),
                    "uncomp" => none(SignatureProof::from_bytes_uncompressed_form(&p.to_bytes_uncompressed_form())),
                    "json" => json_rt(p),
                    e => match alter(&PP::of(&b), &PP::of(&q.to_bytes_compressed_form()), e, m.len(), m).get() {
                        Some(p) => p,
                        None => return json!("err"),
                    },
                };
                verdict(Verifier::verify_signature_pok(&req, &p, &n))
            }
            "resp" => {
                let n = us(&c["n"]);
                let (pk, sk) = w.k("a", n);
                let m: Vec<_> = (0..n).map(|i| msg(i as i64)).collect();
                let r = set(&c["r"]);
                let sig = Issuer::sign(&m, sk, pk).unwrap();
                let pok = PoKOfSignature::init(&sig, pk, &pms(&m, &r)).unwrap();
                ok(pok.gen_proof(&ProofChallenge::random()).unwrap().get_resp_for_message(us(&c["i"])))
            }
            "malformed" => {
                let (pk, _) = w.k("a", 1);
                let z = G1::zero();
                let r = set(&c["r"]);
                let shown = r.iter().map(|i| (*i as u32, *msg(1).as_ref())).collect();
                let mut p = PP { ap: pt(), abar: pt(), d: pt(), t1: pt(), r1: vec![fr(); 2], t2: pt(), r2: vec![fr(); 3 - r.len()], shown };
                let mut req = Verifier::new_proof_request(&r, pk).unwrap();
                match st(&c["e"]) {
                    "default" => {
                        req.verification_key = PublicKey::default();
                        p = PP { ap: z, abar: z, d: z, t1: z, r1: vec![], t2: z, r2: vec![], shown: p.shown };
                    }
                    "noresp1" => p.r1.clear(),
                    "noresp2" => p.r2.clear(),
                    _ => p = PP { ap: z, abar: z, d: z, t1: z, r1: vec![Fr::zero(); 2], t2: z, r2: vec![Fr::zero(); 3 - r.len()], shown: p.shown },
                }
                let sp = p.get().unwrap_or_else(|| harness!("malformed"));
                for i in 0..4 {
                    let _ = sp.proof.get_resp_for_message(i);
                }
                verdict(Verifier::verify_signature_pok(&req, &sp, &nonce(&json!(1))))
            }
            "cheat" => {
                let n = us(&c["n"]);
                let (pk, sk) = w.k("a", n);
                let m = msgs(&c["m"]);
                let f: Vec<Fr> = m.iter().map(|m| *m.as_ref()).collect();
                let r = set(&c["r"]);
                let req = Verifier::new_proof_request(&r, pk).unwrap();
                let no = nonce(&json!(1));
                let sig = Parts::of(&Issuer::sign(&m, sk, pk).unwrap().to_bytes_compressed_form());
                let own = |wrong, forge| own_prover(pk, &sig, &f, &r, &req, &no, wrong, forge);
                let p = match st(&c["e"]) {
                    "forge" => own(None, true),
                    "hiddenlie" => own(Some(Fr::one()), false),
                    "nosig" => own_prover(pk, &Parts { a: pt(), e: fr(), s: fr() }, &f, &r, &req, &no, None, false),
                    "nosigid" => own_prover(pk, &Parts { a: G1::zero(), e: fr(), s: fr() }, &f, &r, &req, &no, None, false),
                    "othersig" => {
                        let (bk, bs) = w.k("b", n);
                        let mut mine = pk.clone();
                        mine.w = bk.w;
                        let s = Parts::of(&Issuer::sign(&m, bs, &mine).unwrap().to_bytes_compressed_form());
                        own_prover(pk, &s, &f, &r, &req, &no, None, false)
                    }
                    // proofs simulated for a challenge chosen in advance, around somebody's A' and A-bar
                    "replay" => {
                        let mut p = own(None, false);
                        let ch = fr();
                        p.d = pt();
                        p.r1 = vec![fr(), fr()];
                        p.r2 = p.r2.iter().map(|_| fr()).collect();
                        let abd = add(&p.abar, &negp(&p.d));
                        p.t1 = add(&msm(&[p.ap, *pk.h0.as_ref()], &p.r1), &mul(&abd, &ch));
                        let mut pr = G1::one();
                        for i in &r {
                            pr = add(&pr, &mul(pk.h[*i].as_ref(), &f[*i]));
                        }
                        p.t2 = add(&msm(&bases2(pk, &p.d, &r), &p.r2), &mul(&negp(&pr), &ch));
                        p
                    }
                    x => harness!("cheat {}", x),
                };
                let sanity = own(None, false);
                let v = Verifier::verify_signature_pok(&req, &sanity.get().unwrap(), &no);
                if v.is_err() {
                    harness!("own prover refused");
                }
                match p.get() {
                    Some(p) => verdict(Verifier::verify_signature_pok(&req, &p, &no)),
                    None => json!("err"),
                }
            }
            "link" => {
                let bl = ProofNonce::random();
                let claims: [&[u8]; 2] = [b"claim", b"other"];
                let n = nonce(&json!(1));
                let mut poks = vec![];
                let mut reqs = vec![];
                let mut idx = vec![];
                for (k, m, i) in [("a", &c["m1"], us(&c["i"]) - 1), ("b", &c["m2"], us(&c["j"]) - 1)].iter() {
                    let m = msgs(m);
                    let (pk, sk) = w.k(k, m.len());
                    let r: Vec<usize> = if c["show"] == true { (0..m.len()).filter(|x| x != i).collect() } else { vec![] };
                    idx.push(if c["show"] == true { 0 } else { *i });
                    let sig = Issuer::sign(&m, sk, pk).unwrap();
                    let mut pm = pms(&m, &r);
                    pm[*i] = ProofMessage::Hidden(HiddenMessage::ExternalBlinding(m[*i], bl));
                    let req = Verifier::new_proof_request(&r, pk).unwrap();
                    poks.push(Prover::commit_signature_pok(&req, &pm, &sig).unwrap());
                    reqs.push(req);
                }
                let cl = if c["claims"] == "noclaims" { None } else { Some(&claims[..]) };
                let ch = Prover::create_challenge_hash(&poks, cl, &n).unwrap();
                let mut pr: Vec<_> = poks.into_iter().map(|p| Prover::generate_signature_pok(p, &ch).unwrap()).collect();
                let vclaims: [&[u8]; 2] = if c["claims"] == "claims" { [b"claim", b"third"] } else { claims };
                match st(&c["order"]) {
                    "order" => {
                        pr.swap(0, 1);
                        reqs.swap(0, 1);
                        idx.swap(0, 1);
                    }
                    "fewer" => {
                        reqs.pop();
                    }
                    "more" => {
                        let x = reqs[0].clone();
                        reqs.push(x);
                    }
                    _ => {}
                }
                let vch = match Verifier::create_challenge_hash(&pr, &reqs, &nonce(&c["nonce"]), Some(&vclaims[..])) {
                    Ok(x) => x,
                    Err(_) => return json!("err"),
                };
                for (p, q) in pr.iter().zip(&reqs) {
                    match p.proof.verify(&q.verification_key, &p.revealed_messages, &vch) {
                        Ok(s) if s.is_valid() => {}
                        _ => return json!("err"),
                    }
                }
                if vch != ch {
                    return json!("accepted");
                }
                let a = pr[0].proof.get_resp_for_message(idx[0]).unwrap();
                let b = pr[1].proof.get_resp_for_message(idx[1]).unwrap();
                json!(if a == b { "linked" } else { "apart" })
            }
            x => harness!("op {}", x),
        }
    }
}
/// Random flows over larger vectors.
fn rec_sig(a: &Args, w: Arc<World>) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Sig { w, ctx: None, bs: None, sig: None };
    while rec.n < a.n {
        rec.call(&mut s, json!({"op":"new"}));
        let n = r.gen_range(1, N + 1);
        let k = *["a", "b", "s"].choose(&mut r).unwrap();
        let m: Vec<i64> = (0..n).map(|_| r.gen_range(0, 5)).collect();
        if r.gen() {
            let b: Vec<i64> = (0..=n).map(|i| if i < n && r.gen() { m[i] } else { -1 }).collect();
            let mut x: Vec<i64> = (0..=n).map(|i| if i < n && b[i] == -1 { m[i] } else { -1 }).collect();
            rec.call(&mut s, json!({"op":"ctx","k":k,"n":n,"b":b,"nonce":1}));
            let mut y = x.clone();
            let i = r.gen_range(0, n + 1);
            y[i] = if y[i] == -1 { 1 } else { -1 };
            rec.call(&mut s, json!({"op":"bsign","k":k,"n":n,"w":y,"nonce":1,"e":"none"}));
            if r.gen() {
                x[i] = y[i];
            }
            let e = *["none", "none", "none", "com", "chal", "t", "r0", "rlast", "more", "less"].choose(&mut r).unwrap();
            let v = rec.call(&mut s, json!({"op":"bsign","k":k,"n":n,"w":x,"nonce":r.gen_range(1, 8) / 7 + 1,"e":e}));
            if v != "ok" {
                continue;
            }
            let mut z = m.clone();
            z.swap(0, n - 1);
            rec.call(&mut s, json!({"op":"complete","k":k,"n":n,"m":z,"bl":"own","e":"none"}));
            let bl = *["own", "own", "own", "other", "zero"].choose(&mut r).unwrap();
            if rec.call(&mut s, json!({"op":"complete","k":k,"n":n,"m":m,"bl":bl,"e":"none"})) != "ok" && s.sig.is_none() {
                continue;
            }
        } else {
            let l = if r.gen_range(0, 4) == 0 { r.gen_range(0, n + 2) } else { n };
            let x: Vec<i64> = (0..l).map(|i| *m.get(i).unwrap_or(&1)).collect();
            if rec.call(&mut s, json!({"op":"sign","k":k,"n":n,"m":x})) != "ok" {
                continue;
            }
        }
        for _ in 0..4 {
            let mut x = m.clone();
            let (i, j) = (r.gen_range(0, n), r.gen_range(0, n));
            match r.gen_range(0, 5) {
                0 => x[i] = r.gen_range(0, 5),
                1 => x.swap(i, j),
                2 => {
                    x.remove(i);
                }
                3 => x.insert(i, 0),
                _ => {}
            }
            let kk = if r.gen_range(0, 6) == 0 { *["a", "b", "s"].choose(&mut r).unwrap() } else { k };
            let nn = if r.gen_range(0, 6) == 0 { r.gen_range(1, N + 1) } else { n };
            let e = if r.gen_range(0, 5) == 0 { *["a", "e", "s", "neg", "swap"].choose(&mut r).unwrap() } else { "none" };
            rec.call(&mut s, json!({"op":"verify","k":kk,"n":nn,"m":x,"e":e,"via":"direct"}));
        }
    }
}
fn rec_pok(a: &Args, w: Arc<World>) {
    let mut r = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let mut s = Pok { w, pf: None };
    const E: [&str; 20] = ["none", "comp", "uncomp", "ap", "abar", "d", "t1", "t2", "r10", "r11", "r20", "r21", "r2l", "r2more", "r2less", "shown", "add", "drop", "move", "other"];
    while rec.n < a.n {
        let n = r.gen_range(1, N + 1);
        let k = *["a", "b", "s"].choose(&mut r).unwrap();
        let m: Vec<i64> = (0..n).map(|_| r.gen_range(0, 5)).collect();
        let sub = |r: &mut rand::rngs::StdRng| -> Vec<usize> { (1..=n).filter(|_| r.gen()).collect() };
        let x = sub(&mut r);
        rec.call(&mut s, json!({"op":"prove","k":k,"n":n,"m":m,"r":x,"nonce":1,"lie":"no"}));
        for _ in 0..4 {
            let y = if r.gen_range(0, 4) == 0 { sub(&mut r) } else { x.clone() };
            let e = if r.gen() { *E.choose(&mut r).unwrap() } else { "none" };
            // an alteration could just bring the other set about
            let e = if y != x { "none" } else { e };
            rec.call(&mut s, json!({"op":"verify","k":k,"n":n,"r":y,"nonce":r.gen_range(1, 8) / 7 + 1,"e":e}));
        }
    }
}
fn main() {
    let a = args();
    let w = Arc::new(World::new());
    let sig = a.opt.get("what").map_or(true, |x| x == "sig");
    // G2 is used by the harness only through keys
    let _ = G2::zero();
    match (a.mode.as_str(), sig) {
        ("replay", true) => replay(&a, |_| Sig { w: w.clone(), ctx: None, bs: None, sig: None }),
        ("replay", false) => replay(&a, |_| Pok { w: w.clone(), pf: None }),
        (_, true) => rec_sig(&a, w),
        (_, false) => rec_pok(&a, w),
    }
}
