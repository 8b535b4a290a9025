//! C01-C08: anonymous credentials (libursa::cl).
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex, OnceLock};
use vh::clapi::*;
use vh::*;

const FIX: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../fixtures/cl.json");

pub struct Key {
    pk: CredentialPublicKey,
    sk: CredentialPrivateKey,
    kcp: CredentialKeyCorrectnessProof,
    attrs: Vec<String>,
}
fn schema(attrs: &[String]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for a in attrs {
        b.add_attr(a).unwrap();
    }
    j(b.finalize().unwrap())
}
fn nonschema() -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    b.add_attr("master_secret").unwrap();
    j(b.finalize().unwrap())
}
fn de<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| harness!("fixture {}", e))
}
fn num(v: &str) -> ursa::bn::BigNumber {
    ursa::bn::BigNumber::from_dec(v).unwrap()
}
/// A secret value standing for the small number i.
fn secret(i: i64) -> String {
    format!("2145{}57899{}30312", i, i * 77)
}

pub struct Env {
    keys: Vec<Key>,
    nonces: Vec<Nonce>,
    creds: Mutex<HashMap<String, Arc<Cred>>>,
}
/// A revocation registry definition.
pub struct RegFix {
    key: usize,
    max: u32,
    by_default: bool,
    rkp: RevocationKeyPublic,
    rks: RevocationKeyPrivate,
    reg0: RevocationRegistry,
    tails: SimpleTailsAccessor,
    /// accumulator and witness values by the set they stand for
    acc: HashMap<Vec<u8>, String>,
    omega: Vec<HashMap<Vec<u8>, String>>,
    creds: Mutex<HashMap<(u32, i64), Arc<RevCred>>>,
}
/// A credential of one index, before and after processing by its holder.
pub struct RevCred {
    raw: CredentialSignature,
    scp: SignatureCorrectnessProof,
    f: CredentialSecretsBlindingFactors,
    n2: Nonce,
    values: CredentialValues,
    sig: CredentialSignature,
}
pub struct Cred {
    sig: CredentialSignature,
    values: CredentialValues,
}
static REGS: OnceLock<Vec<RegFix>> = OnceLock::new();
fn regs() -> &'static Vec<RegFix> {
    REGS.get_or_init(|| {
        vec![(0, 3, true), (0, 3, false), (1, 3, true), (0, 5, true), (0, 5, false)]
            .into_iter()
            .map(|(key, max, by_default)| {
                let (rkp, rks, reg0, mut gen) = Issuer::new_revocation_registry_def(&env().keys[key].pk, max, by_default).unwrap();
                let tails = tails_of(&mut gen).unwrap();
                RegFix::new(key, max, by_default, rkp, rks, reg0, tails)
            })
            .collect()
    })
}
static ENV: OnceLock<Env> = OnceLock::new();
fn env() -> &'static Env {
    ENV.get_or_init(|| {
        let d: Value = serde_json::from_str(&std::fs::read_to_string(FIX).unwrap_or_else(|e| harness!("{}", e))).unwrap_or_else(|e| harness!("{}", e));
        let keys: Vec<Key> = arr(&d["keys"])
            .iter()
            .map(|k| Key { pk: de(&k["pk"]), sk: de(&k["sk"]), kcp: de(&k["kcp"]), attrs: de(&k["attrs"]) })
            .collect();
        Env { keys, nonces: (0..4).map(|_| j(new_nonce().unwrap())).collect(), creds: Default::default() }
    })
}
impl Env {
    fn key(&self, v: &Value) -> &Key {
        &self.keys[us(v) - 1]
    }
    fn nonce(&self, v: &Value) -> &Nonce {
        &self.nonces[us(v) - 1]
    }
}
fn values(v: &Value) -> CredentialValues {
    let mut b = Issuer::new_credential_values_builder().unwrap();
    b.add_dec_hidden("master_secret", &secret(int(&v["ms"]))).unwrap();
    for (k, x) in v["at"].as_object().unwrap() {
        b.add_dec_known(k, &int(x).to_string()).unwrap();
    }
    b.finalize().unwrap()
}
/// A primary credential, by the honest protocol. {k, ms, at}
fn cred(v: &Value) -> Arc<Cred> {
    let name = v.to_string();
    if let Some(c) = env().creds.lock().unwrap().get(&name) {
        return c.clone();
    }
    let k = env().key(&v["k"]);
    let values = values(v);
    let (n1, n2) = (j(new_nonce().unwrap()), j(new_nonce().unwrap()));
    let (b, f, p) = Prover::blind_credential_secrets(&k.pk, &k.kcp, &values, &n1).unwrap();
    let (mut sig, scp) = Issuer::sign_credential("did", &b, &p, &n1, &n2, &values, &k.pk, &k.sk).unwrap();
    Prover::process_credential_signature(&mut sig, &values, &scp, &f, &k.pk, &n2, None, None, None).unwrap();
    let c = Arc::new(Cred { sig, values });
    env().creds.lock().unwrap().insert(name, c.clone());
    c
}
/// {rev: [..], preds: [{a,t,v}]}
fn request(v: &Value) -> Option<SubProofRequest> {
    let mut b = Verifier::new_sub_proof_request_builder().unwrap();
    for a in arr(&v["rev"]) {
        b.add_revealed_attr(st(a)).unwrap();
    }
    for p in arr(&v["preds"]) {
        if b.add_predicate(st(&p["a"]), st(&p["t"]), int(&p["v"]) as i32).is_err() {
            return None;
        }
    }
    Some(b.finalize().unwrap())
}
fn attrs_of(v: &Value) -> Vec<String> {
    arr(v).iter().map(|x| st(x).to_string()).collect()
}
/// The prover's side of {subs:[{cred, key, schema, rev, preds}], common, nonce}
fn build(p: &Value) -> Option<Proof> {
    let e = env();
    let mut b = Prover::new_proof_builder().unwrap();
    for a in arr(&p["common"]) {
        b.add_common_attribute(st(a)).unwrap();
    }
    for s in arr(&p["subs"]) {
        if s.get("reg").is_some() {
            let x = &regs()[0];
            let i = (int(&s["cred"]["at"]["age"]) - 20) as u32;
            let cr = x.cred_of(i, int(&s["cred"]["ms"]));
            let d = delta_parts(None, &x.reg0, &HashSet::new(), &HashSet::new());
            let w = witness_new(i, x.max, x.by_default, &d, &x.tails).unwrap();
            b.add_sub_proof_request(&request(s)?, &schema(&attrs_of(&s["schema"])), &nonschema(), &cr.sig, &cr.values, &e.key(&s["key"]).pk, Some(&x.reg0), Some(&w)).unwrap();
            continue;
        }
        let c = cred(&s["cred"]);
        let forged;
        let (sig, vals) = match s.get("forge").map(st) {
            None => (&c.sig, &c.values),
            Some(how) => {
                forged = forge(how, &c, s);
                (&forged.sig, &forged.values)
            }
        };
        if b.add_sub_proof_request(&request(s)?, &schema(&attrs_of(&s["schema"])), &nonschema(), sig, vals, &e.key(&s["key"]).pk, None, None).is_err() {
            return None;
        }
    }
    b.finalize(e.nonce(&p["nonce"])).ok().map(j)
}
/// What a dishonest holder may hand to the proof builder.
fn forge(how: &str, c: &Cred, s: &Value) -> Cred {
    let mut sig = serde_json::to_value(&c.sig).unwrap();
    let vals;
    let k = env().key(&s["key"]);
    match how {
        // other attribute values under the same signature
        "values" => vals = values(&s["claim"]),
        // a "signature" with exponent 1, made without the issuer
        "e1" => {
            vals = values(&s["claim"]);
            let pk = k.pk.get_primary_key().unwrap();
            let pj = serde_json::to_value(&pk).unwrap();
            let n = num(st(&pj["n"]));
            let z = num(st(&pj["z"]));
            let mut rx = num(st(&pj["s"])).mod_exp(&num("12345"), &n, None).unwrap();
            rx = rx.mod_mul(&num(st(&pj["rctxt"])).mod_exp(&num("99"), &n, None).unwrap(), &n, None).unwrap();
            let mut all: Vec<(String, String)> = s["claim"]["at"].as_object().unwrap().iter().map(|(a, v)| (a.clone(), int(v).to_string())).collect();
            all.push(("master_secret".into(), secret(int(&s["claim"]["ms"]))));
            for (a, v) in all {
                let r = num(st(&pj["r"][&a]));
                rx = rx.mod_mul(&r.mod_exp(&num(&v), &n, None).unwrap(), &n, None).unwrap();
            }
            let a = z.mod_div(&rx, &n, None).unwrap();
            sig["p_credential"]["a"] = json!(a.to_dec().unwrap());
            sig["p_credential"]["e"] = json!("1");
            sig["p_credential"]["v"] = json!("12345");
            sig["p_credential"]["m_2"] = json!("99");
        }
        _ => harness!("forge {}", how),
    }
    Cred { sig: de(&sig), values: vals }
}
fn verifier(v: &Value) -> Option<ProofVerifier> {
    let e = env();
    let mut b = Verifier::new_proof_verifier().unwrap();
    for a in arr(&v["common"]) {
        b.add_common_attribute(st(a)).unwrap();
    }
    for s in arr(&v["subs"]) {
        if !add_sub(&mut b, s) {
            return None;
        }
    }
    let _ = e;
    Some(b)
}
fn add_sub(b: &mut ProofVerifier, s: &Value) -> bool {
    let x = &regs()[0];
    let (rkp, reg) = if s.get("reg").is_some() { (Some(&x.rkp), Some(&x.reg0)) } else { (None, None) };
    match request(s) {
        None => false,
        Some(r) => b.add_sub_proof_request(&r, &schema(&attrs_of(&s["schema"])), &nonschema(), &env().key(&s["key"]).pk, rkp, reg).is_ok(),
    }
}
fn verdict(r: ursa::errors::UrsaCryptoResult<bool>) -> &'static str {
    match r {
        Ok(true) => "yes",
        r => { if std::env::var("VH_WHY").is_ok() { eprintln!("{:?}", r.map_err(|e| e.to_string())) } "no" }
    }
}

/// C02, C03, C04
#[derive(Clone)]
struct Show;
impl Sys for Show {
    fn fork(&self) -> Self {
        Show
    }
    fn step(&mut self, c: &Value) -> Value {
        match st(&c["op"]) {
            "present" => {
                let p = match build(&c["p"]) {
                    None => return json!("no"), // cannot be built
                    Some(p) => p,
                };
                let mut pj = serde_json::to_value(&p).unwrap();
                // what the receiver sees as revealed is what was signed
                for (s, sub) in arr(&c["p"]["subs"]).iter().zip(arr(&pj["proofs"]).iter()) {
                    if s.get("forge").is_some() {
                        continue;
                    }
                    for (a, v) in sub["primary_proof"]["eq_proof"]["revealed_attrs"].as_object().unwrap() {
                        if st(v) != int(&s["cred"]["at"][a]).to_string() {
                            return json!("another value revealed");
                        }
                    }
                }
                if let Some(moves) = c.get("moves") {
                    if !rearrange(&mut pj, arr(moves)) {
                        harness!("moves {}", moves)
                    }
                }
                let p: Proof = match serde_json::from_value(pj) {
                    Ok(p) => p,
                    Err(_) => return json!("no"),
                };
                let mut v = match verifier(&c["v"]) {
                    None => return json!("no"),
                    Some(v) => v,
                };
                json!(verdict(v.verify(&p, env().nonce(&c["v"]["nonce"]))))
            }
            _ => harness!("op {}", c),
        }
    }
}
/// Edits of a presentation that a dishonest holder can make: sub proofs and predicate proofs re-labelled or moved.
fn rearrange(pj: &mut Value, moves: &[Value]) -> bool {
    for m in moves {
        match st(&m["m"]) {
            "swap" => pj["proofs"].as_array_mut().unwrap().swap(us(&m["i"]) - 1, us(&m["j"]) - 1),
            "dup" => {
                let x = pj["proofs"][us(&m["i"]) - 1].clone();
                pj["proofs"][us(&m["j"]) - 1] = x
            }
            "drop" => {
                pj["proofs"].as_array_mut().unwrap().remove(us(&m["i"]) - 1);
            }
            // say that the i-th predicate proof is about another attribute
            "relabel" => pj["proofs"][us(&m["s"]) - 1]["primary_proof"]["ge_proofs"][us(&m["i"]) - 1]["predicate"]["attr_name"] = m["a"].clone(),
            "revalue" => pj["proofs"][us(&m["s"]) - 1]["primary_proof"]["ge_proofs"][us(&m["i"]) - 1]["predicate"]["value"] = m["v"].clone(),
            "reveal" => pj["proofs"][us(&m["s"]) - 1]["primary_proof"]["eq_proof"]["revealed_attrs"][st(&m["a"])] = json!(int(&m["v"]).to_string()),
            _ => return false,
        }
    }
    true
}


// ---------------------------------------------------------------- revocation (C05, C06)
fn digits(s: &BTreeSet<u32>) -> String {
    s.iter().map(|x| x.to_string()).collect()
}
fn norm(p: ursa::pair::PointG2) -> Vec<u8> {
    if p == ursa::pair::PointG2::new_inf().unwrap() {
        vec![]
    } else {
        p.to_bytes().unwrap()
    }
}
fn point(v: &Value) -> Vec<u8> {
    norm(de(v))
}
fn acc_of<T: serde::Serialize>(r: &T) -> Vec<u8> {
    point(&serde_json::to_value(r).unwrap()["accum"])
}
impl RegFix {
    fn new(key: usize, max: u32, by_default: bool, rkp: RevocationKeyPublic, rks: RevocationKeyPrivate, reg0: RevocationRegistry, tails: SimpleTailsAccessor) -> RegFix {
        let sum = |ids: Vec<u32>| {
            let mut p = ursa::pair::PointG2::new_inf().unwrap();
            for t in ids {
                tails.access_tail(t, &mut |x| p = p.add(x).unwrap()).unwrap();
            }
            norm(p)
        };
        let subsets: Vec<BTreeSet<u32>> = (0u32..1 << max).map(|m| (1..=max).filter(|j| m >> (j - 1) & 1 == 1).collect()).collect();
        let acc = subsets.iter().map(|s| (sum(s.iter().map(|j| max + 1 - j).collect()), digits(s))).collect();
        let omega = (0..=max)
            .map(|i| subsets.iter().filter(|s| i > 0 && !s.contains(&i)).map(|s| (sum(s.iter().map(|j| max + 1 - j + i).collect()), digits(s))).collect())
            .collect();
        RegFix { key, max, by_default, rkp, rks, reg0, tails, acc, omega, creds: Default::default() }
    }
    fn live(&self, p: &[u8]) -> String {
        self.acc.get(p).cloned().unwrap_or_else(|| "no sum of tails".into())
    }
    fn delta(&self, d: &RevocationRegistryDelta) -> String {
        let v = serde_json::to_value(d).unwrap();
        let set = |k: &str| -> String { digits(&v.get(k).map(|x| arr(x).iter().map(|y| us(y) as u32).collect()).unwrap_or_default()) };
        let prev = match v.get("prevAccum") {
            None => "none".to_string(),
            Some(x) => self.live(&point(x)),
        };
        format!("{}>{}+{}-{}", prev, self.live(&point(&v["accum"])), set("issued"), set("revoked"))
    }
    fn wit(&self, i: u32, w: &Witness) -> String {
        let p = point(&serde_json::to_value(w).unwrap()["omega"]);
        self.omega.get(i as usize).and_then(|m| m.get(&p).cloned()).unwrap_or_else(|| "no sum of tails".into())
    }
    fn cred(&self, i: u32) -> Arc<RevCred> {
        self.cred_of(i, 1)
    }
    fn cred_of(&self, i: u32, ms: i64) -> Arc<RevCred> {
        if let Some(c) = self.creds.lock().unwrap().get(&(i, ms)) {
            return c.clone();
        }
        let mut r = self.reg0.clone();
        let values = values(&json!({"ms": ms, "at": {"age": 20 + i, "height": 170, "name": 5}}));
        let k = &env().keys[self.key];
        let (n1, n2) = (j(new_nonce().unwrap()), j(new_nonce().unwrap()));
        let (b, f, p) = Prover::blind_credential_secrets(&k.pk, &k.kcp, &values, &n1).unwrap();
        let (raw, scp, d) =
            Issuer::sign_credential_with_revoc("did", &b, &p, &n1, &n2, &values, &k.pk, &k.sk, i, self.max, self.by_default, &mut r, &self.rks, &self.tails).unwrap();
        let mut sig = raw.try_clone().unwrap();
        let d = d.unwrap_or_else(|| delta_parts(None, &r, &HashSet::new(), &HashSet::new()));
        let w = witness_new(i, self.max, self.by_default, &d, &self.tails).unwrap();
        Prover::process_credential_signature(&mut sig, &values, &scp, &f, &k.pk, &n2, Some(&self.rkp), Some(&r), Some(&w)).unwrap();
        let c = Arc::new(RevCred { raw, scp, f, n2, values, sig });
        self.creds.lock().unwrap().insert((i, ms), c.clone());
        c
    }
}
/// A tails source which fails at its `at`-th access.
struct Flaky<'a> {
    t: &'a SimpleTailsAccessor,
    at: i64,
    n: std::cell::Cell<i64>,
}
impl<'a> RevocationTailsAccessor for Flaky<'a> {
    fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> ursa::errors::UrsaCryptoResult<()> {
        self.n.set(self.n.get() + 1);
        if self.n.get() == self.at {
            return Err(ursa::errors::err_msg(ursa::errors::UrsaCryptoErrorKind::IOError, "tails file"));
        }
        self.t.access_tail(id, f)
    }
}
#[derive(Clone)]
struct Reg {
    f: usize,
    me: u32,
    reg: RevocationRegistry,
    regs: Vec<RevocationRegistry>,
    deltas: Vec<RevocationRegistryDelta>,
    w: Option<Witness>,
}
impl Reg {
    fn new(f: usize, me: u32) -> Reg {
        let r = &regs()[f].reg0;
        Reg { f, me, reg: r.clone(), regs: vec![r.clone()], deltas: vec![], w: None }
    }
    fn fix(&self) -> &'static RegFix {
        &regs()[self.f]
    }
    fn delta(&self, a: usize, b: usize, how: &str) -> RevocationRegistryDelta {
        let same = |x: Option<&RevocationRegistry>, y| delta_parts(x, y, &HashSet::new(), &HashSet::new());
        let d = match how {
            "left" => {
                let mut d = same(Some(&self.regs[a]), &self.regs[a]);
                for x in &self.deltas[a..b] {
                    delta_merge(&mut d, x).unwrap();
                }
                d
            }
            "first" => {
                let mut d = same(None, &self.regs[0]);
                for x in &self.deltas[..b] {
                    delta_merge(&mut d, x).unwrap();
                }
                d
            }
            "right" => {
                let mut d = same(Some(&self.regs[b]), &self.regs[b]);
                for x in self.deltas[a..b].iter().rev() {
                    let mut y = x.clone();
                    delta_merge(&mut y, &d).unwrap();
                    d = y;
                }
                d
            }
            "direct" => {
                let set = |r: &RevocationRegistry| -> HashSet<u32> { self.fix().live(&acc_of(r)).bytes().map(|c| (c - b'0') as u32).collect() };
                let (x, y) = (set(&self.regs[a]), set(&self.regs[b]));
                delta_parts(Some(&self.regs[a]), &self.regs[b], &y.difference(&x).cloned().collect(), &x.difference(&y).cloned().collect())
            }
            _ => harness!("how {}", how),
        };
        de(&serde_json::to_value(&d).unwrap())
    }
}
impl Sys for Reg {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let x = self.fix();
        let k = &env().keys[x.key];
        let tails = Flaky { t: &x.tails, at: c.get("fail").map(int).unwrap_or(0), n: Default::default() };
        let i = || int(&c["i"]) as u32;
        let changed = |me: &mut Reg, r: ursa::errors::UrsaCryptoResult<Option<RevocationRegistryDelta>>| -> Value {
            let live = x.live(&acc_of(&me.reg));
            match r {
                Err(_) => json!(format!("err:{}", live)),
                Ok(None) => json!(format!("ok:{}", live)),
                Ok(Some(d)) => {
                    let s = x.delta(&d);
                    // the delta carries the registry forward, too
                    if x.live(&acc_of(&RevocationRegistry::from(d.clone()))) != live {
                        return json!("delta and registry differ");
                    }
                    me.regs.push(me.reg.clone());
                    me.deltas.push(d);
                    json!(format!("ok:{}|{}", live, s))
                }
            }
        };
        match st(&c["op"]) {
            "start" => {
                *self = Reg::new(self.f, us(&c["me"]) as u32);
                json!("")
            }
            "issue" => {
                let v = values(&json!({"ms": 1, "at": {"age": 20, "height": 170, "name": 5}}));
                let (n1, n2) = (&env().nonces[0], &env().nonces[1]);
                static B: OnceLock<Vec<(BlindedCredentialSecrets, BlindedCredentialSecretsCorrectnessProof)>> = OnceLock::new();
                let b = &B.get_or_init(|| (0..2).map(|j| { let k = &env().keys[j]; let (b, _, p) = Prover::blind_credential_secrets(&k.pk, &k.kcp, &v, n1).unwrap(); (b, p) }).collect())[x.key];
                let r = Issuer::sign_credential_with_revoc("did", &b.0, &b.1, n1, n2, &v, &k.pk, &k.sk, i(), x.max, x.by_default, &mut self.reg, &x.rks, &tails);
                let r = match r {
                    Ok((s, _, _)) if s.extract_index() != Some(i()) => return json!("another index"),
                    r => r.map(|t| t.2),
                };
                changed(self, r)
            }
            "revoke" => {
                let r = Issuer::revoke_credential(&mut self.reg, x.max, i(), &tails).map(Some);
                changed(self, r)
            }
            "recover" => {
                let r = Issuer::recovery_credential(&mut self.reg, x.max, i(), &tails).map(Some);
                changed(self, r)
            }
            "update" => {
                let set = |v: &Value| -> BTreeSet<u32> { arr(v).iter().map(|y| us(y) as u32).collect() };
                let r = Issuer::update_revocation_registry(&mut self.reg, x.max, set(&c["iss"]), set(&c["rev"]), &tails).map(Some);
                changed(self, r)
            }
            "delta" => json!(x.delta(&self.delta(us(&c["a"]), us(&c["b"]), st(&c["how"])))),
            "merge" => {
                let mut d = self.delta(us(&c["a"]), us(&c["b"]), "left");
                let r = delta_merge(&mut d, &self.delta(us(&c["c"]), us(&c["d"]), "left"));
                json!(format!("{}:{}", if r.is_ok() { "ok" } else { "err" }, x.delta(&d)))
            }
            "witness" => {
                let d = self.delta(0, us(&c["b"]), st(&c["how"]));
                match witness_new(i(), x.max, x.by_default, &d, &tails) {
                    Err(_) => json!("err"),
                    Ok(w) => {
                        let s = x.wit(i(), &w);
                        if i() == self.me {
                            self.w = Some(w);
                        }
                        json!(format!("w:{}", s))
                    }
                }
            }
            "wupdate" => {
                let d = self.delta(us(&c["a"]), us(&c["b"]), st(&c["how"]));
                let mut w = self.w.clone().unwrap_or_else(|| harness!("no witness"));
                let r = witness_update(&mut w, i(), x.max, &d, &tails);
                let s = x.wit(self.me, &w);
                match r {
                    Err(_) => json!(format!("err:{}", s)),
                    Ok(()) => {
                        self.w = Some(w);
                        json!(format!("w:{}", s))
                    }
                }
            }
            "store" => {
                let cr = x.cred(self.me);
                let mut sig = cr.raw.try_clone().unwrap();
                let r = Prover::process_credential_signature(&mut sig, &cr.values, &cr.scp, &cr.f, &k.pk, &cr.n2, Some(&x.rkp), Some(&self.regs[us(&c["b"])]), self.w.as_ref());
                json!(if r.is_ok() { "ok" } else { "err" })
            }
            "present" => {
                let (p, v) = (&c["p"], &c["v"]);
                let idx = us(&p["i"]) as u32;
                let cr = x.cred(idx);
                let mut sig = cr.sig.try_clone().unwrap();
                if p["mix"] == "yes" {
                    // the revocation part of idx with the primary part of another credential
                    let o = serde_json::to_value(&x.cred(idx % x.max + 1).sig).unwrap();
                    let mut t = serde_json::to_value(&cr.sig).unwrap();
                    t["p_credential"] = o["p_credential"].clone();
                    sig = de(&t);
                }
                let values = if p["mix"] == "yes" { &x.cred(idx % x.max + 1).values.try_clone().unwrap() } else { &cr.values };
                if p["prove"] == true && self.w.is_none() {
                    return json!("no");
                }
                let rq = request(&json!({"rev":["name"],"preds":[{"a":"age","t":"GE","v":18}]})).unwrap();
                let mut b = Prover::new_proof_builder().unwrap();
                b.add_common_attribute("master_secret").unwrap();
                let (reg, w) = if p["prove"] == true { (Some(&self.regs[us(&p["a"])]), self.w.as_ref()) } else { (None, None) };
                if b.add_sub_proof_request(&rq, &schema(&k.attrs), &nonschema(), &sig, values, &k.pk, reg, w).is_err() {
                    return json!("no");
                }
                let n = &env().nonces[0];
                let proof = match b.finalize(n) {
                    Err(_) => return json!("no"),
                    Ok(p) => p,
                };
                if std::env::var("VH_SHOW").is_ok() { eprintln!("{}", serde_json::to_string_pretty(&proof).unwrap()); }
                let proof: Proof = de(&serde_json::to_value(&proof).unwrap());
                let other = regs().iter().find(|r| r.key == x.key && r.max == x.max && r.by_default != x.by_default).unwrap();
                let (rkp, reg) = match st(&v["reg"]) {
                    "same" => (Some(&x.rkp), Some(&self.regs[us(&v["b"])])),
                    "other" => (Some(&other.rkp), Some(&other.reg0)),
                    "otherkey" => (Some(&other.rkp), Some(&self.regs[us(&v["b"])])),
                    _ => (None, None),
                };
                let pk = if v["key"] == "same" { &k.pk } else { &env().keys[1 - x.key].pk };
                let mut ver = Verifier::new_proof_verifier().unwrap();
                ver.add_common_attribute("master_secret").unwrap();
                if ver.add_sub_proof_request(&rq, &schema(&k.attrs), &nonschema(), pk, rkp, reg).is_err() {
                    return json!("no");
                }
                json!(verdict(ver.verify(&proof, n)))
            }
            _ => harness!("op {}", c),
        }
    }
}
/// Long random histories of one registry.
fn record_reg(a: &Args, f: usize) {
    use rand::Rng;
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let max = regs()[f].max as usize;
    while rec.n < a.n {
        let me = g.gen_range(1, max + 1);
        let mut s = Reg::new(f, me as u32);
        rec.call(&mut s, json!({"op":"start","me":me}));
        let mut live: Vec<BTreeSet<usize>> = vec![if regs()[f].by_default { (1..=max).collect() } else { BTreeSet::new() }];
        let mut wv: Option<usize> = None; // the version of the witness
        for _ in 0..40 {
            let cur = live.last().unwrap().clone();
            let b = live.len() - 1;
            let some = |g: &mut rand::rngs::StdRng, x: &BTreeSet<usize>| -> BTreeSet<usize> { x.iter().filter(|_| g.gen_range(0, 3) == 0).cloned().collect() };
            match g.gen_range(0, 10) {
                0 | 1 => {
                    let i = g.gen_range(1, max + 1);
                    let (op, next) = if cur.contains(&i) {
                        let mut n = cur.clone();
                        n.remove(&i);
                        ("revoke", n)
                    } else {
                        let mut n = cur.clone();
                        n.insert(i);
                        (if g.gen_range(0, 2) == 0 && !regs()[f].by_default { "issue" } else { "recover" }, n)
                    };
                    rec.call(&mut s, json!({"op":op,"i":i,"fail":0}));
                    live.push(next);
                }
                2 | 3 => {
                    let dead: BTreeSet<usize> = (1..=max).filter(|i| !cur.contains(i)).collect();
                    let (iss, rev) = (some(&mut g, &dead), some(&mut g, &cur));
                    let n = iss.len() + rev.len();
                    let fail = g.gen_range(0, 4);
                    rec.call(&mut s, json!({"op":"update","iss":iss,"rev":rev,"fail":fail}));
                    if fail == 0 || fail > n {
                        live.push(cur.difference(&rev).cloned().chain(iss).collect());
                    }
                }
                4 => {
                    let how = ["left", "right", "first"][g.gen_range(0, 3)];
                    rec.call(&mut s, json!({"op":"witness","i":me,"b":b,"how":how,"fail":0}));
                    wv = Some(b);
                }
                5 | 6 => {
                    if let Some(a) = wv {
                        let to = g.gen_range(a, b + 1);
                        let how = ["left", "right", "direct"][g.gen_range(0, 3)];
                        rec.call(&mut s, json!({"op":"wupdate","i":me,"a":a,"b":to,"how":how,"fail":0}));
                        wv = Some(to);
                    }
                }
                7 => {
                    let a = g.gen_range(0, b + 1);
                    let how = ["left", "right", "direct"][g.gen_range(0, 3)];
                    rec.call(&mut s, json!({"op":"delta","a":a,"b":b,"how":how}));
                }
                8 => {
                    if wv.is_some() {
                        rec.call(&mut s, json!({"op":"store","b":b}));
                    }
                }
                _ => {
                    let v = wv.filter(|_| g.gen_range(0, 2) == 0).unwrap_or(b);
                    rec.call(&mut s, json!({"op":"present","p":{"i":me,"a":v,"prove":true,"mix":"no"},"v":{"reg":"same","key":"same","b":v}}));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- tampering (C07, C08)
/// A request with two presentations which satisfy it.
struct Base {
    json: [Value; 2],
    subs: Vec<(usize, Value, bool)>, // key, request, with revocation
    common: Vec<&'static str>,
    nonce: Nonce,
}
fn base_defs(b: &str) -> (Vec<(usize, Value, Value, bool)>, Vec<&'static str>) {
    let c1 = json!({"k":1,"ms":1,"at":{"age":28,"height":175,"name":5}});
    let c3 = json!({"k":3,"ms":1,"at":{"age":51,"status":7}});
    match b {
        "B1" => (vec![(0, c1, json!({"rev":["name"],"preds":[{"a":"age","t":"GE","v":18},{"a":"height","t":"LE","v":200}]}), false)], vec![]),
        "B2" => (
            vec![(0, c1, json!({"rev":[],"preds":[{"a":"height","t":"GE","v":150}]}), false), (2, c3, json!({"rev":["age"],"preds":[]}), false)],
            vec!["master_secret"],
        ),
        "B3" => (vec![(0, Value::Null, json!({"rev":["name"],"preds":[{"a":"age","t":"GE","v":18}]}), true)], vec![]),
        // the same key, two credentials
        "B4" => (
            vec![(0, c1, json!({"rev":["name"],"preds":[]}), false), (0, json!({"k":1,"ms":2,"at":{"age":40,"height":160,"name":5}}), json!({"rev":["name"],"preds":[]}), false)],
            vec!["name0"],
        ),
        _ => harness!("base {}", b),
    }
}
impl Base {
    fn new(b: &str) -> Base {
        let (subs, common) = base_defs(b);
        let nonce = j(new_nonce().unwrap());
        let mk = || {
            let mut pb = Prover::new_proof_builder().unwrap();
            for a in &common {
                pb.add_common_attribute(a).unwrap();
            }
            for (k, c, rq, rev) in &subs {
                let key = &env().keys[*k];
                let rq = request(rq).unwrap();
                if *rev {
                    let x = &regs()[0];
                    let cr = x.cred(1);
                    let d = delta_parts(None, &x.reg0, &HashSet::new(), &HashSet::new());
                    let w = witness_new(1, x.max, x.by_default, &d, &x.tails).unwrap();
                    pb.add_sub_proof_request(&rq, &schema(&key.attrs), &nonschema(), &cr.sig, &cr.values, &key.pk, Some(&x.reg0), Some(&w)).unwrap();
                } else {
                    let c = cred(c);
                    pb.add_sub_proof_request(&rq, &schema(&key.attrs), &nonschema(), &c.sig, &c.values, &key.pk, None, None).unwrap();
                }
            }
            serde_json::to_value(&j(pb.finalize(&nonce).unwrap())).unwrap()
        };
        Base { json: [mk(), mk()], subs: subs.into_iter().map(|(k, _, r, v)| (k, r, v)).collect(), common, nonce }
    }
    fn verifier(&self) -> ProofVerifier {
        let mut v = Verifier::new_proof_verifier().unwrap();
        for a in &self.common {
            v.add_common_attribute(a).unwrap();
        }
        for (k, rq, rev) in &self.subs {
            let key = &env().keys[*k];
            let x = &regs()[0];
            let (rkp, reg) = if *rev { (Some(&x.rkp), Some(&x.reg0)) } else { (None, None) };
            v.add_sub_proof_request(&request(rq).unwrap(), &schema(&key.attrs), &nonschema(), &key.pk, rkp, reg).unwrap();
        }
        v
    }
    fn verify(&self, p: Value) -> &'static str {
        match serde_json::from_value::<Proof>(p) {
            Err(_) => "no",
            Ok(p) => verdict(self.verifier().verify(&p, &self.nonce)),
        }
    }
}
fn base(b: &str) -> Arc<Base> {
    static B: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Arc<Base>>>>>> = OnceLock::new();
    let m = B.get_or_init(Default::default).lock().unwrap().entry(b.to_string()).or_default().clone();
    m.get_or_init(|| Arc::new(Base::new(b))).clone()
}
fn split(p: &str) -> (&str, &str) {
    let i = p.rfind('/').unwrap();
    (&p[..i], &p[i + 1..])
}
fn at<'a>(p: &'a mut Value, s: &str) -> &'a mut Value {
    p.pointer_mut(s).unwrap_or_else(|| harness!("no {}", s))
}
fn set(p: &mut Value, s: &str, v: Value) {
    *at(p, s) = v
}
fn is_point(s: &str) -> bool {
    s.contains("/non_revoc_proof/c_list/")
}
fn edit(b: &Base, p: &mut Value, e: &Value) {
    let s = st(&e["s"]);
    let one = || num("1");
    let step = |p: &mut Value, up: bool| {
        let x = at(p, s).clone();
        let y = match &x {
            Value::Number(n) => json!(n.as_i64().unwrap() + if up { 1 } else { -1 }),
            Value::Array(a) => {
                let mut a = a.clone();
                let l = a.len() - 1;
                a[l] = json!((us(&a[l]) + if up { 1 } else { 255 }) % 256);
                Value::Array(a)
            }
            Value::String(_) if is_point(s) => {
                if "edag".contains(split(s).1) {
                    let z: ursa::pair::PointG1 = de(&x);
                    json!(z.add(&z).unwrap())
                } else {
                    let z: ursa::pair::PointG2 = de(&x);
                    json!(z.add(&z).unwrap())
                }
            }
            Value::String(t) if s.contains("/x_list/") => {
                let n = ursa::bn::BigNumber::from_hex(t).unwrap();
                let n = if up { n.add(&one()) } else { n.sub(&one()) }.unwrap();
                json!(format!("{:0>64}", n.to_hex().unwrap().trim_start_matches('0')))
            }
            Value::String(t) => {
                let n = num(t);
                json!(if up { n.add(&one()) } else { n.sub(&one()) }.unwrap().to_dec().unwrap())
            }
            _ => harness!("inc {}", e),
        };
        set(p, s, y);
    };
    match st(&e["how"]) {
        "inc" => step(p, true),
        "dec" => step(p, false),
        "neg" => {
            let x = at(p, s).clone();
            let y = if is_point(s) {
                if "edag".contains(split(s).1) { json!(de::<ursa::pair::PointG1>(&x).neg().unwrap()) } else { json!(de::<ursa::pair::PointG2>(&x).neg().unwrap()) }
            } else {
                let t = st(&x);
                json!(if t.starts_with('-') { t[1..].to_string() } else { format!("-{}", t) })
            };
            set(p, s, y)
        }
        "zero" => {
            let y = match at(p, s) {
                Value::Array(a) => json!(vec![0; a.len()]),
                _ if is_point(s) => if "edag".contains(split(s).1) { json!(ursa::pair::PointG1::new_inf().unwrap()) } else { json!(ursa::pair::PointG2::new_inf().unwrap()) },
                Value::String(t) if s.contains("/x_list/") => json!("0".repeat(t.len())),
                _ => json!("0"),
            };
            set(p, s, y)
        }
        "word" => set(p, s, json!("surely not a number")),
        "empty" => { let y = if at(p, s).is_array() { json!([]) } else { json!("") }; set(p, s, y) }
        "type" => { let y = if at(p, s).is_number() { json!("5") } else { json!(5) }; set(p, s, y) }
        "null" | "nullify" => set(p, s, Value::Null),
        "huge" => { let y = if at(p, s).is_number() { json!(5000000018i64) } else { json!("7".repeat(3000)) }; set(p, s, y) }
        "plusn" => {
            let i: usize = s.split('/').nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            let n = num(st(&serde_json::to_value(&env().keys[b.subs[i].0].pk).unwrap()["p_key"]["n"]));
            let y = num(st(at(p, s))).add(&n).unwrap().to_dec().unwrap();
            set(p, s, json!(y))
        }
        "long" | "short" => {
            let long = e["how"] == "long";
            let y = match at(p, s) {
                Value::Array(a) => {
                    if long { a.push(json!(0)) } else { a.pop(); }
                    json!(a)
                }
                Value::String(t) if is_point(s) => json!(if long { format!("{} 1", t) } else { t[..t.rfind(' ').unwrap()].to_string() }),
                Value::String(t) => json!(if long { format!("{}7", t) } else { t[..t.len() - 1].to_string() }),
                x => harness!("long {}", x),
            };
            set(p, s, y)
        }
        "del" | "remove" => match at(p, split(s).0) {
            Value::Object(o) => { o.remove(split(s).1); }
            Value::Array(a) => { a.remove(split(s).1.parse().unwrap()); }
            _ => harness!("del {}", e),
        },
        "repeat" => {
            let a = at(p, split(s).0).as_array_mut().unwrap();
            let i: usize = split(s).1.parse().unwrap();
            let x = a[i].clone();
            a.insert(i, x)
        }
        "clear" => { let y = if at(p, s).is_array() { json!([]) } else { json!({}) }; set(p, s, y) }
        "push" => match at(p, s) {
            Value::Array(a) => a.push(a.last().unwrap().clone()),
            Value::Object(o) => { o.insert("height".into(), json!("175")); }
            _ => harness!("push {}", e),
        },
        "extra" => match at(p, s) {
            Value::Object(o) => { o.insert("9".into(), json!("12345")); }
            _ => harness!("extra {}", e),
        },
        "copy" => { let y = at(p, st(&e["o"])).clone(); set(p, s, y) }
        "swap" | "exchange" => {
            let (x, y) = (at(p, s).clone(), at(p, st(&e["o"])).clone());
            set(p, s, y);
            set(p, st(&e["o"]), x)
        }
        "other" => { let y = b.json[1].pointer(s).unwrap().clone(); set(p, s, y) }
        h => harness!("how {}", h),
    }
}
/// How many values a presentation has; the bytes of one hashed element count once.
fn leaves(v: &Value) -> usize {
    match v {
        Value::Null => 0,
        Value::Array(a) if a.iter().all(|x| x.is_number()) && !a.is_empty() => 1,
        Value::Array(a) => a.iter().map(leaves).sum(),
        Value::Object(o) => o.values().map(leaves).sum(),
        _ => 1,
    }
}
/// The same values, in a normal form: numbers without leading zeros, digits in upper case.
fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), canon(x))).collect()),
        Value::String(s) => {
            let mut t: Vec<String> = s.split_whitespace().map(|x| x.trim_start_matches('0').to_uppercase()).collect();
            if t.len() > 1 {
                t.iter_mut().step_by(2).for_each(|x| x.clear()) // the excess says how the library holds the number
            }
            json!(t.join(" "))
        }
        x => x.clone(),
    }
}
#[derive(Clone)]
struct Tamper;
impl Sys for Tamper {
    fn fork(&self) -> Self {
        Tamper
    }
    fn step(&mut self, c: &Value) -> Value {
        let b = base(st(&c["b"]));
        let mut p = b.json[0].clone();
        match st(&c["op"]) {
            "tamper" => {
                for e in arr(&c["edits"]) {
                    edit(&b, &mut p, e)
                }
                json!(b.verify(p))
            }
            "census" => json!(leaves(&p).to_string()),
            "garble" => match serde_json::from_str::<Proof>(st(&c["text"])) {
                Err(_) => json!("no"),
                Ok(p) => json!(verdict(b.verifier().verify(&p, &b.nonce))),
            },
            _ => harness!("op {}", c),
        }
    }
}
fn record_tamper(a: &Args) {
    use rand::Rng;
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    for b in &["B1", "B2", "B3"] {
        rec.call(&mut Tamper, json!({"op":"census","b":b}));
    }
    let chars: Vec<u8> = b"0123456789ABCDEF-\",:{}[] nul".to_vec();
    let mut todo = vec![];
    while todo.len() < a.n {
        let name = ["B1", "B2", "B3"][g.gen_range(0, 3)];
        let b = base(name);
        let mut t = b.json[0].to_string().into_bytes();
        let what = g.gen_range(0, 6);
        let i = g.gen_range(0, t.len());
        match what {
            0 => t.truncate(i),
            1 => { t.remove(i); }
            2 => t.insert(i, chars[g.gen_range(0, chars.len())]),
            3 => t[i] = g.gen_range(1, 127),
            _ => t[i] = chars[g.gen_range(0, chars.len())],
        }
        let text = String::from_utf8(t).unwrap();
        let same = match serde_json::from_str::<Value>(&text) {
            Err(_) => false,
            // also where the change only hits what reading leaves out, like the name of an absent part
            Ok(v) => canon(&v) == canon(&b.json[0])
                || serde_json::from_str::<Proof>(&text).map_or(false, |p| canon(&serde_json::to_value(&p).unwrap()) == canon(&b.json[0])),
        };
        todo.push((name, what, i, text, same));
    }
    use rayon::prelude::*;
    let res: Vec<Value> = todo.par_iter().map(|(name, _, _, text, _)| guard(|| Tamper.step(&json!({"op":"garble","b":name,"text":text})))).collect();
    for ((name, what, i, text, same), r) in todo.into_iter().zip(res) {
        let near = text[i.saturating_sub(40).min(text.len())..(i + 40).min(text.len())].to_string();
        rec.ev(json!({"op":"garble","b":name,"same":same,"at":i,"what":what,"text":if r == "no" { String::new() } else { near }}), r);
    }
}

/// C08: one verifier object. The log says how it came to be; a fork repeats it.
#[derive(Clone)]
struct Hist {
    cfg: Value,
    log: Vec<Value>,
}
fn presentation(p: &Value, id: &Value, how: &str) -> Option<Value> {
    static C: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Option<Value>>>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default).lock().unwrap().entry(format!("{}{}", id, p)).or_default().clone();
    let mut j = m.get_or_init(|| build(p).map(|p| serde_json::to_value(&p).unwrap())).clone()?;
    let last = arr(&j["proofs"]).len() - 1;
    let inc = |j: &mut Value, s: &str| {
        let y = num(st(at(j, s))).add(&num("1")).unwrap().to_dec().unwrap();
        set(j, s, json!(y))
    };
    match how {
        "none" => (),
        "e" => inc(&mut j, "/proofs/0/primary_proof/eq_proof/v"),
        "m" => inc(&mut j, &format!("/proofs/{}/primary_proof/eq_proof/m/master_secret", last)),
        "hash" => inc(&mut j, "/aggregated_proof/c_hash"),
        "drop" => {
            j["proofs"].as_array_mut().unwrap().pop();
        }
        _ => harness!("edit {}", how),
    }
    Some(j)
}
fn hist_step(v: &mut ProofVerifier, c: &Value) -> Value {
    match st(&c["op"]) {
        "addsub" => json!(if add_sub(v, &c["s"]) { "ok" } else { "err" }),
        "addcommon" => json!(if v.add_common_attribute(st(&c["a"])).is_ok() { "ok" } else { "err" }),
        "verify" => match presentation(&c["p"], &c["id"], st(&c["edit"])).map(serde_json::from_value::<Proof>) {
            Some(Ok(p)) => json!(verdict(v.verify(&p, env().nonce(&c["nonce"])))),
            _ => json!("no"),
        },
        _ => harness!("op {}", c),
    }
}
impl Sys for Hist {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        let mut v = verifier(&self.cfg).unwrap();
        for x in &self.log {
            guard(|| hist_step(&mut v, x));
        }
        self.log.push(c.clone());
        hist_step(&mut v, c)
    }
}
fn record_hist(a: &Args) {
    use rand::Rng;
    let mut g = rng(a.seed);
    let mut rec = Recorder::new(&a.out);
    let q = json!([{"a":"age","t":"GE","v":18}]);
    let s3 = json!(["age", "height", "name"]);
    let s2 = json!(["age", "status"]);
    while rec.n < a.n {
        rec.ev(json!({"op":"new"}), json!("ok"));
        let mut v = Verifier::new_proof_verifier().unwrap();
        let rand_sub = |g: &mut rand::rngs::StdRng| -> (Value, Value) {
            let ms = g.gen_range(1, 3);
            let w = match g.gen_range(0, 4) {
                0 => json!({"key":1,"schema":s3,"rev":["name"],"preds":q}),
                1 => json!({"key":2,"schema":s3,"rev":[],"preds":[]}),
                2 => json!({"key":1,"schema":s3,"rev":["name"],"preds":q,"reg":1}),
                _ => json!({"key":3,"schema":s2,"rev":["status"],"preds":[]}),
            };
            let mut s = w.clone();
            let k = int(&w["key"]);
            s["cred"] = if w.get("reg").is_some() { json!({"k":1,"ms":ms,"at":{"age":21,"height":170,"name":5}}) }
                else if k == 3 { json!({"k":3,"ms":ms,"at":{"age":28,"status":7}}) }
                else { json!({"k":k,"ms":ms,"at":{"age":28,"height":170+k,"name":5}}) };
            (w, s)
        };
        let n = g.gen_range(1, 4);
        let subs: Vec<(Value, Value)> = (0..n).map(|_| rand_sub(&mut g)).collect();
        for (w, _) in &subs {
            let c = json!({"op":"addsub","s":w});
            let r = guard(|| hist_step(&mut v, &c));
            rec.ev(c, r);
        }
        let mut common: Vec<&str> = vec![];
        for _ in 0..8 {
            if g.gen_range(0, 6) == 0 && common.len() < 2 {
                let x = ["master_secret", "age"][common.len()];
                common.push(x);
                let c = json!({"op":"addcommon","a":x});
                let r = guard(|| hist_step(&mut v, &c));
                rec.ev(c, r);
            }
            let mut ss: Vec<Value> = subs.iter().map(|(_, s)| s.clone()).collect();
            let eq = g.gen_range(0, 3) > 0;
            for s in ss.iter_mut() {
                s["cred"]["ms"] = json!(if eq { 1 } else { g.gen_range(1, 3) });
            }
            if g.gen_range(0, 6) == 0 {
                ss.pop();
            }
            if ss.is_empty() {
                continue;
            }
            // the holder can tie attributes which are the same
            let com: Vec<&str> = common.iter().filter(|_| g.gen_range(0, 6) > 0).cloned().collect();
            let edit = if g.gen_range(0, 3) == 0 { ["e", "m", "hash"][g.gen_range(0, 3)] } else { "none" };
            let c = json!({"op":"verify","id":g.gen_range(0, 5),"p":{"subs":ss,"common":com,"nonce":1},"edit":edit,"nonce":if g.gen_range(0, 6) == 0 { 2 } else { 1 }});
            let r = guard(|| hist_step(&mut v, &c));
            rec.ev(c, r);
        }
    }
}

// ---------------------------------------------------------------- issuance (C01)
/// What a run produces on the holder's side, and its nonces.
struct RunObj {
    values: CredentialValues,
    n1: Nonce,
    n2: Nonce,
    b: Value,
    p: Value,
    f: Value,
}
fn run_defs(i: usize) -> (usize, Value, Value, Value) {
    let a28 = json!({"age":28,"height":175,"name":5});
    match i {
        1 | 2 => (0, json!({"master_secret":1}), a28, json!({})),
        3 => (0, json!({"master_secret":2}), a28, json!({})),
        4 => (1, json!({"master_secret":1}), a28, json!({})),
        5 => (0, json!({"master_secret":1}), json!({"age":38,"height":175,"name":5}), json!({})),
        6 => (2, json!({"master_secret":1}), json!({"age":28,"status":7}), json!({})),
        7 => (0, json!({"master_secret":1,"age":10}), json!({"height":175,"name":5}), json!({})),
        8 => (0, json!({"master_secret":1}), json!({"height":175,"name":5}), json!({"age":28})),
        _ => harness!("run {}", i),
    }
}
fn hidden_of(a: &str, v: &Value) -> String {
    if a == "master_secret" { secret(int(v)) } else { int(v).to_string() }
}
fn run_values(i: usize) -> CredentialValues {
    let (_, hid, known, com) = run_defs(i);
    let mut b = Issuer::new_credential_values_builder().unwrap();
    for (a, v) in hid.as_object().unwrap() {
        b.add_dec_hidden(a, &hidden_of(a, v)).unwrap();
    }
    for (a, v) in known.as_object().unwrap() {
        b.add_dec_known(a, &int(v).to_string()).unwrap();
    }
    for (a, v) in com.as_object().unwrap() {
        b.add_dec_commitment(a, &int(v).to_string(), "271828182845904523536").unwrap();
    }
    b.finalize().unwrap()
}
fn run_obj(i: usize) -> Arc<RunObj> {
    static B: OnceLock<Mutex<HashMap<usize, Arc<OnceLock<Arc<RunObj>>>>>> = OnceLock::new();
    let m = B.get_or_init(Default::default).lock().unwrap().entry(i).or_default().clone();
    m.get_or_init(|| {
        let k = &env().keys[run_defs(i).0];
        let values = run_values(i);
        let (n1, n2) = (j(new_nonce().unwrap()), j(new_nonce().unwrap()));
        let (b, f, p) = Prover::blind_credential_secrets(&k.pk, &k.kcp, &values, &n1).unwrap();
        Arc::new(RunObj { values, n1, n2, b: json!(b), p: json!(p), f: json!(f) })
    })
    .clone()
}
fn dec_inc(p: &mut Value, s: &str) {
    let y = num(st(at(p, s))).add(&num("1")).unwrap().to_dec().unwrap();
    set(p, s, json!(y))
}
fn el_inc(p: &mut Value, s: &str) {
    let x = at(p, s).clone();
    let y = if let Ok(z) = serde_json::from_value::<ursa::pair::PointG2>(x.clone()) {
        json!(z.add(&z).unwrap())
    } else if let Ok(z) = serde_json::from_value::<ursa::pair::PointG1>(x.clone()) {
        json!(z.add(&z).unwrap())
    } else {
        let z: ursa::pair::GroupOrderElement = de(&x);
        json!(z.add_mod(&z).unwrap())
    };
    set(p, s, y)
}
fn key_name(o: &Value, k: &str) -> String {
    o[k].as_object().unwrap().keys().next().unwrap_or_else(|| harness!("nothing in {}", k)).clone()
}
type Signed = (CredentialSignature, SignatureCorrectnessProof);
/// The issuer's answer to a sign call.
fn sign(c: &Value, idx: u32) -> Option<Signed> {
    let (rb, rp, rn, rv, ru, r2) = (run_obj(us(&c["b"])), run_obj(us(&c["p"])), run_obj(us(&c["n"])), us(&c["v"]), run_obj(us(&c["ur"])), run_obj(us(&c["n2"])));
    let k = env().key(&c["k"]);
    let (mut b, mut p) = (rb.b.clone(), rp.p.clone());
    b["ur"] = ru.b["ur"].clone();
    match st(&c["edit"]) {
        "none" => (),
        "ur" => el_inc(&mut b, "/ur"),
        "b/u" => dec_inc(&mut b, "/u"),
        "b/hidden+" => b["hidden_attributes"].as_array_mut().unwrap().push(json!(if c["k"] == 3 { "status" } else { "height" })),
        "b/hidden-" => { b["hidden_attributes"].as_array_mut().unwrap().pop(); }
        "p/c" => dec_inc(&mut p, "/c"),
        "p/v_dash_cap" => dec_inc(&mut p, "/v_dash_cap"),
        e => {
            let (o, f) = if e.starts_with("b/") { (&mut b, "committed_attributes") } else if e.starts_with("p/m") { (&mut p, "m_caps") } else { (&mut p, "r_caps") };
            let a = key_name(o, f);
            if e.ends_with("inc") { dec_inc(o, &format!("/{}/{}", f, a)) } else { o[f].as_object_mut().unwrap().remove(&a); }
        }
    }
    // the issuer has only the values it knows
    let mut vb = Issuer::new_credential_values_builder().unwrap();
    for (a, v) in run_defs(rv).2.as_object().unwrap() {
        vb.add_dec_known(a, &int(v).to_string()).unwrap();
    }
    let values = vb.finalize().unwrap();
    let (b, p) = (serde_json::from_value(b).ok()?, serde_json::from_value(p).ok()?);
    if idx == 0 {
        Issuer::sign_credential("did", &b, &p, &rn.n1, &r2.n2, &values, &k.pk, &k.sk).ok()
    } else {
        let x = rev_fix(&c["k"]);
        let mut r = x.reg0.clone();
        Issuer::sign_credential_with_revoc("did", &b, &p, &rn.n1, &r2.n2, &values, &k.pk, &k.sk, idx, x.max, x.by_default, &mut r, &x.rks, &x.tails).ok().map(|t| (t.0, t.1))
    }
}
fn rev_fix(k: &Value) -> &'static RegFix {
    if int(k) == 2 { &regs()[2] } else { &regs()[0] }
}
fn witness_of(x: &RegFix, i: u32) -> Witness {
    let d = delta_parts(None, &x.reg0, &HashSet::new(), &HashSet::new());
    witness_new(i, x.max, x.by_default, &d, &x.tails).unwrap()
}
#[derive(Clone, Default)]
struct Issue {
    c: Option<Value>,
    sig: Value,
    scp: Value,
}
impl Sys for Issue {
    fn fork(&self) -> Self {
        self.clone()
    }
    fn step(&mut self, c: &Value) -> Value {
        match st(&c["op"]) {
            "start" => {
                *self = Issue::default();
                json!("ok")
            }
            "blind" => {
                let k = env().key(&c["k"]);
                let mut kcp = json!(env().key(&c["kcp"]).kcp);
                let mut pk = json!(k.pk);
                let first = |v: &Value| v["xr_cap"].as_array().unwrap()[0].clone();
                match st(&c["edit"]) {
                    "none" => (),
                    "c" => dec_inc(&mut kcp, "/c"),
                    "xz_cap" => dec_inc(&mut kcp, "/xz_cap"),
                    "xr_cap/inc" => dec_inc(&mut kcp, "/xr_cap/0/1"),
                    "xr_cap/del" => { kcp["xr_cap"].as_array_mut().unwrap().remove(0); }
                    "xr_cap/name" => set(&mut kcp, "/xr_cap/0/0", json!("nobody")),
                    "xr_cap/twice" => { let x = first(&kcp); kcp["xr_cap"].as_array_mut().unwrap().push(x) }
                    "pk/n" => dec_inc(&mut pk, "/p_key/n"),
                    "pk/s" => dec_inc(&mut pk, "/p_key/s"),
                    "pk/z" => dec_inc(&mut pk, "/p_key/z"),
                    "pk/r" => dec_inc(&mut pk, "/p_key/r/age"),
                    e => harness!("edit {}", e),
                }
                let r = Prover::blind_credential_secrets(&de(&pk), &de(&kcp), &run_values(us(&c["run"])), &env().nonces[0]);
                json!(if r.is_ok() { "ok" } else { "err" })
            }
            "sign" => match sign(c, us(&c["idx"]) as u32) {
                None => json!("err"),
                Some((sig, scp)) => {
                    self.sig = json!(sig);
                    self.scp = json!(scp);
                    self.c = Some(c.clone());
                    json!("ok")
                }
            },
            "process" => {
                let sc = self.c.clone().unwrap_or_else(|| harness!("nothing signed"));
                let idx = us(&sc["idx"]) as u32;
                let k = env().key(&c["k"]);
                let mut o = json!({"s": self.sig, "scp": if c["scp"] == "own" { self.scp.clone() } else { json!(sign(&sc, idx).unwrap().1) }, "f": run_obj(us(&c["f"])).f});
                let mut widx = idx;
                if c["mix"] == "r" {
                    widx = idx % 3 + 1;
                    o["s"]["r_credential"] = json!(sign(&sc, widx).unwrap().0)["r_credential"].clone();
                }
                match st(&c["edit"]) {
                    "none" => (),
                    "f/vr_prime" => el_inc(&mut o, "/f/vr_prime"),
                    "f/v_prime" => dec_inc(&mut o, "/f/v_prime"),
                    e if e.starts_with("s/") => dec_inc(&mut o, &format!("/s/p_credential/{}", &e[2..])),
                    e if e.starts_with("scp/") => dec_inc(&mut o, &format!("/{}", e)),
                    e if e.starts_with("r/w/") => el_inc(&mut o, &format!("/s/r_credential/witness_signature/{}", &e[4..])),
                    e => el_inc(&mut o, &format!("/s/r_credential/{}", &e[2..])),
                }
                let mut sig: CredentialSignature = match serde_json::from_value(o["s"].clone()) {
                    Ok(s) => s,
                    Err(_) => return json!("err"),
                };
                let before = json!(sig);
                let x = rev_fix(&c["k"]);
                let (mut rkp, mut reg, mut w) = (None, None, None);
                if c["rev"] != "none" {
                    rkp = Some(x.rkp.clone());
                    reg = Some(x.reg0.clone());
                    w = Some(witness_of(x, widx.max(1)));
                }
                match st(&c["rev"]) {
                    "none" | "own" => (),
                    "partial" => w = None,
                    "otherreg" => {
                        let y = &regs()[3];
                        rkp = Some(y.rkp.clone());
                        reg = Some(y.reg0.clone());
                        w = Some(witness_of(y, widx));
                    }
                    "stale" => {
                        let mut r = x.reg0.clone();
                        Issuer::revoke_credential(&mut r, x.max, widx % 3 + 1, &x.tails).unwrap();
                        reg = Some(r);
                    }
                    "otheridx" => w = Some(witness_of(x, widx % 3 + 1)),
                    e => harness!("rev {}", e),
                }
                let r = Prover::process_credential_signature(&mut sig, &run_obj(us(&c["v"])).values, &de(&o["scp"]), &de(&o["f"]), &k.pk, &run_obj(us(&c["n"])).n2, rkp.as_ref(), reg.as_ref(), w.as_ref());
                if r.is_err() {
                    return json!(if json!(sig) == before { "err" } else { "changed" });
                }
                if c["edit"] == "none" && c["mix"] == "no" {
                    self.sig = json!(sig);
                }
                json!("ok")
            }
            "use" => {
                // any run with the values of the credential
                let sc = self.c.clone().unwrap();
                let k = env().key(&sc["k"]);
                let mut vb = Issuer::new_credential_values_builder().unwrap();
                let hid = run_defs(us(&sc["b"])).1;
                let known = run_defs(us(&sc["v"])).2;
                for (a, v) in hid.as_object().unwrap() {
                    vb.add_dec_hidden(a, &hidden_of(a, v)).unwrap();
                }
                for (a, v) in known.as_object().unwrap() {
                    vb.add_dec_known(a, &int(v).to_string()).unwrap();
                }
                // an attribute nobody set counts as zero
                for a in &k.attrs {
                    if hid.get(a).is_none() && known.get(a).is_none() {
                        vb.add_dec_known(a, "0").unwrap();
                    }
                }
                let values = vb.finalize().unwrap();
                let n = &env().nonces[1];
                let rq = request(&json!({"rev":[],"preds":[{"a":"age","t":"GE","v":-5}]})).unwrap();
                let mut b = Prover::new_proof_builder().unwrap();
                b.add_common_attribute("master_secret").unwrap();
                let s = schema(&k.attrs);
                if b.add_sub_proof_request(&rq, &s, &nonschema(), &de(&self.sig), &values, &k.pk, None, None).is_err() {
                    return json!("no");
                }
                let p = j(b.finalize(n).unwrap());
                let mut v = Verifier::new_proof_verifier().unwrap();
                v.add_common_attribute("master_secret").unwrap();
                v.add_sub_proof_request(&rq, &s, &nonschema(), &k.pk, None, None).unwrap();
                json!(verdict(v.verify(&p, n)))
            }
            _ => harness!("op {}", c),
        }
    }
}

fn keygen() {
    let specs: Vec<(Vec<&str>, bool)> = vec![(vec!["age", "height", "name"], true), (vec!["age", "height", "name"], true), (vec!["age", "status"], false)];
    let th: Vec<_> = specs
        .into_iter()
        .map(|(a, r)| {
            std::thread::spawn(move || {
                let attrs: Vec<String> = a.iter().map(|s| s.to_string()).collect();
                let (pk, sk, kcp) = Issuer::new_credential_def(&schema(&attrs), &nonschema(), r).unwrap();
                json!({"attrs":attrs,"pk":pk,"sk":sk,"kcp":kcp})
            })
        })
        .collect();
    let keys: Vec<Value> = th.into_iter().map(|t| t.join().unwrap()).collect();
    std::fs::write(FIX, serde_json::to_string(&json!({"keys":keys})).unwrap()).unwrap();
}

fn reg_no(a: &Args) -> usize {
    a.opt["f"].parse().unwrap()
}
fn main() {
    let a = args();
    match (a.mode.as_str(), a.opt.get("what").map(|s| s.as_str()).unwrap_or("")) {
        ("keygen", _) => keygen(),
        ("replay", "show") => replay(&a, |_| Show),
        ("replay", "tamper") => replay(&a, |_| Tamper),
        ("replay", "issue") => replay(&a, |_| Issue::default()),
        ("replay", "hist") => replay(&a, |v| Hist { cfg: v[0].clone(), log: vec![] }),
        ("record", "hist") => record_hist(&a),
        ("record", "tamper") => record_tamper(&a),
        ("replay", "reg") => {
            let f = reg_no(&a);
            replay(&a, |v| Reg::new(f, us(&v[1]) as u32))
        }
        ("record", "reg") => record_reg(&a, reg_no(&a)),
        _ => harness!("mode"),
    }
    let _ = (BTreeMap::<u8, u8>::new(), BTreeSet::<u8>::new(), HashSet::<u8>::new());
}
