//! C29: what parties exchange, of libursa.
use std::collections::HashSet;
use serde_json::Value;
use ursa::cl::{issuer::*, prover::*, verifier::*, *};
use vh::codec::*;
use vh::*;

const FIX: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../fixtures/cl.json");
fn de<T: serde::de::DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| harness!("fixture {}", e))
}
macro_rules! js {
    ($k:ident, $($name:expr => $a:expr, $b:expr;)*) => { $( $k.json($name, &$a, &$b); )* };
}
fn schema(a: &[String]) -> CredentialSchema {
    let mut b = Issuer::new_credential_schema_builder().unwrap();
    for x in a {
        b.add_attr(x).unwrap();
    }
    b.finalize().unwrap()
}
fn nonschema(more: bool) -> NonCredentialSchema {
    let mut b = Issuer::new_non_credential_schema_builder().unwrap();
    b.add_attr("master_secret").unwrap();
    if more {
        b.add_attr("another").unwrap();
    }
    b.finalize().unwrap()
}
struct One {
    pk: CredentialPublicKey,
    sk: CredentialPrivateKey,
    kcp: CredentialKeyCorrectnessProof,
    attrs: Vec<String>,
}
/// What an issuance leaves, with or without revocation, and a presentation.
struct Run {
    b: BlindedCredentialSecrets,
    f: CredentialSecretsBlindingFactors,
    p: BlindedCredentialSecretsCorrectnessProof,
    sig: CredentialSignature,
    scp: SignatureCorrectnessProof,
    proof: Proof,
    n1: Nonce,
}
struct Reg {
    rkp: RevocationKeyPublic,
    rks: RevocationKeyPrivate,
    reg: RevocationRegistry,
    gen: RevocationTailsGenerator,
    gen1: RevocationTailsGenerator,
    tail: Tail,
    tails: SimpleTailsAccessor,
}
fn reg(k: &One, by_default: bool) -> Reg {
    let (rkp, rks, reg, mut gen) = Issuer::new_revocation_registry_def(&k.pk, 3, by_default).unwrap();
    let fork = |g: &RevocationTailsGenerator| -> RevocationTailsGenerator { serde_json::from_str(&serde_json::to_string(g).unwrap()).unwrap() };
    let mut g2 = fork(&gen);
    let tails = SimpleTailsAccessor::new(&mut g2).unwrap();
    let g0 = fork(&gen);
    gen.try_next().unwrap();
    let tail = gen.try_next().unwrap().unwrap();
    Reg { rkp, rks, reg, gen: g0, gen1: gen, tail, tails }
}
fn run(k: &One, r: Option<&Reg>, committed: bool, preds: bool, age: i32) -> (Run, Option<(RevocationRegistryDelta, Witness)>) {
    let mut vb = Issuer::new_credential_values_builder().unwrap();
    vb.add_dec_hidden("master_secret", "1234567890123456789").unwrap();
    for a in &k.attrs {
        let v = if a == "age" { age.to_string() } else { "7".into() };
        if committed && a == "age" {
            vb.add_dec_commitment(a, &v, "271828182845904523536").unwrap();
        } else {
            vb.add_dec_known(a, &v).unwrap();
        }
    }
    let v = vb.finalize().unwrap();
    let (n1, n2) = (new_nonce().unwrap(), new_nonce().unwrap());
    let (b, f, p) = Prover::blind_credential_secrets(&k.pk, &k.kcp, &v, &n1).unwrap();
    let known = if committed {
        let mut vb = Issuer::new_credential_values_builder().unwrap();
        for a in k.attrs.iter().filter(|a| *a != "age") {
            vb.add_dec_known(a, "7").unwrap();
        }
        vb.finalize().unwrap()
    } else {
        v.try_clone().unwrap()
    };
    let mut rev = None;
    let (mut sig, scp) = match r {
        None => Issuer::sign_credential("did", &b, &p, &n1, &n2, &known, &k.pk, &k.sk).unwrap(),
        Some(r) => {
            let mut reg = r.reg.clone();
            let (s, c, d) = Issuer::sign_credential_with_revoc("did", &b, &p, &n1, &n2, &known, &k.pk, &k.sk, 1, 3, false, &mut reg, &r.rks, &r.tails).unwrap();
            let d = d.unwrap();
            let w = Witness::new(1, 3, false, &d, &r.tails).unwrap();
            rev = Some((d, w, reg));
            (s, c)
        }
    };
    Prover::process_credential_signature(&mut sig, &v, &scp, &f, &k.pk, &n2, r.map(|r| &r.rkp), rev.as_ref().map(|x| &x.2), rev.as_ref().map(|x| &x.1)).unwrap();
    let mut q = Verifier::new_sub_proof_request_builder().unwrap();
    q.add_revealed_attr(&k.attrs[1]).unwrap();
    if preds {
        q.add_predicate("age", "GE", 18).unwrap();
        q.add_predicate("age", "LT", 90).unwrap();
    }
    let q = q.finalize().unwrap();
    let mut pb = Prover::new_proof_builder().unwrap();
    pb.add_common_attribute("master_secret").unwrap();
    pb.add_sub_proof_request(&q, &schema(&k.attrs), &nonschema(false), &sig, &v, &k.pk, rev.as_ref().map(|x| &x.2), rev.as_ref().map(|x| &x.1)).unwrap();
    let proof = pb.finalize(&n1).unwrap();
    (Run { b, f, p, sig, scp, proof, n1 }, rev.map(|x| (x.0, x.1)))
}
fn kinds() -> Kinds {
    let d: Value = serde_json::from_str(&std::fs::read_to_string(FIX).unwrap_or_else(|e| harness!("{}", e))).unwrap();
    let keys: Vec<One> = arr(&d["keys"]).iter().map(|k| One { pk: de(&k["pk"]), sk: de(&k["sk"]), kcp: de(&k["kcp"]), attrs: de(&k["attrs"]) }).collect();
    let mut k = Kinds::default();
    let (r1, r2) = (reg(&keys[0], false), reg(&keys[1], false));
    let r3 = reg(&keys[0], true);
    let (a, ax) = run(&keys[0], Some(&r1), false, true, 30);
    let (b, bx) = run(&keys[1], Some(&r2), false, true, 31);
    let (c, _) = run(&keys[2], None, false, false, 30);
    let (e, _) = run(&keys[2], None, true, true, 30);
    let (ax, bx) = (ax.unwrap(), bx.unwrap());
    let dl = |p: Option<&RevocationRegistry>, t: &RevocationRegistry, i: &[u32], r: &[u32]| RevocationRegistryDelta::from_parts(p, t, &i.iter().cloned().collect::<HashSet<_>>(), &r.iter().cloned().collect::<HashSet<_>>());
    let pkeys: Vec<_> = keys.iter().map(|x| serde_json::to_value(&x.pk).unwrap()).collect();
    let mut plain = pkeys.clone();
    plain.iter_mut().for_each(|x| {
        x["r_key"] = Value::Null;
    });
    let mut plainsk = serde_json::to_value(&keys[0].sk).unwrap();
    plainsk["r_key"] = Value::Null;
    js! { k,
        "public key, with revocation" => keys[0].pk, keys[1].pk;
        "public key" => keys[2].pk, de::<CredentialPublicKey>(&plain[0]);
        "private key, with revocation" => keys[0].sk, keys[1].sk;
        "private key" => keys[2].sk, de::<CredentialPrivateKey>(&plainsk);
        "key proof" => keys[0].kcp, keys[2].kcp;
        "schema" => schema(&keys[0].attrs), schema(&keys[2].attrs);
        "other schema" => nonschema(false), nonschema(true);
        "blinded, with revocation" => a.b, b.b;
        "blinded, with commitment" => c.b, e.b;
        "blinding factors, with revocation" => a.f, b.f;
        "blinding factors" => c.f, e.f;
        "blinding proof" => a.p, c.p;
        "blinding proof, with commitment" => e.p, b.p;
        "credential, with revocation" => a.sig, b.sig;
        "credential" => c.sig, e.sig;
        "signature proof" => a.scp, b.scp;
        "proof, with revocation" => a.proof, b.proof;
        "proof" => c.proof, e.proof;
        "nonce" => a.n1, b.n1;
        "master secret" => Prover::new_master_secret().unwrap(), Prover::new_master_secret().unwrap();
        "registry key" => r1.rkp, r2.rkp;
        "registry private key" => r1.rks, r2.rks;
        "registry" => r1.reg, r3.reg;
        "tails generator" => r1.gen, r1.gen1;
        "tail" => r1.tail, r2.tail;
        "delta" => ax.0, bx.0;
        "delta, first" => dl(None, &r1.reg, &[], &[]), dl(None, &r3.reg, &[], &[]);
        "delta, both" => dl(Some(&r1.reg), &r3.reg, &[1, 2], &[3]), dl(Some(&r1.reg), &r3.reg, &[2], &[1, 3]);
        "witness" => ax.1, Witness::new(1, 3, true, &dl(None, &r3.reg, &[], &[]), &r3.tails).unwrap();
    };
    let _ = &r3;
    bls(&mut k);
    others(&mut k);
    k
}
fn bls(k: &mut Kinds) {
    use ursa::bls::*;
    let g = [Generator::new().unwrap(), Generator::new().unwrap()];
    let s = [SignKey::new(None).unwrap(), SignKey::new(None).unwrap()];
    let v: Vec<_> = (0..2).map(|i| VerKey::new(&g[0], &s[i]).unwrap()).collect();
    let p: Vec<_> = (0..2).map(|i| ProofOfPossession::new(&v[i], &s[i]).unwrap()).collect();
    let t: Vec<_> = (0..2).map(|i| Bls::sign(b"m", &s[i]).unwrap()).collect();
    let m = [MultiSignature::new(&[&t[0], &t[1]]).unwrap(), MultiSignature::new(&[&t[1]]).unwrap()];
    macro_rules! bs {
        ($($name:expr => $t:ident $a:expr;)*) => { $( k.bytes($name, "bytes", &$a[0], &$a[1], |x| x.as_bytes().to_vec(), $t::from_bytes); )* };
    }
    bs! { "bn generator" => Generator g; "bn sign key" => SignKey s; "bn verkey" => VerKey v; "bn possession" => ProofOfPossession p; "bn signature" => Signature t; "bn multi signature" => MultiSignature m; }
    macro_rules! b12 {
        ($m:ident, $n:expr) => {{
            use ursa::signatures::bls::$m::*;
            use amcl_wrapper04::group_elem::GroupElement;
            let g = Generator::generator();
            let (a, b) = (generate(&g), generate(&g));
            let to = |x: &Signature| x.to_bytes();
            let (s, t) = (Signature::new(b"m", None, &a.1), Signature::new(b"m", None, &b.1));
            k.bytes(concat!($n, " verkey"), "bytes", &a.0, &b.0, |x| x.to_bytes(), PublicKey::from_bytes);
            k.bytes(concat!($n, " verkeys"), "bytes", &AggregatedPublicKey::new(&[a.0.clone(), b.0.clone()]), &AggregatedPublicKey::new(&[b.0.clone()]), |x| x.to_bytes(), AggregatedPublicKey::from_bytes);
            k.bytes(concat!($n, " signature"), "bytes", &s, &t, to, Signature::from_bytes);
            k.bytes(concat!($n, " signatures"), "bytes", &AggregatedSignature::new(&[s.clone(), t.clone()]), &AggregatedSignature::new(&[t.clone()]), |x| x.to_bytes(), AggregatedSignature::from_bytes);
            k.bytes(concat!($n, " possession"), "bytes", &ProofOfPossession::new(&a.0, None, &a.1), &ProofOfPossession::new(&b.0, None, &b.1), |x| x.to_bytes(), ProofOfPossession::from_bytes);
        }};
    }
    b12!(normal, "b12n");
    b12!(small, "b12s");
}
fn others(k: &mut Kinds) {
    use ursa::bn::BigNumber;
    use ursa::pair::*;
    macro_rules! el {
        ($($n:expr => $t:ident $a:expr, $b:expr;)*) => { $( let (a, b) = ($a.unwrap(), $b.unwrap()); k.json($n, &a, &b); k.bytes($n, "bytes", &a, &b, |x| x.to_bytes().unwrap(), $t::from_bytes); )* };
    }
    el! {
        "scalar" => GroupOrderElement GroupOrderElement::new(), GroupOrderElement::new();
        "g1" => PointG1 PointG1::new(), PointG1::new();
        "g2" => PointG2 PointG2::new(), PointG2::new();
    }
    let n = |s: &str| BigNumber::from_dec(s).unwrap();
    let (a, b) = (n("123456789012345678901234567890123456789"), n("-98765432109876543210"));
    k.json("number", &a, &b);
    let (a, b) = (n("123456789012345678901234567890123456789"), n("98765432109876543210"));
    k.bytes("number", "bytes", &a, &b, |x| x.to_bytes().unwrap(), BigNumber::from_bytes);
    k.bytes("number in hex", "bytes", &a, &b, |x| x.to_hex().unwrap().into_bytes(), |x| BigNumber::from_hex(std::str::from_utf8(x).map_err(|_| ())?).map_err(|_| ()));
    k.bytes("number in digits", "bytes", &a, &b, |x| x.to_dec().unwrap().into_bytes(), |x| BigNumber::from_dec(std::str::from_utf8(x).map_err(|_| ())?).map_err(|_| ()));
    use ursa::sharing::shamir::*;
    let q = n("115792089237316195423570985008687907853269984665640564039457584007913129639747");
    let mut s = split_secret([7u8; 20], 2, 3, &q).unwrap();
    let (a, b) = (s.remove(0), s.remove(0));
    k.bytes("share", "bytes", &a, &b, |x| x.to_bytes(), move |x| Share::from_bytes(x, &q));
    use ursa::keys::*;
    k.json("key", &PublicKey(vec![1, 2, 3, 200]), &PublicKey(vec![9; 32]));
    k.json("secret", &PrivateKey(vec![1, 2, 3, 200]), &PrivateKey(vec![9; 64]));
    k.json("session key", &SessionKey(vec![1, 2, 3, 200]), &SessionKey(vec![9; 32]));
}
fn main() {
    let a = args();
    static K: std::sync::OnceLock<Kinds> = std::sync::OnceLock::new();
    let k = K.get_or_init(kinds);
    match a.mode.as_str() {
        "replay" => replay(&a, |_| Codec::new(k)),
        "record" => record(&a, k),
        "kinds" => k.0.keys().for_each(|x| println!("{:?}", x)),
        _ => harness!("mode"),
    }
}
