//! The credential library as the drivers of C01-C06 see it: natively (default), with every result written to JSON
//! and read back (feature `cjson`), or through the exported C functions (feature `cffi`).
#[cfg(not(any(feature = "cjson", feature = "cffi")))]
mod native {
    pub use ursa::cl::{issuer::*, prover::*, verifier::*, *};
    use ursa::errors::UrsaCryptoResult as R;
    pub fn witness_new<T: RevocationTailsAccessor>(i: u32, max: u32, by_default: bool, d: &RevocationRegistryDelta, t: &T) -> R<Witness> {
        Witness::new(i, max, by_default, d, t)
    }
    pub fn witness_update<T: RevocationTailsAccessor>(w: &mut Witness, i: u32, max: u32, d: &RevocationRegistryDelta, t: &T) -> R<()> {
        w.update(i, max, d, t)
    }
    pub fn delta_parts(from: Option<&RevocationRegistry>, to: &RevocationRegistry, issued: &std::collections::HashSet<u32>, revoked: &std::collections::HashSet<u32>) -> RevocationRegistryDelta {
        RevocationRegistryDelta::from_parts(from, to, issued, revoked)
    }
    pub fn delta_merge(d: &mut RevocationRegistryDelta, e: &RevocationRegistryDelta) -> R<()> {
        d.merge(e)
    }
    pub fn tails_of(g: &mut RevocationTailsGenerator) -> R<SimpleTailsAccessor> {
        SimpleTailsAccessor::new(g)
    }
    /// as its receiver gets it
    pub fn j<T>(x: T) -> T {
        x
    }
}
#[cfg(not(any(feature = "cjson", feature = "cffi")))]
pub use native::*;

#[cfg(feature = "cjson")]
mod cjson {
    use crate::harness;
    use std::collections::{BTreeSet, HashSet};
    pub use ursa::cl::*;
    pub use ursa::cl::{prover::ProofBuilder, verifier::ProofVerifier};
    use ursa::cl::{issuer, prover, verifier};
    use ursa::errors::UrsaCryptoResult as R;
    pub fn j<T: serde::Serialize + serde::de::DeserializeOwned>(x: T) -> T {
        let s = serde_json::to_string(&x).unwrap_or_else(|e| panic!("cannot be written: {}", e));
        serde_json::from_str(&s).unwrap_or_else(|e| panic!("cannot be read back: {}: {}", e, s))
    }
    fn jm<T: serde::Serialize + serde::de::DeserializeOwned>(x: &mut T) {
        let s = serde_json::to_string(x).unwrap_or_else(|e| panic!("cannot be written: {}", e));
        *x = serde_json::from_str(&s).unwrap_or_else(|e| panic!("cannot be read back: {}: {}", e, s))
    }
    pub struct Issuer {}
    impl Issuer {
        pub fn new_credential_schema_builder() -> R<CredentialSchemaBuilder> {
            issuer::Issuer::new_credential_schema_builder()
        }
        pub fn new_non_credential_schema_builder() -> R<NonCredentialSchemaBuilder> {
            issuer::Issuer::new_non_credential_schema_builder()
        }
        pub fn new_credential_values_builder() -> R<CredentialValuesBuilder> {
            issuer::Issuer::new_credential_values_builder()
        }
        pub fn new_credential_def(s: &CredentialSchema, n: &NonCredentialSchema, r: bool) -> R<(CredentialPublicKey, CredentialPrivateKey, CredentialKeyCorrectnessProof)> {
            issuer::Issuer::new_credential_def(s, n, r).map(j)
        }
        pub fn new_revocation_registry_def(pk: &CredentialPublicKey, max: u32, by_default: bool) -> R<(RevocationKeyPublic, RevocationKeyPrivate, RevocationRegistry, RevocationTailsGenerator)> {
            let (a, b, c, d) = issuer::Issuer::new_revocation_registry_def(pk, max, by_default)?;
            Ok((j(a), j(b), j(c), j(d)))
        }
        pub fn sign_credential(did: &str, b: &BlindedCredentialSecrets, p: &BlindedCredentialSecretsCorrectnessProof, n1: &Nonce, n2: &Nonce, v: &CredentialValues, pk: &CredentialPublicKey, sk: &CredentialPrivateKey) -> R<(CredentialSignature, SignatureCorrectnessProof)> {
            issuer::Issuer::sign_credential(did, b, p, n1, n2, v, pk, sk).map(j)
        }
        #[allow(clippy::too_many_arguments)]
        pub fn sign_credential_with_revoc<T: RevocationTailsAccessor>(did: &str, b: &BlindedCredentialSecrets, p: &BlindedCredentialSecretsCorrectnessProof, n1: &Nonce, n2: &Nonce, v: &CredentialValues, pk: &CredentialPublicKey, sk: &CredentialPrivateKey, i: u32, max: u32, by_default: bool, reg: &mut RevocationRegistry, rks: &RevocationKeyPrivate, t: &T) -> R<(CredentialSignature, SignatureCorrectnessProof, Option<RevocationRegistryDelta>)> {
            let r = issuer::Issuer::sign_credential_with_revoc(did, b, p, n1, n2, v, pk, sk, i, max, by_default, reg, rks, t);
            jm(reg);
            r.map(j)
        }
        pub fn revoke_credential<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, i: u32, t: &T) -> R<RevocationRegistryDelta> {
            let r = issuer::Issuer::revoke_credential(reg, max, i, t);
            jm(reg);
            r.map(j)
        }
        pub fn recovery_credential<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, i: u32, t: &T) -> R<RevocationRegistryDelta> {
            let r = issuer::Issuer::recovery_credential(reg, max, i, t);
            jm(reg);
            r.map(j)
        }
        pub fn update_revocation_registry<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, iss: BTreeSet<u32>, rev: BTreeSet<u32>, t: &T) -> R<RevocationRegistryDelta> {
            let r = issuer::Issuer::update_revocation_registry(reg, max, iss, rev, t);
            jm(reg);
            r.map(j)
        }
    }
    pub struct Prover {}
    impl Prover {
        pub fn blind_credential_secrets(pk: &CredentialPublicKey, kcp: &CredentialKeyCorrectnessProof, v: &CredentialValues, n: &Nonce) -> R<(BlindedCredentialSecrets, CredentialSecretsBlindingFactors, BlindedCredentialSecretsCorrectnessProof)> {
            prover::Prover::blind_credential_secrets(pk, kcp, v, n).map(j)
        }
        #[allow(clippy::too_many_arguments)]
        pub fn process_credential_signature(s: &mut CredentialSignature, v: &CredentialValues, p: &SignatureCorrectnessProof, f: &CredentialSecretsBlindingFactors, pk: &CredentialPublicKey, n: &Nonce, rkp: Option<&RevocationKeyPublic>, reg: Option<&RevocationRegistry>, w: Option<&Witness>) -> R<()> {
            let r = prover::Prover::process_credential_signature(s, v, p, f, pk, n, rkp, reg, w);
            jm(s);
            r
        }
        pub fn new_proof_builder() -> R<ProofBuilder> {
            prover::Prover::new_proof_builder()
        }
    }
    pub struct Verifier {}
    impl Verifier {
        pub fn new_sub_proof_request_builder() -> R<SubProofRequestBuilder> {
            verifier::Verifier::new_sub_proof_request_builder()
        }
        pub fn new_proof_verifier() -> R<ProofVerifier> {
            verifier::Verifier::new_proof_verifier()
        }
    }
    pub fn witness_new<T: RevocationTailsAccessor>(i: u32, max: u32, by_default: bool, d: &RevocationRegistryDelta, t: &T) -> R<Witness> {
        Witness::new(i, max, by_default, d, t).map(j)
    }
    pub fn witness_update<T: RevocationTailsAccessor>(w: &mut Witness, i: u32, max: u32, d: &RevocationRegistryDelta, t: &T) -> R<()> {
        let r = w.update(i, max, d, t);
        jm(w);
        r
    }
    pub fn delta_parts(from: Option<&RevocationRegistry>, to: &RevocationRegistry, issued: &HashSet<u32>, revoked: &HashSet<u32>) -> RevocationRegistryDelta {
        j(RevocationRegistryDelta::from_parts(from, to, issued, revoked))
    }
    pub fn delta_merge(d: &mut RevocationRegistryDelta, e: &RevocationRegistryDelta) -> R<()> {
        let r = d.merge(e);
        jm(d);
        r
    }
    pub fn tails_of(g: &mut RevocationTailsGenerator) -> R<SimpleTailsAccessor> {
        // the generator is stored half way
        let n = g.count();
        let mut v: Vec<Tail> = vec![];
        while let Some(t) = g.try_next()? {
            v.push(j(t));
            if v.len() as u32 == n / 2 {
                jm(g);
            }
        }
        if v.len() as u32 != n {
            harness!("{} tails of {}", v.len(), n)
        }
        Ok(SimpleTailsAccessor { tails: v })
    }
    #[derive(Clone)]
    pub struct SimpleTailsAccessor {
        tails: Vec<Tail>,
    }
    impl RevocationTailsAccessor for SimpleTailsAccessor {
        fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> R<()> {
            let t = self.tails.get(id as usize).ok_or_else(|| ursa::errors::err_msg(ursa::errors::UrsaCryptoErrorKind::InvalidStructure, "no tail"))?;
            f(t);
            Ok(())
        }
    }
}
#[cfg(feature = "cjson")]
pub use cjson::*;

#[cfg(feature = "cffi")]
mod cffi {
    use crate::harness;
    use std::collections::{BTreeSet, HashSet};
    use std::ffi::{CStr, CString};
    use std::os::raw::{c_char, c_void};
    use std::ptr::null;
    pub use ursa::cl::{CredentialSchema, NonCredentialSchema, CredentialValues, CredentialValue, CredentialPublicKey, CredentialPrivateKey, CredentialPrimaryPublicKey, CredentialPrimaryPrivateKey, CredentialKeyCorrectnessProof, RevocationKeyPublic, RevocationKeyPrivate, RevocationRegistry, RevocationTailsGenerator, RevocationRegistryDelta, RevocationTailsAccessor, Tail, BlindedCredentialSecrets, BlindedCredentialSecretsCorrectnessProof, CredentialSecretsBlindingFactors, CredentialSignature, SignatureCorrectnessProof, Witness, SubProofRequest, Proof, Nonce, MasterSecret};
    use ursa::errors::{err_msg, UrsaCryptoErrorKind, UrsaCryptoResult as R};
    use ursa::ffi::cl::{issuer as fi, prover as fp, verifier as fv, *};
    use ursa::ffi::{ursa_get_current_error, ursa_string_free, ErrorCode};

    fn p<T>(x: &T) -> *const c_void {
        x as *const T as *const c_void
    }
    fn po<T>(x: Option<&T>) -> *const c_void {
        x.map(p).unwrap_or(null())
    }
    fn cs(s: &str) -> CString {
        CString::new(s).unwrap_or_else(|e| harness!("{}", e))
    }
    static MARK: u8 = 0;
    fn sent() -> *const c_void {
        &MARK as *const u8 as *const c_void
    }
    fn res(c: ErrorCode, out: &[&*const c_void]) -> R<()> {
        let k = c as usize;
        if k == 0 {
            for o in out {
                assert!(!o.is_null() && **o != sent(), "a call that succeeded did not write its outputs");
            }
            return Ok(());
        }
        for o in out {
            assert!(**o == sent(), "a call that failed ({}) wrote its outputs", k);
        }
        // the details of the last error are those of this call
        let mut e: *const c_char = null();
        ursa_get_current_error(&mut e);
        assert!(!e.is_null(), "no details of error {}", k);
        let d: serde_json::Value = serde_json::from_slice(unsafe { CStr::from_ptr(e) }.to_bytes()).unwrap_or_else(|x| panic!("details of error {}: {}", k, x));
        let m = d["message"].as_str().unwrap_or_else(|| panic!("details of error {}: {}", k, d));
        let kind: UrsaCryptoErrorKind = c.into();
        assert!(m.contains(&kind.to_string()), "details of error {} are those of another: {}", k, m);
        Err(err_msg(kind, ""))
    }
    fn own<T>(x: *const c_void) -> T {
        *unsafe { Box::from_raw(x as *mut T) }
    }
    type ToJ = extern "C" fn(*const c_void, *mut *const c_char) -> ErrorCode;
    type FromJ = extern "C" fn(*const c_char, *mut *const c_void) -> ErrorCode;
    type Free = extern "C" fn(*const c_void) -> ErrorCode;
    /// the object behind a handle, after it has been written to JSON, freed and read back through the C functions
    fn via<T: serde::Serialize>(x: *const c_void, f: (ToJ, FromJ, Free)) -> T {
        let mut s: *const c_char = sent() as *const c_char;
        assert!(f.0(x, &mut s) as usize == 0 && s != sent() as *const c_char, "cannot be written");
        let text = unsafe { CStr::from_ptr(s) }.to_str().unwrap().to_string();
        let v: serde_json::Value = serde_json::from_str(&text).unwrap();
        assert!(v == serde_json::to_value(unsafe { &*(x as *const T) }).unwrap(), "the JSON is of another object");
        assert!(f.2(x) as usize == 0, "cannot be freed");
        let mut y = sent();
        assert!(f.1(s, &mut y) as usize == 0 && y != sent() && !y.is_null(), "cannot be read back: {}", text);
        unsafe { ursa_string_free(s as *mut c_char) };
        let t: T = own(y);
        assert!(serde_json::to_value(&t).unwrap() == v, "read back as another object: {}", text);
        t
    }
    macro_rules! codecs {
        ($($n:ident: $m:ident $to:ident $from:ident $free:ident,)*) => {$(const $n: (ToJ, FromJ, Free) = ($m::$to, $m::$from, $m::$free);)*}
    }
    codecs! {
        PK: fi ursa_cl_credential_public_key_to_json ursa_cl_credential_public_key_from_json ursa_cl_credential_public_key_free,
        SK: fi ursa_cl_credential_private_key_to_json ursa_cl_credential_private_key_from_json ursa_cl_credential_private_key_free,
        KCP: fi ursa_cl_credential_key_correctness_proof_to_json ursa_cl_credential_key_correctness_proof_from_json ursa_cl_credential_key_correctness_proof_free,
        RKP: fi ursa_cl_revocation_key_public_to_json ursa_cl_revocation_key_public_from_json ursa_cl_revocation_key_public_free,
        RKS: fi ursa_cl_revocation_key_private_to_json ursa_cl_revocation_key_private_from_json ursa_cl_revocation_key_private_free,
        REG: fi ursa_cl_revocation_registry_to_json ursa_cl_revocation_registry_from_json ursa_cl_revocation_registry_free,
        GEN: fi ursa_cl_revocation_tails_generator_to_json ursa_cl_revocation_tails_generator_from_json ursa_cl_revocation_tails_generator_free,
        SIG: fi ursa_cl_credential_signature_to_json ursa_cl_credential_signature_from_json ursa_cl_credential_signature_free,
        SCP: fi ursa_cl_signature_correctness_proof_to_json ursa_cl_signature_correctness_proof_from_json ursa_cl_signature_correctness_proof_free,
        DELTA: fi ursa_cl_revocation_registry_delta_to_json ursa_cl_revocation_registry_delta_from_json ursa_cl_revocation_registry_delta_free,
        BCS: fp ursa_cl_blinded_credential_secrets_to_json ursa_cl_blinded_credential_secrets_from_json ursa_cl_blinded_credential_secrets_free,
        BF: fp ursa_cl_credential_secrets_blinding_factors_to_json ursa_cl_credential_secrets_blinding_factors_from_json ursa_cl_credential_secrets_blinding_factors_free,
        BCP: fp ursa_cl_blinded_credential_secrets_correctness_proof_to_json ursa_cl_blinded_credential_secrets_correctness_proof_from_json ursa_cl_blinded_credential_secrets_correctness_proof_free,
        PROOF: fp ursa_cl_proof_to_json ursa_cl_proof_from_json ursa_cl_proof_free,
    }
    pub fn j<T>(x: T) -> T {
        x
    }
    pub fn new_nonce() -> R<Nonce> {
        let mut o = sent();
        res(ursa_cl_new_nonce(&mut o), &[&o])?;
        Ok(via(o, (ursa_cl_nonce_to_json, ursa_cl_nonce_from_json, ursa_cl_nonce_free)))
    }

    macro_rules! builder {
        ($b:ident, $new:path, $fin:path, $t:ty) => {
            pub struct $b(*const c_void);
            impl $b {
                fn new() -> R<Self> {
                    let mut o = sent();
                    res($new(&mut o), &[&o])?;
                    Ok($b(o))
                }
                pub fn finalize(self) -> R<$t> {
                    let mut o = sent();
                    res($fin(self.0, &mut o), &[&o])?;
                    Ok(own(o))
                }
            }
        };
    }
    builder!(CredentialSchemaBuilder, ursa_cl_credential_schema_builder_new, ursa_cl_credential_schema_builder_finalize, CredentialSchema);
    builder!(NonCredentialSchemaBuilder, ursa_cl_non_credential_schema_builder_new, ursa_cl_non_credential_schema_builder_finalize, NonCredentialSchema);
    builder!(CredentialValuesBuilder, ursa_cl_credential_values_builder_new, ursa_cl_credential_values_builder_finalize, CredentialValues);
    builder!(SubProofRequestBuilder, ursa_cl_sub_proof_request_builder_new, ursa_cl_sub_proof_request_builder_finalize, SubProofRequest);
    impl CredentialSchemaBuilder {
        pub fn add_attr(&mut self, a: &str) -> R<()> {
            res(ursa_cl_credential_schema_builder_add_attr(self.0, cs(a).as_ptr()), &[])
        }
    }
    impl NonCredentialSchemaBuilder {
        pub fn add_attr(&mut self, a: &str) -> R<()> {
            res(ursa_cl_non_credential_schema_builder_add_attr(self.0, cs(a).as_ptr()), &[])
        }
    }
    impl CredentialValuesBuilder {
        pub fn add_dec_known(&mut self, a: &str, v: &str) -> R<()> {
            res(ursa_cl_credential_values_builder_add_dec_known(self.0, cs(a).as_ptr(), cs(v).as_ptr()), &[])
        }
        pub fn add_dec_hidden(&mut self, a: &str, v: &str) -> R<()> {
            res(ursa_cl_credential_values_builder_add_dec_hidden(self.0, cs(a).as_ptr(), cs(v).as_ptr()), &[])
        }
        pub fn add_dec_commitment(&mut self, a: &str, v: &str, f: &str) -> R<()> {
            res(ursa_cl_credential_values_builder_add_dec_commitment(self.0, cs(a).as_ptr(), cs(v).as_ptr(), cs(f).as_ptr()), &[])
        }
    }
    impl SubProofRequestBuilder {
        pub fn add_revealed_attr(&mut self, a: &str) -> R<()> {
            res(ursa_cl_sub_proof_request_builder_add_revealed_attr(self.0, cs(a).as_ptr()), &[])
        }
        pub fn add_predicate(&mut self, a: &str, t: &str, v: i32) -> R<()> {
            res(ursa_cl_sub_proof_request_builder_add_predicate(self.0, cs(a).as_ptr(), cs(t).as_ptr(), v), &[])
        }
    }

    extern "C" fn take(ctx: *const c_void, i: u32, out: *mut *const c_void) -> ErrorCode {
        let t: &&dyn RevocationTailsAccessor = unsafe { &*(ctx as *const &dyn RevocationTailsAccessor) };
        let mut x: Option<Tail> = None;
        match t.access_tail(i, &mut |t| x = Some(*t)) {
            Ok(()) => {
                unsafe { *out = Box::into_raw(Box::new(x.unwrap())) as *const c_void };
                ErrorCode::Success
            }
            Err(e) => e.kind().into(),
        }
    }
    extern "C" fn put(_ctx: *const c_void, t: *const c_void) -> ErrorCode {
        ursa_cl_tail_free(t)
    }

    pub struct Issuer {}
    impl Issuer {
        pub fn new_credential_schema_builder() -> R<CredentialSchemaBuilder> {
            CredentialSchemaBuilder::new()
        }
        pub fn new_non_credential_schema_builder() -> R<NonCredentialSchemaBuilder> {
            NonCredentialSchemaBuilder::new()
        }
        pub fn new_credential_values_builder() -> R<CredentialValuesBuilder> {
            CredentialValuesBuilder::new()
        }
        pub fn new_credential_def(s: &CredentialSchema, n: &NonCredentialSchema, r: bool) -> R<(CredentialPublicKey, CredentialPrivateKey, CredentialKeyCorrectnessProof)> {
            let (mut a, mut b, mut c) = (sent(), sent(), sent());
            res(fi::ursa_cl_issuer_new_credential_def(p(s), p(n), r, &mut a, &mut b, &mut c), &[&a, &b, &c])?;
            Ok((via(a, PK), via(b, SK), via(c, KCP)))
        }
        pub fn new_revocation_registry_def(pk: &CredentialPublicKey, max: u32, by_default: bool) -> R<(RevocationKeyPublic, RevocationKeyPrivate, RevocationRegistry, RevocationTailsGenerator)> {
            let (mut a, mut b, mut c, mut d) = (sent(), sent(), sent(), sent());
            res(fi::ursa_cl_issuer_new_revocation_registry_def(p(pk), max, by_default, &mut a, &mut b, &mut c, &mut d), &[&a, &b, &c, &d])?;
            Ok((via(a, RKP), via(b, RKS), via(c, REG), via(d, GEN)))
        }
        #[allow(clippy::too_many_arguments)]
        pub fn sign_credential(did: &str, b: &BlindedCredentialSecrets, bp: &BlindedCredentialSecretsCorrectnessProof, n1: &Nonce, n2: &Nonce, v: &CredentialValues, pk: &CredentialPublicKey, sk: &CredentialPrivateKey) -> R<(CredentialSignature, SignatureCorrectnessProof)> {
            let (mut x, mut y) = (sent(), sent());
            res(fi::ursa_cl_issuer_sign_credential(cs(did).as_ptr(), p(b), p(bp), p(n1), p(n2), p(v), p(pk), p(sk), &mut x, &mut y), &[&x, &y])?;
            Ok((via(x, SIG), via(y, SCP)))
        }
        #[allow(clippy::too_many_arguments)]
        pub fn sign_credential_with_revoc<T: RevocationTailsAccessor>(did: &str, b: &BlindedCredentialSecrets, bp: &BlindedCredentialSecretsCorrectnessProof, n1: &Nonce, n2: &Nonce, v: &CredentialValues, pk: &CredentialPublicKey, sk: &CredentialPrivateKey, i: u32, max: u32, by_default: bool, reg: &mut RevocationRegistry, rks: &RevocationKeyPrivate, t: &T) -> R<(CredentialSignature, SignatureCorrectnessProof, Option<RevocationRegistryDelta>)> {
            let t: &dyn RevocationTailsAccessor = t;
            let (mut x, mut y, mut d) = (sent(), sent(), sent());
            let c = fi::ursa_cl_issuer_sign_credential_with_revoc(cs(did).as_ptr(), p(b), p(bp), p(n1), p(n2), p(v), p(pk), p(sk), i, max, by_default, p(reg), p(rks), p(&t), take, put, &mut x, &mut y, &mut d);
            if c as usize == 0 {
                assert!(d != sent(), "the delta is not written");
                res(c, &[&x, &y])?;
            } else {
                res(c, &[&x, &y, &d])?;
            }
            Ok((via(x, SIG), via(y, SCP), if d.is_null() { None } else { Some(via(d, DELTA)) }))
        }
        pub fn revoke_credential<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, i: u32, t: &T) -> R<RevocationRegistryDelta> {
            let t: &dyn RevocationTailsAccessor = t;
            let mut d = sent();
            res(fi::ursa_cl_issuer_revoke_credential(p(reg), max, i, p(&t), take, put, &mut d), &[&d])?;
            Ok(via(d, DELTA))
        }
        pub fn recovery_credential<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, i: u32, t: &T) -> R<RevocationRegistryDelta> {
            let t: &dyn RevocationTailsAccessor = t;
            let mut d = sent();
            res(fi::ursa_cl_issuer_recovery_credential(p(reg), max, i, p(&t), take, put, &mut d), &[&d])?;
            Ok(via(d, DELTA))
        }
        /// has no C function
        pub fn update_revocation_registry<T: RevocationTailsAccessor>(reg: &mut RevocationRegistry, max: u32, iss: BTreeSet<u32>, rev: BTreeSet<u32>, t: &T) -> R<RevocationRegistryDelta> {
            ursa::cl::issuer::Issuer::update_revocation_registry(reg, max, iss, rev, t)
        }
    }
    pub struct Prover {}
    impl Prover {
        pub fn blind_credential_secrets(pk: &CredentialPublicKey, kcp: &CredentialKeyCorrectnessProof, v: &CredentialValues, n: &Nonce) -> R<(BlindedCredentialSecrets, CredentialSecretsBlindingFactors, BlindedCredentialSecretsCorrectnessProof)> {
            let (mut a, mut b, mut c) = (sent(), sent(), sent());
            res(fp::ursa_cl_prover_blind_credential_secrets(p(pk), p(kcp), p(v), p(n), &mut a, &mut b, &mut c), &[&a, &b, &c])?;
            Ok((via(a, BCS), via(b, BF), via(c, BCP)))
        }
        #[allow(clippy::too_many_arguments)]
        pub fn process_credential_signature(s: &mut CredentialSignature, v: &CredentialValues, sp: &SignatureCorrectnessProof, f: &CredentialSecretsBlindingFactors, pk: &CredentialPublicKey, n: &Nonce, rkp: Option<&RevocationKeyPublic>, reg: Option<&RevocationRegistry>, w: Option<&Witness>) -> R<()> {
            let mut i = 987_654_321u32;
            let want = s.extract_index();
            assert!(fp::ursa_cl_prover_get_credential_revocation_index(p(s), &mut i) as usize == 0);
            // (without revocation there is no index)
            assert!(want.is_none() || want == Some(i), "another index");
            res(fp::ursa_cl_prover_process_credential_signature(p(s), p(v), p(sp), p(f), p(pk), p(n), po(rkp), po(reg), po(w)), &[])
        }
        pub fn new_proof_builder() -> R<ProofBuilder> {
            let mut o = sent();
            res(fp::ursa_cl_prover_new_proof_builder(&mut o), &[&o])?;
            Ok(ProofBuilder(o))
        }
    }
    pub struct ProofBuilder(*const c_void);
    impl ProofBuilder {
        pub fn add_common_attribute(&mut self, a: &str) -> R<()> {
            res(fp::ursa_cl_proof_builder_add_common_attribute(self.0, cs(a).as_ptr()), &[])
        }
        #[allow(clippy::too_many_arguments)]
        pub fn add_sub_proof_request(&mut self, r: &SubProofRequest, s: &CredentialSchema, n: &NonCredentialSchema, sig: &CredentialSignature, v: &CredentialValues, pk: &CredentialPublicKey, reg: Option<&RevocationRegistry>, w: Option<&Witness>) -> R<()> {
            res(fp::ursa_cl_proof_builder_add_sub_proof_request(self.0, p(r), p(s), p(n), p(sig), p(v), p(pk), po(reg), po(w)), &[])
        }
        pub fn finalize(self, n: &Nonce) -> R<Proof> {
            let mut o = sent();
            res(fp::ursa_cl_proof_builder_finalize(self.0, p(n), &mut o), &[&o])?;
            Ok(via(o, PROOF))
        }
    }
    pub struct Verifier {}
    impl Verifier {
        pub fn new_sub_proof_request_builder() -> R<SubProofRequestBuilder> {
            SubProofRequestBuilder::new()
        }
        pub fn new_proof_verifier() -> R<ProofVerifier> {
            let mut o = sent();
            res(fv::ursa_cl_verifier_new_proof_verifier(&mut o), &[&o])?;
            Ok(ProofVerifier(o))
        }
    }
    pub struct ProofVerifier(*const c_void);
    impl ProofVerifier {
        pub fn add_common_attribute(&mut self, a: &str) -> R<()> {
            res(fv::ursa_cl_proof_verifier_add_common_attribute(self.0, cs(a).as_ptr()), &[])
        }
        pub fn add_sub_proof_request(&mut self, r: &SubProofRequest, s: &CredentialSchema, n: &NonCredentialSchema, pk: &CredentialPublicKey, rkp: Option<&RevocationKeyPublic>, reg: Option<&RevocationRegistry>) -> R<()> {
            res(fv::ursa_cl_proof_verifier_add_sub_proof_request(self.0, p(r), p(s), p(n), p(pk), po(rkp), po(reg)), &[])
        }
        pub fn verify(&self, x: &Proof, n: &Nonce) -> R<bool> {
            let mut v = [2u8, 2u8];
            let c = fv::ursa_cl_proof_verifier_verify(self.0, p(x), p(n), &mut v[0] as *mut u8 as *mut bool);
            assert!(v[1] == 2 && (c as usize == 0) == (v[0] != 2), "verdict {:?} of a call that returned {}", v, c as usize);
            res(c, &[]).map(|_| v[0] == 1)
        }
    }
    pub fn witness_new<T: RevocationTailsAccessor>(i: u32, max: u32, by_default: bool, d: &RevocationRegistryDelta, t: &T) -> R<Witness> {
        let t: &dyn RevocationTailsAccessor = t;
        let mut o = sent();
        res(ursa_cl_witness_new(i, max, by_default, p(d), p(&t), take, put, &mut o), &[&o])?;
        Ok(own(o))
    }
    pub fn witness_update<T: RevocationTailsAccessor>(w: &mut Witness, i: u32, max: u32, d: &RevocationRegistryDelta, t: &T) -> R<()> {
        let t: &dyn RevocationTailsAccessor = t;
        res(ursa_cl_witness_update(i, max, p(d), w as *mut Witness as *mut c_void, p(&t), take, put), &[])
    }
    pub fn delta_parts(from: Option<&RevocationRegistry>, to: &RevocationRegistry, issued: &HashSet<u32>, revoked: &HashSet<u32>) -> RevocationRegistryDelta {
        let (a, b): (Vec<u32>, Vec<u32>) = (issued.iter().cloned().collect(), revoked.iter().cloned().collect());
        let mut o = sent();
        res(fi::ursa_revocation_registry_delta_from_parts(po(from), p(to), a.as_ptr(), a.len(), b.as_ptr(), b.len(), &mut o), &[&o]).unwrap();
        via(o, DELTA)
    }
    pub fn delta_merge(d: &mut RevocationRegistryDelta, e: &RevocationRegistryDelta) -> R<()> {
        let mut o = sent();
        res(fi::ursa_cl_issuer_merge_revocation_registry_deltas(p(d), p(e), &mut o), &[&o])?;
        *d = via(o, DELTA);
        Ok(())
    }
    pub fn tails_of(g: &mut RevocationTailsGenerator) -> R<SimpleTailsAccessor> {
        let mut n = 0u32;
        res(ursa_cl_tails_generator_count(p(g), &mut n), &[])?;
        let mut v: Vec<Tail> = vec![];
        loop {
            let mut o = sent();
            res(ursa_cl_tails_generator_next(p(g), &mut o), &[])?;
            if o.is_null() {
                break;
            }
            assert!(o != sent());
            v.push(own(o));
        }
        assert!(v.len() as u32 == n, "{} tails of {}", v.len(), n);
        Ok(SimpleTailsAccessor { tails: v })
    }
    #[derive(Clone)]
    pub struct SimpleTailsAccessor {
        tails: Vec<Tail>,
    }
    impl RevocationTailsAccessor for SimpleTailsAccessor {
        fn access_tail(&self, id: u32, f: &mut dyn FnMut(&Tail)) -> R<()> {
            let t = self.tails.get(id as usize).ok_or_else(|| err_msg(UrsaCryptoErrorKind::InvalidStructure, "no tail"))?;
            f(t);
            Ok(())
        }
    }
}
#[cfg(feature = "cffi")]
pub use cffi::*;
