From 3187b9cc424bbdd65cf3a8688bd88223bb72d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 01/45] fix: Share::to_bytes recursed forever instead of
 writing the value

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 49d7cf17a95e5ff500e58000f965ea9678e91de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 02/45] fix: decode every commitment of Feldman and Pedersen
 verifiers, refuse wrong lengths

---
 ursa_sharing/src/feldman.rs  | 12 ++++++++++--
 ursa_sharing/src/pedersen.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..22a3191 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,10 +175,18 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        // Exactly `cs` commitments must follow
+        let size = R::Size::to_usize();
+        if cs.checked_mul(size) != Some(value.len() - end) {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(size).saturating_add(end),
+                value.len(),
+            ));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += size;
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..0992287 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -207,10 +207,18 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
+        // Exactly `cs` commitments must follow
+        let size = R::Size::to_usize();
+        if cs.checked_mul(size) != Some(value.len() - end) {
+            return Err(SharingError::PedersenVerifierMinSize(
+                cs.saturating_mul(size).saturating_add(end),
+                value.len(),
+            ));
+        }
         let mut commitments = Vec::with_capacity(cs);
-        offset = end;
-        end += R::Size::to_usize();
         for _ in 0..cs {
+            offset = end;
+            end += size;
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
-- 
2.43.0


From 3d85ddf3e9ad723ae51f58d9d7cf89546402ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/45] fix: verify_share refuses identifier 0 and verifiers
 with too few commitments

---
 ursa_sharing/src/feldman.rs  | 3 +++
 ursa_sharing/src/pedersen.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 22a3191..647c5c3 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -81,6 +81,9 @@ impl Scheme {
         if verifier.commitments.len() < self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
+        if share.identifier == 0 {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 0992287..1548679 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,12 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() < self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
+        if share.identifier == 0 {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From e46a176212123b0728d4a525475a95df565d8842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 04/45] fix: CL verifier bounds the blinded signature exponent

A holder could present a made-up signature with exponent 1.
---
 libursa/src/cl/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..5ec374f 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -454,6 +454,14 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        // Without this bound a signature with a small exponent can be made up by anyone
+        if proof.e.num_bits()? as usize > LARGE_ETILDE + 1 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Blinded exponent of the signature is out of range",
+            ));
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From 8e4bb42aca05c9763b16d03c17392c17ab8bb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 05/45] fix: CL verifier ties predicate proofs to their
 attribute

A predicate proof made for one attribute was accepted for another.
---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 5ec374f..e22324f 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -430,6 +430,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // The predicate must be about the very attribute of this credential
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Predicate proof is not about attribute '{}' of the credential",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From 2ea5804d5a16cde1d3c4da733aa6691675c934b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/45] fix: CL predicates work over the whole 32-bit range

The difference of attribute and bound overflowed.
---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..5f80d3e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..f4f1649 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -939,21 +939,22 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        let (attr_value, value) = (i64::from(attr_value), i64::from(self.value));
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
         match self.p_type {
             PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(i64::from(self.value) + 1).to_string()),
             PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(i64::from(self.value) - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 9df6cd1b3efdf6b8e7f0011235a9623df7952563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 07/45] fix: CL verifier refuses a presentation without the
 requested non-revocation proof

---
 libursa/src/cl/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index e22324f..b4edfd2 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -229,6 +229,16 @@ impl ProofVerifier {
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
+            if credential.rev_reg.is_some()
+                && credential.rev_key_pub.is_some()
+                && (proof_item.non_revoc_proof.is_none() || credential.pub_key.r_key.is_none())
+            {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Proof of non-revocation is missing",
+                ));
+            }
+
             if let (
                 Some(non_revocation_proof),
                 Some(cred_rev_pub_key),
-- 
2.43.0


From 156c111a789ffbe43341a682f8fcc870e8c761f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 08/45] fix: CL verifier keeps no blinded values between
 verifications

The second presentation checked by a verifier with common attributes was refused.
---
 libursa/src/cl/verifier.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index b4edfd2..6f35cd8 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -60,7 +60,6 @@ pub struct ProofVerifier {
 impl ProofVerifier {
     /// Attributes that are supposed to have same value across all subproofs.
     /// The verifier first enters attribute names in the hashmap before proof verification starts.
-    /// The hashmap is again updated during verification of sub proofs by the blinded value of attributes (`m_hat`s in paper)
     pub fn add_common_attribute(&mut self, attr_name: &str) -> UrsaCryptoResult<()> {
         self.common_attributes.insert(attr_name.to_owned(), None);
         Ok(())
@@ -226,6 +225,13 @@ impl ProofVerifier {
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
 
+        // Blinded values of common attributes are those of this proof only
+        let mut common_attributes: HashMap<String, Option<BigNumber>> = self
+            .common_attributes
+            .keys()
+            .map(|attr_name| (attr_name.clone(), None))
+            .collect();
+
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
@@ -263,15 +269,12 @@ impl ProofVerifier {
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
-            let attr_names: Vec<String> = self
-                .common_attributes
-                .keys()
-                .map(|s| s.to_string())
-                .collect();
+            let attr_names: Vec<String> =
+                common_attributes.keys().map(|s| s.to_string()).collect();
             for attr_name in attr_names {
                 if proof_item.primary_proof.eq_proof.m.contains_key(&attr_name) {
                     let m_hat = &proof_item.primary_proof.eq_proof.m[&attr_name];
-                    match self.common_attributes.entry(attr_name.clone()) {
+                    match common_attributes.entry(attr_name.clone()) {
                         Entry::Occupied(mut entry) => {
                             let x = entry.get_mut();
                             match x {
@@ -289,7 +292,7 @@ impl ProofVerifier {
                                 }
                             }
                         }
-                        // Vacant is not possible because `attr_names` is constructed from keys of `self.common_attributes`
+                        // Vacant is not possible because `attr_names` is constructed from keys of `common_attributes`
                         Entry::Vacant(_) => (),
                     }
                 } else {
-- 
2.43.0


From 34dbe7ae771fece06fd9adfb4ece2274a501fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 09/45] fix: CL verifier checks that the challenge covers the
 commitments of the proof

Commitments in the sub proofs could be chosen after the challenge.
---
 libursa/src/cl/verifier.rs | 45 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 6f35cd8..6961503 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -316,6 +316,13 @@ impl ProofVerifier {
             )?)?;
         }
 
+        if !ProofVerifier::_check_c_list(proof)? {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Aggregated proof doesn't correspond to sub proofs",
+            ));
+        }
+
         let mut values: Vec<Vec<u8>> = Vec::new();
         values.extend_from_slice(&tau_list);
         values.extend_from_slice(&proof.aggregated_proof.c_list);
@@ -368,6 +375,44 @@ impl ProofVerifier {
         Ok(())
     }
 
+    // The challenge must be over the very commitments that the sub proofs contain
+    fn _check_c_list(proof: &Proof) -> UrsaCryptoResult<bool> {
+        let mut c_list = proof.aggregated_proof.c_list.iter();
+
+        for sub_proof in &proof.proofs {
+            if let Some(ref non_revoc_proof) = sub_proof.non_revoc_proof {
+                for c in non_revoc_proof.c_list.as_list()? {
+                    if c_list.next() != Some(&c) {
+                        return Ok(false);
+                    }
+                }
+            }
+
+            let mut commitments = vec![&sub_proof.primary_proof.eq_proof.a_prime];
+            for ne_proof in &sub_proof.primary_proof.ne_proofs {
+                for i in 0..ITERATION {
+                    match ne_proof.t.get(&i.to_string()) {
+                        Some(t) => commitments.push(t),
+                        None => return Ok(false),
+                    }
+                }
+                match ne_proof.t.get("DELTA") {
+                    Some(t) => commitments.push(t),
+                    None => return Ok(false),
+                }
+            }
+
+            for commitment in commitments {
+                match c_list.next() {
+                    Some(c) if *commitment == BigNumber::from_bytes(c)? => (),
+                    _ => return Ok(false),
+                }
+            }
+        }
+
+        Ok(c_list.next().is_none())
+    }
+
     fn _check_verify_params_consistency(
         credentials: &[VerifiableCredential],
         proof: &Proof,
-- 
2.43.0


From a5bdb2911446746f0aec8a1a2833ed18b1fe38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 10/45] fix: negate the blinded delta of a CL predicate proof
 instead of making it negative

A number and its negation were accepted alike.
---
 libursa/src/cl/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 5f80d3e..ffea77a 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -418,7 +418,7 @@ pub fn calc_tne<S: ::std::hash::BuildHasher>(
         )
     })?;
     let delta_predicate = if is_less {
-        delta.set_negative(true)?
+        delta.set_negative(!delta.is_negative())?
     } else {
         delta.try_clone()?
     };
-- 
2.43.0


From 8bc50e4537dd5dc0a1c2fe5d8b8cda9235d983bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 11/45] fix: a refused CL credential signature is left
 unchanged

After a failed attempt the right arguments were refused too.
---
 libursa/src/cl/prover.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 470515d..1d77b9b 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -235,13 +235,16 @@ impl Prover {
             witness
         );
 
+        // A refused signature must stay as it was
+        let mut processed = credential_signature.try_clone()?;
+
         Prover::_process_primary_credential(
-            &mut credential_signature.p_credential,
+            &mut processed.p_credential,
             &credential_secrets_blinding_factors.v_prime,
         )?;
 
         Prover::_check_signature_correctness_proof(
-            &credential_signature.p_credential,
+            &processed.p_credential,
             credential_values,
             signature_correctness_proof,
             &credential_pub_key.p_key,
@@ -256,7 +259,7 @@ impl Prover {
             Some(ref r_reg),
             Some(ref witness),
         ) = (
-            &mut credential_signature.r_credential,
+            &mut processed.r_credential,
             credential_secrets_blinding_factors.vr_prime,
             &credential_pub_key.r_key,
             rev_key_pub,
@@ -273,6 +276,8 @@ impl Prover {
             )?;
         }
 
+        *credential_signature = processed;
+
         trace!("Prover::process_credential_signature: <<<");
 
         Ok(())
-- 
2.43.0


From 06a7821f95075459926b65740705feb98643783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 12/45] fix: CL issuer returns an error for an incomplete proof
 of blinded secrets

---
 libursa/src/cl/issuer.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..0b19c4c 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1020,6 +1020,13 @@ impl Issuer {
         let mut values: Vec<u8> = Vec::new();
         let mut ctx = BigNumber::new_context()?;
 
+        let missing = |key: &str| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Value by key '{}' not found in correctness proof", key),
+            )
+        };
+
         let u_cap = blinded_cred_secrets.hidden_attributes.iter().fold(
             blinded_cred_secrets
                 .u
@@ -1045,7 +1052,10 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| missing(attr))?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1065,14 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = blinded_cred_secrets_correctness_proof
+                .m_caps
+                .get(key)
+                .ok_or_else(|| missing(key))?;
+            let r_cap = blinded_cred_secrets_correctness_proof
+                .r_caps
+                .get(key)
+                .ok_or_else(|| missing(key))?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1085,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From 574fa24316cd48affd333dfc186c4de72681031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 13/45] fix: four_squares finds the squares of large multiples
 of 4 in bounded time

---
 libursa/src/cl/helpers.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index ffea77a..8a16639 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,14 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    // Large multiples of 4 can have very few representations (2 * 4^n has one), which the search
+    // below finds only after trying nearly everything: the roots of 4 * d are twice those of d.
+    let mut d = delta as usize;
+    let mut scale = 1;
+    while d > 0x1_0000 && d % 4 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -525,10 +532,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
     }
 
     let res = hashmap![
-        "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
-        "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-        "2".to_string() => BigNumber::from_dec(&roots[2].to_string()[..])?,
-        "3".to_string() => BigNumber::from_dec(&roots[3].to_string()[..])?
+        "0".to_string() => BigNumber::from_dec(&(scale * roots[0]).to_string()[..])?,
+        "1".to_string() => BigNumber::from_dec(&(scale * roots[1]).to_string()[..])?,
+        "2".to_string() => BigNumber::from_dec(&(scale * roots[2]).to_string()[..])?,
+        "3".to_string() => BigNumber::from_dec(&(scale * roots[3]).to_string()[..])?
     ];
 
     trace!("Helpers::four_squares: <<< res: {:?}", res);
-- 
2.43.0


From cc4a13d6422d7de6211f94e721f6940ec76976c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 14/45] fix: CL registries refuse revocation indexes outside
 1..=max_cred_num

Index 0 and indexes above the capacity panicked or used the forbidden (L+1)th tail, and a failed
update left the registry partly changed.
---
 libursa/src/cl/helpers.rs | 15 +++++++++++++++
 libursa/src/cl/issuer.rs  | 25 ++++++++++++++-----------
 libursa/src/cl/mod.rs     | 15 ++++++++++++++-
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 8a16639..ef5e7ab 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -276,6 +276,21 @@ pub fn bitwise_or_big_int(a: &BigNumber, b: &BigNumber) -> UrsaCryptoResult<BigN
 }
 
 //Byte order: Little
+/// Indexes of a revocation registry are 1..=max_cred_num. Any other one would use a tail that
+/// does not exist, or the (L+1)th, which nobody may use.
+pub fn check_rev_idx(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<()> {
+    if rev_idx == 0 || rev_idx > max_cred_num {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+            format!(
+                "Revocation index {} is not in 1..={}",
+                rev_idx, max_cred_num
+            ),
+        ));
+    }
+    Ok(())
+}
+
 pub fn transform_u32_to_array_of_u8(x: u32) -> Vec<u8> {
     trace!("Helpers::transform_u32_to_array_of_u8: >>> x: {:?}", x);
 
diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 0b19c4c..6c19d0c 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -743,18 +743,20 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        let mut accum = rev_reg.accum;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
@@ -959,7 +961,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1309,8 +1311,9 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        check_rev_idx(max_cred_num, rev_idx)?;
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1333,6 +1336,8 @@ impl Issuer {
                secret!(rev_idx), secret!(cred_context), blinded_credential_secrets, cred_pub_key, secret!(cred_priv_key), max_cred_num,
                issuance_by_default, rev_reg, secret!(rev_key_priv));
 
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
+
         let ur = blinded_credential_secrets.ur.ok_or_else(|| {
             err_msg(
                 UrsaCryptoErrorKind::InvalidStructure,
@@ -1390,8 +1395,6 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
-
         let rev_reg_delta = if issuance_by_default {
             None
         } else {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index f4f1649..8463a2a 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -580,7 +580,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("There is no tail {}", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
@@ -688,6 +694,8 @@ impl Witness {
         trace!("Witness::new: >>> rev_idx: {:?}, max_cred_num: {:?}, issuance_by_default: {:?}, rev_reg_delta: {:?}",
                rev_idx, max_cred_num, issuance_by_default, rev_reg_delta);
 
+        helpers::check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega = PointG2::new_inf()?;
 
         let mut issued = if issuance_by_default {
@@ -700,6 +708,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
@@ -730,12 +739,15 @@ impl Witness {
             rev_reg_delta
         );
 
+        helpers::check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega_denom = PointG2::new_inf()?;
         for j in rev_reg_delta.revoked.iter() {
             if rev_idx.eq(j) {
                 continue;
             }
 
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
@@ -748,6 +760,7 @@ impl Witness {
                 continue;
             }
 
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
-- 
2.43.0


From 7c76c96b2feddc7d41ca004706a7111f9c2e828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 15/45] fix: CL proofs of non-revocation are bound to the
 credential of the primary proof

A holder of a revoked credential could use the non-revocation part of another credential, and the
short blinding of m2 let verifiers compute it and link presentations.
---
 libursa/src/cl/helpers.rs  | 24 ++++++++++++++++++++++++
 libursa/src/cl/prover.rs   |  2 +-
 libursa/src/cl/verifier.rs | 11 +++++++++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index ef5e7ab..7caa2fa 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -566,6 +566,30 @@ pub fn bignum_to_group_element(num: &BigNumber) -> UrsaCryptoResult<GroupOrderEl
     Ok(GroupOrderElement::from_bytes(&num.to_bytes()?)?)
 }
 
+fn group_order() -> UrsaCryptoResult<BigNumber> {
+    group_element_to_bignum(&GroupOrderElement::from_bytes(&[1])?.mod_neg()?)?
+        .add(&BigNumber::from_u32(1)?)
+}
+
+/// A random number of `LARGE_MVECT` bits which adds up to 0 with `el` modulo the group order.
+///
+/// The blinding of m2 in the primary proof. The two proofs blind m2 with opposite signs, so that
+/// their responses add up to 0 as well if (and only if) they are about the same m2.
+pub fn opposite_of_group_element(el: &GroupOrderElement) -> UrsaCryptoResult<BigNumber> {
+    let num = bn_rand(LARGE_MVECT)?;
+    let rest = num
+        .add(&group_element_to_bignum(el)?)?
+        .modulus(&group_order()?, None)?;
+    num.sub(&rest)
+}
+
+pub fn are_opposite(num: &BigNumber, el: &GroupOrderElement) -> UrsaCryptoResult<bool> {
+    let rest = num
+        .add(&group_element_to_bignum(el)?)?
+        .modulus(&group_order()?, None)?;
+    Ok(rest == BigNumber::from_u32(0)?)
+}
+
 pub fn create_tau_list_expected_values(
     r_pub_key: &CredentialRevocationPublicKey,
     rev_reg: &RevocationRegistry,
diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 1d77b9b..66bf923 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -985,7 +985,7 @@ impl ProofBuilder {
 
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
-            m2_tilde = Some(group_element_to_bignum(&proof.tau_list_params.m2)?);
+            m2_tilde = Some(opposite_of_group_element(&proof.tau_list_params.m2)?);
             non_revoc_init_proof = Some(proof);
         }
 
diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 6961503..75917d1 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -256,6 +256,17 @@ impl ProofVerifier {
                 credential.rev_reg.as_ref(),
                 credential.rev_key_pub.as_ref(),
             ) {
+                // The credential that is not revoked must be the one of the primary proof
+                if !are_opposite(
+                    &proof_item.primary_proof.eq_proof.m2,
+                    &non_revocation_proof.x_list.m2,
+                )? {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Proof of non-revocation is about another credential",
+                    ));
+                }
+
                 tau_list.extend_from_slice(
                     &ProofVerifier::_verify_non_revocation_proof(
                         &cred_rev_pub_key,
-- 
2.43.0


From 6c855b990c5a1abe317275ed8228b49238f71077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 16/45] fix: reading a malformed CL group element or scalar
 gives an error, not a panic

---
 libursa/src/pair/amcl.rs | 54 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..abb3b38 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -1,6 +1,6 @@
 use errors::prelude::*;
 
-use amcl::bn254::big::BIG;
+use amcl::bn254::big::{BASEBITS, BIG, NLEN};
 
 use amcl::bn254::rom::{
     CURVE_GX, CURVE_GY, CURVE_ORDER, CURVE_PXA, CURVE_PXB, CURVE_PYA, CURVE_PYB, MODBYTES,
@@ -8,6 +8,7 @@ use amcl::bn254::rom::{
 
 use amcl::bn254::ecp::ECP;
 use amcl::bn254::ecp2::ECP2;
+use amcl::bn254::fp::FEXCESS;
 use amcl::bn254::fp12::FP12;
 use amcl::bn254::fp2::FP2;
 use amcl::bn254::pair::{ate, ate2, fexp, g1mul, g2mul, gtpow};
@@ -48,6 +49,37 @@ impl PairMocksHelper {
     }
 }
 
+fn invalid_encoding() -> UrsaCryptoError {
+    err_msg(
+        UrsaCryptoErrorKind::InvalidStructure,
+        "Invalid string representation of a group element",
+    )
+}
+
+/// The parsers of the underlying library expect well-formed strings
+fn check_hex(str: &str, max_len: usize) -> UrsaCryptoResult<()> {
+    if str.is_empty() || str.len() > max_len || !str.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(invalid_encoding());
+    }
+    Ok(())
+}
+
+/// `count` field elements, each as its excess followed by its value
+fn check_coordinates(str: &str, count: usize) -> UrsaCryptoResult<()> {
+    let items: Vec<&str> = str.split_whitespace().collect();
+    if items.len() != 2 * count {
+        return Err(invalid_encoding());
+    }
+    for item in items.chunks(2) {
+        match item[0].parse::<i32>() {
+            Ok(excess) if excess >= 0 && excess <= FEXCESS => (),
+            _ => return Err(invalid_encoding()),
+        }
+        check_hex(item[1], NLEN * BASEBITS / 4)?;
+    }
+    Ok(())
+}
+
 #[cfg(not(test))]
 fn random_mod_order() -> UrsaCryptoResult<BIG> {
     _random_mod_order()
@@ -145,9 +177,12 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
-        Ok(PointG1 {
-            point: ECP::from_hex(str.to_string()),
-        })
+        check_coordinates(str, 3)?;
+        let point = ECP::from_hex(str.to_string());
+        if !point.is_infinity() && ECP::new_bigs(&point.getx(), &point.gety()).is_infinity() {
+            return Err(invalid_encoding());
+        }
+        Ok(PointG1 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -298,9 +333,12 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
-        Ok(PointG2 {
-            point: ECP2::from_hex(str.to_string()),
-        })
+        check_coordinates(str, 6)?;
+        let point = ECP2::from_hex(str.to_string());
+        if !point.is_infinity() && ECP2::new_fp2s(&point.getx(), &point.gety()).is_infinity() {
+            return Err(invalid_encoding());
+        }
+        Ok(PointG2 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -468,6 +506,7 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
+        check_hex(str, 2 * MODBYTES)?;
         Ok(GroupOrderElement {
             bn: BIG::from_hex(str.to_string()),
         })
@@ -604,6 +643,7 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        check_coordinates(str, 12)?;
         Ok(Pair {
             pair: FP12::from_hex(str.to_string()),
         })
-- 
2.43.0


From e9529c78aab1d147b95cc91a29aa0f5bf4c2678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 17/45] fix: CL issuer does not sign over hidden attributes;
 holder checks both parts of a signature belong together

---
 libursa/src/cl/issuer.rs |  8 ++++++++
 libursa/src/cl/prover.rs | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 6c19d0c..6c9f519 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1238,6 +1238,14 @@ impl Issuer {
             .iter()
             .filter(|&(_, v)| v.is_known())
         {
+            // Blinded secrets already fix the value of a hidden attribute
+            if blinded_cred_secrets.hidden_attributes.contains(key) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    format!("Value by key '{}' is hidden in the blinded secrets", key),
+                ));
+            }
+
             let pk_r = p_pub_key.r.get(key).ok_or_else(|| {
                 err_msg(
                     UrsaCryptoErrorKind::InvalidStructure,
diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 66bf923..7ddf2a5 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -251,6 +251,16 @@ impl Prover {
             nonce,
         )?;
 
+        if let Some(ref r_cred) = processed.r_credential {
+            let m2 = GroupOrderElement::from_bytes(&processed.p_credential.m_2.to_bytes()?)?;
+            if m2 != r_cred.m2 {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    "Primary and revocation signatures are for different credential contexts",
+                ));
+            }
+        }
+
         if let (
             &mut Some(ref mut non_revocation_cred),
             Some(ref vr_prime),
@@ -801,6 +811,15 @@ impl Prover {
                 "Issuer is sending incorrect data",
             ));
         }
+
+        let pair_u_i = Pair::pair(&cred_rev_pub_key.g, &r_cred.witness_signature.u_i)?;
+        if pair_u_i != Pair::pair(&r_cred.g_i, &cred_rev_pub_key.u)? {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Issuer is sending incorrect data",
+            ));
+        }
+
         let pair_gg_calc = Pair::pair(
             &cred_rev_pub_key.pk.add(&r_cred.g_i)?,
             &r_cred.witness_signature.sigma_i,
-- 
2.43.0


From 4612570a63a074cdfb81eff2169a8a9845587a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 18/45] fix: BLS (BN254) refuses identity keys and signatures,
 empty key lists and bytes that are no point

---
 libursa/src/bls/mod.rs   | 11 ++++++++++-
 libursa/src/pair/amcl.rs | 24 ++++++++++++++++++++----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index fbc86a0..e6741a9 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -542,8 +542,12 @@ impl Bls {
     ) -> UrsaCryptoResult<bool> {
         // Since each signer (identified by a Verkey) has signed the same message, the public keys
         // can be added together to form the aggregated verkey
-        let mut aggregated_verkey = PointG2::new_inf()?;
+        let identity = PointG2::new_inf()?;
+        let mut aggregated_verkey = identity;
         for ver_key in ver_keys {
+            if ver_key.point == identity {
+                return Ok(false);
+            }
             aggregated_verkey = aggregated_verkey.add(&ver_key.point)?;
         }
 
@@ -577,6 +581,11 @@ impl Bls {
     where
         T: Digest,
     {
+        // The identity verifies with the identity for every message
+        if signature.is_inf()? || *ver_key == PointG2::new_inf()? {
+            return Ok(false);
+        }
+
         let h = Bls::_hash(message, hasher)?;
         // e(&signature, &gen.point) == e(&h, &ver_key) => 1 == e(&h, &ver_key)*e(&signature, &gen.point)^-1 == e(&h, &ver_key)*e(&signature, -&gen.point)
         Pair::pair2(&signature, &gen.point.neg()?, &h, &ver_key)?.is_unity()
diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index abb3b38..69648fa 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -198,9 +198,17 @@ impl PointG1 {
                 "Invalid len of bytes representation for PointG1",
             ));
         }
-        Ok(PointG1 {
+        let res = PointG1 {
             point: ECP::frombytes(b),
-        })
+        };
+        // Bytes that are no point are read as the point at infinity
+        if res.point.is_infinity() || res.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG1",
+            ));
+        }
+        Ok(res)
     }
 
     pub fn from_hash(hash: &[u8]) -> UrsaCryptoResult<PointG1> {
@@ -354,9 +362,17 @@ impl PointG2 {
                 "Invalid len of bytes representation for PoingG2",
             ));
         }
-        Ok(PointG2 {
+        let res = PointG2 {
             point: ECP2::frombytes(b),
-        })
+        };
+        // Bytes that are no point are read as the point at infinity
+        if res.point.is_infinity() || res.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG2",
+            ));
+        }
+        Ok(res)
     }
 }
 
-- 
2.43.0


From d63c5e2ff0a46899dc63e6e44e3da3f0156401aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:45 +0000
Subject: [PATCH 19/45] fix: BLS (BLS12-381) refuses identity keys and
 signatures, empty lists, and bytes that are no point

---
 libursa/src/signatures/bls.rs | 82 ++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 7c73c7f..df6fa72 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -23,6 +23,25 @@ pub const PRIVATE_KEY_SIZE: usize = MODBYTES;
 /// instead of wrapping it as a private field
 pub type PrivateKey = FieldElement;
 
+/// Reads a point in the compressed or uncompressed form told by its first byte
+fn point_from_bytes<G: GroupElement>(bytes: &[u8]) -> Result<G, CryptoError> {
+    let compressed = match bytes.first() {
+        Some(&0x02) | Some(&0x03) => true,
+        Some(&0x04) => false,
+        _ => return Err(CryptoError::ParseError("Invalid point".to_string())),
+    };
+    if bytes.len() != G::generator().to_bytes(compressed).len() {
+        return Err(CryptoError::ParseError("Invalid point length".to_string()));
+    }
+    let point =
+        G::from_bytes(bytes).map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
+    // Bytes that are no point are read as the identity
+    if point.is_identity() || point.to_bytes(compressed).as_slice() != bytes {
+        return Err(CryptoError::ParseError("Invalid point".to_string()));
+    }
+    Ok(point)
+}
+
 macro_rules! bls_impl {
     ($pk_size:expr, $sig_size:expr, $pk_group:ident, $sig_group:ident, $ate_2_pairing_is_one:ident, $set_pairs:ident) => {
         pub const PUBLIC_KEY_SIZE: usize = $pk_size;
@@ -46,6 +65,16 @@ macro_rules! bls_impl {
             hash_to_point(message, ctx)
         }
 
+        // The identity verifies with the identity for every message
+        fn verify_hash(
+            sig: &SignatureGroup,
+            hash: &SignatureGroup,
+            pk: &Generator,
+            g: &Generator,
+        ) -> bool {
+            !sig.is_identity() && !pk.is_identity() && $ate_2_pairing_is_one(g, sig, pk, hash)
+        }
+
         fn hash_key(pk: &PublicKey, context: Option<&'static [u8]>) -> SignatureGroup {
             let ctx: &[u8] = context.unwrap_or(PUBLICKEY_CONTEXT);
             hash_to_point(pk.to_bytes(), ctx)
@@ -175,9 +204,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(PublicKey(Generator::from_bytes(bytes).map_err(|e| {
-                    CryptoError::ParseError(format!("{:?}", e))
-                })?))
+                Ok(PublicKey(point_from_bytes(bytes)?))
             }
         }
 
@@ -218,9 +245,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedPublicKey(Generator::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(AggregatedPublicKey(point_from_bytes(bytes)?))
             }
         }
 
@@ -290,7 +315,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                verify_hash(&self.0, &hash, &pk.0, g)
             }
 
             // Caller should aggregate all signatures into `self` by using `combine`.
@@ -303,6 +328,12 @@ macro_rules! bls_impl {
                 context: Option<&'static [u8]>,
                 g: &Generator,
             ) -> bool {
+                if inputs.is_empty()
+                    || self.0.is_identity()
+                    || inputs.iter().any(|(_, pk)| pk.0.is_identity())
+                {
+                    return false;
+                }
                 let mut msg_check = ::std::collections::HashSet::new();
                 let mut pairs = Vec::new();
                 for (msg, pk) in inputs {
@@ -327,6 +358,13 @@ macro_rules! bls_impl {
                 // To avoid rogue key attacks, you must use proof of possession or `AggregateSignature::batch_verify`
                 // This function just avoids checking for distinct messages and
                 // uses batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.is_empty()
+                    || inputs
+                        .iter()
+                        .any(|(_, asg, apk)| asg.0.is_identity() || apk.0.is_identity())
+                {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
@@ -347,9 +385,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(Signature(SignatureGroup::from_bytes(bytes).map_err(
-                    |e| CryptoError::ParseError(format!("{:?}", e)),
-                )?))
+                Ok(Signature(point_from_bytes(bytes)?))
             }
         }
 
@@ -372,10 +408,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(ProofOfPossession(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(ProofOfPossession(point_from_bytes(bytes)?))
             }
 
             pub fn verify(
@@ -385,7 +418,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_key(pk, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                verify_hash(&self.0, &hash, &pk.0, g)
             }
         }
 
@@ -414,7 +447,7 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
+                verify_hash(&self.0, &hash, &pk.0, g)
             }
 
             // Verify without rogue key mitigation. Assumes caller has handled
@@ -428,9 +461,12 @@ macro_rules! bls_impl {
                 pks: &[PublicKey],
                 g: &Generator,
             ) -> bool {
+                if pks.iter().any(|p| p.0.is_identity()) {
+                    return false;
+                }
                 let apk = pks.iter().fold(Generator::identity(), |a, p| a + &p.0);
                 let hash = hash_msg(message, context);
-                $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
+                verify_hash(&self.0, &hash, &apk, g)
             }
 
             /// This should be used to verify quickly multiple BLS aggregated signatures by batching
@@ -446,6 +482,13 @@ macro_rules! bls_impl {
             ) -> bool {
                 // To combat the rogue key attack and avoid checking for distinct messages
                 // use batch verification as described in the end of section 3.1 from https://eprint.iacr.org/2018/483
+                if inputs.is_empty()
+                    || inputs
+                        .iter()
+                        .any(|(_, asg, apk)| asg.0.is_identity() || apk.0.is_identity())
+                {
+                    return false;
+                }
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
@@ -466,10 +509,7 @@ macro_rules! bls_impl {
             }
 
             pub fn from_bytes(bytes: &[u8]) -> Result<Self, CryptoError> {
-                Ok(AggregatedSignature(
-                    SignatureGroup::from_bytes(bytes)
-                        .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?,
-                ))
+                Ok(AggregatedSignature(point_from_bytes(bytes)?))
             }
         }
     };
-- 
2.43.0


From fe156f8fb940e2ffd8069161d5e38f9604924415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 20/45] fix: signatures and key exchange refuse malformed keys
 and seeds with an error

---
 libursa/src/kex/secp256k1.rs        | 25 ++++++++++++++++++++++++-
 libursa/src/kex/x25519.rs           | 23 +++++++++++++++++++++--
 libursa/src/signatures/ed25519.rs   | 18 ++++++++++++++----
 libursa/src/signatures/mod.rs       |  3 +--
 libursa/src/signatures/secp256k1.rs |  5 +++++
 5 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..c384035 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -69,6 +69,11 @@ mod ecdh_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
@@ -131,6 +136,15 @@ mod ecdh_secp256k1 {
     use sha2::Digest;
     use zeroize::Zeroize;
 
+    fn check_private_key(sk: &PrivateKey) -> Result<(), CryptoError> {
+        if sk.len() != PRIVATE_KEY_SIZE {
+            return Err(CryptoError::ParseError(
+                "Invalid private key length".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
     pub struct EcdhSecp256k1Impl;
 
@@ -150,6 +164,11 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
@@ -158,7 +177,10 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        check_private_key(s)?;
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
@@ -183,6 +205,7 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            check_private_key(local_private_key)?;
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..e9f2ceb 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -10,6 +10,16 @@ use CryptoError;
 
 pub struct X25519Sha256;
 
+fn secret_from_bytes(sk: &PrivateKey) -> Result<StaticSecret, CryptoError> {
+    // An ed25519 private key is longer, the secret is its first half
+    if sk.len() < 32 {
+        return Err(CryptoError::ParseError(
+            "Invalid private key length".to_string(),
+        ));
+    }
+    Ok(StaticSecret::from(*array_ref!(&sk[..], 0, 32)))
+}
+
 impl KeyExchangeScheme for X25519Sha256 {
     fn new() -> Self {
         Self
@@ -30,7 +40,7 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
-                    let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
+                    let sk = secret_from_bytes(s)?;
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
                 }
@@ -53,9 +63,18 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
-        let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
+        let sk = secret_from_bytes(local_private_key)?;
+        if remote_public_key.len() != 32 {
+            return Err(CryptoError::ParseError(
+                "Invalid public key length".to_string(),
+            ));
+        }
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
+        // With a public key of low order everybody gets the same secret
+        if shared_secret.as_bytes().iter().all(|b| *b == 0) {
+            return Err(CryptoError::ParseError("Invalid public key".to_string()));
+        }
         let hash = sha2::Sha256::digest(shared_secret.as_bytes());
         Ok(SessionKey(hash.as_slice().to_vec()))
     }
diff --git a/libursa/src/signatures/ed25519.rs b/libursa/src/signatures/ed25519.rs
index f113450..1884792 100644
--- a/libursa/src/signatures/ed25519.rs
+++ b/libursa/src/signatures/ed25519.rs
@@ -106,6 +106,18 @@ impl Ed25519Sha512 {
     }
 }
 
+/// Reads a private key, which holds the secret and its public key
+fn keypair_from_bytes(sk: &PrivateKey) -> Result<Keypair, CryptoError> {
+    let kp = Keypair::from_bytes(&sk[..]).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+    // Signing with another's public key gives the secret away
+    if PK::from(&kp.secret) != kp.public {
+        return Err(CryptoError::KeyGenError(
+            "Private key and public key do not match".to_string(),
+        ));
+    }
+    Ok(kp)
+}
+
 impl SignatureScheme for Ed25519Sha512 {
     fn new() -> Self {
         Self
@@ -122,8 +134,7 @@ impl SignatureScheme for Ed25519Sha512 {
                     let mut rng = ChaChaRng::from_seed(*array_ref!(hash.as_slice(), 0, 32));
                     Keypair::generate(&mut rng)
                 }
-                KeyGenOption::FromSecretKey(ref s) => Keypair::from_bytes(&s[..])
-                    .map_err(|e| CryptoError::KeyGenError(e.to_string()))?,
+                KeyGenOption::FromSecretKey(ref s) => keypair_from_bytes(s)?,
             },
             None => {
                 let mut rng = OsRng::default();
@@ -136,8 +147,7 @@ impl SignatureScheme for Ed25519Sha512 {
         ))
     }
     fn sign(&self, message: &[u8], sk: &PrivateKey) -> Result<Vec<u8>, CryptoError> {
-        let kp =
-            Keypair::from_bytes(&sk[..]).map_err(|e| CryptoError::KeyGenError(e.to_string()))?;
+        let kp = keypair_from_bytes(sk)?;
         Ok(kp.sign(message).to_bytes().to_vec())
     }
     fn verify(
diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..65a4a77 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,11 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "Seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From 3c983c8abcd445fed77d3c75030518a0c509de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 21/45] fix: symmetric ciphers decrypt short plaintexts and
 refuse keys and nonces of a wrong length

---
 libursa/src/encryption/symm/aescbc.rs         |  3 ++-
 libursa/src/encryption/symm/aesgcm.rs         |  6 ++---
 .../src/encryption/symm/chacha20poly1305.rs   |  4 +--
 libursa/src/encryption/symm/mod.rs            | 26 ++++++++++++++-----
 .../src/encryption/symm/xchacha20poly1305.rs  |  4 +--
 5 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..b4cb9d4 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,8 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                // The padded plaintext has at least one block
+                if payload.msg.len() < Self::TagSize::to_usize() + U16::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..79aee28 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,6 +81,10 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
+                        let size = <<$name as NewAead>::KeySize as ::aead::generic_array::typenum::Unsigned>::to_usize();
+                        if key.len() != size {
+                            return Err(E::invalid_length(key.len(), &self));
+                        }
                         Ok($name::new(GenericArray::from_slice(key.as_slice())))
                     }
                 }
@@ -147,6 +151,9 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        if key.as_ref().len() != E::KeySize::to_usize() {
+            return Err(Error);
+        }
         Ok(Self {
             encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
         })
@@ -165,7 +172,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce_from_slice::<E>(nonce.as_ref())?;
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
@@ -192,7 +199,7 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = nonce_from_slice::<E>(nonce.as_ref())?;
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
@@ -319,9 +326,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = nonce_from_slice::<D>(nonce)?;
         let payload = Payload { msg, aad };
-        self.encrypt(&nonce, payload)
+        self.encrypt(nonce, payload)
     }
 
     fn decrypt_easy(&self, aad: &[u8], ciphertext: &[u8]) -> Result<Vec<u8>, Error> {
@@ -329,9 +336,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = nonce_from_slice::<D>(nonce)?;
         let payload = Payload { msg, aad };
-        self.decrypt(&nonce, payload)
+        self.decrypt(nonce, payload)
     }
 }
 
@@ -457,6 +464,13 @@ impl std::fmt::Display for EncryptorType {
     }
 }
 
+fn nonce_from_slice<E: Aead>(nonce: &[u8]) -> Result<&GenericArray<u8, E::NonceSize>, Error> {
+    if nonce.len() != E::NonceSize::to_usize() {
+        return Err(Error);
+    }
+    Ok(GenericArray::from_slice(nonce))
+}
+
 fn read_buffer<I: Read>(buffer: &mut I) -> Result<Vec<u8>, Error> {
     let mut v = Vec::new();
     let bytes_read = buffer.read_to_end(&mut v).map_err(|_| Error)?;
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From a5f1d01e4bfed07618d9cc4bb1dcf6a82a30d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 22/45] fix: Shamir sharing refuses shares that alias in the
 field and empty share bytes

---
 libursa/src/sharing/shamir.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..73f48b6 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::GeneralError(
+                "share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
@@ -283,6 +288,12 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    // the identifiers 1..=total must be distinct and non-zero in the field
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "total must be less than the size of the field".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
@@ -345,10 +356,13 @@ pub fn combine_shares<B: AsRef<[Share]>>(shares: B, field: &BigNumber) -> Crypto
             ));
         }
         dups.insert(share.identifier);
-        x_coordinates.push(Element::from_bytes(
-            field.try_clone()?,
-            &[share.identifier],
-        )?);
+        let x = Element::from_bytes(field.try_clone()?, &[share.identifier])?;
+        if &x.value == &zero {
+            return Err(CryptoError::GeneralError(
+                "Share must have an identifier that is non-zero in the field".to_string(),
+            ));
+        }
+        x_coordinates.push(x);
         y_coordinates.push(Element {
             modulus: field.try_clone()?,
             value: share.value.try_clone()?,
-- 
2.43.0


From 527777c28f0e42e4674f3cce4d8eafc9f6db9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 23/45] fix: BBS+ refuses positions out of range, mismatched
 revealed sets, and malformed or oversized encodings; JSON reads back

---
 libzmix/bbs/src/keys.rs      |  9 ++++++--
 libzmix/bbs/src/lib.rs       | 41 ++++++++++++++++++++++++++++++++++--
 libzmix/bbs/src/macros.rs    | 18 ++++++++++++++++
 libzmix/bbs/src/pok_sig.rs   | 16 +++++++++-----
 libzmix/bbs/src/pok_vc.rs    |  5 +++--
 libzmix/bbs/src/prover.rs    |  2 +-
 libzmix/bbs/src/signature.rs |  8 ++++++-
 libzmix/bbs/src/verifier.rs  | 23 +++++++++++++++++++-
 8 files changed, 108 insertions(+), 14 deletions(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..e4b374b 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,8 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        // w takes as many bytes as two elements of G1
+        if data.len() < 3 * g1_size + 4 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -132,9 +133,13 @@ impl PublicKey {
         let h0 = GeneratorG1(G1::deserialize(&mut c, compressed)?);
 
         let mut h_bytes = [0u8; 4];
-        c.read_exact(&mut h_bytes).unwrap();
+        c.read_exact(&mut h_bytes)?;
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        let h_len = data.len() - 3 * g1_size - 4;
+        if h_len % g1_size != 0 || h_len / g1_size != h_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..c0724c6 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -444,6 +444,15 @@ impl BlindSignatureContext {
         verkey: &PublicKey,
         nonce: &ProofNonce,
     ) -> Result<bool, BBSError> {
+        for i in revealed_messages {
+            if *i >= verkey.message_count() {
+                return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
+                    *i,
+                    verkey.message_count(),
+                )
+                .into());
+            }
+        }
         // Verify the proof
         // First get the generators used to create the commitment
         let mut bases = Vec::new();
@@ -552,9 +561,19 @@ impl ProofRequest {
             return Err(BBSErrorKind::InvalidNumberOfBytes(min_len, data.len()).into());
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
+        if data.len() - 4 < bitvector_len {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(bitvector_len, data.len() - 4).into());
+        }
         let offset = 4 + bitvector_len;
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
+        let total = verification_key.message_count();
+        if bitvector_len != total / 8 + 1 || revealed_messages.iter().any(|i| *i >= total) {
+            return Err(BBSErrorKind::GeneralError {
+                msg: "The revealed messages do not fit the public key".to_string(),
+            }
+            .into());
+        }
         Ok(Self {
             revealed_messages,
             verification_key,
@@ -647,11 +666,24 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() < proof_len + 4 {
+            return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                proof_len + 4,
+                data.len(),
+            )));
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
         let revealed_messages_len = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
         offset += 4;
+        let expected = offset + revealed_messages_len * (4 + FR_COMPRESSED_SIZE);
+        if data.len() != expected {
+            return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                expected,
+                data.len(),
+            )));
+        }
         let mut end = offset + 4;
 
         let mut revealed_messages = BTreeMap::new();
@@ -661,12 +693,17 @@ impl SignatureProof {
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
 
-            revealed_messages.insert(i, m);
+            if revealed_messages.insert(i, m).is_some() {
+                return Err(BBSErrorKind::GeneralError {
+                    msg: format!("Message {} is revealed more than once", i),
+                }
+                .into());
+            }
         }
 
         Ok(Self {
diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..e64d2df 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -19,6 +19,9 @@ macro_rules! from_impl {
             type Error = BBSError;
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
+                if value.len() != $size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($size, value.len()).into());
+                }
                 let mut value = value;
                 let inner = $type::deserialize(&mut value, true)?;
                 Ok(Self(inner))
@@ -79,6 +82,9 @@ macro_rules! from_impl {
             type Error = BBSError;
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
+                if value.len() != $comp_size && value.len() != $uncomp_size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($comp_size, value.len()).into());
+                }
                 let inner = $type::deserialize(&mut value.as_ref(), value.len() == $comp_size)?;
                 Ok(Self(inner))
             }
@@ -218,6 +224,18 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // formats without byte strings, like JSON, write them as sequences
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value = Vec::new();
+                        while let Some(b) = seq.next_element::<u8>()? {
+                            value.push(b);
+                        }
+                        self.visit_bytes(value.as_slice())
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..456c726 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        let count = self.proof_vc_2.responses.len().saturating_sub(2);
+        if msg_idx >= count {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    msg_idx, count
                 ),
             }));
         }
@@ -450,9 +450,9 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
@@ -473,6 +473,12 @@ impl PoKOfSignatureProof {
         let proof1_bytes = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
 
         offset = end;
+        if data.len() - offset < proof1_bytes {
+            return Err(BBSError::from_kind(BBSErrorKind::InvalidNumberOfBytes(
+                proof1_bytes,
+                data.len() - offset,
+            )));
+        }
         end = offset + proof1_bytes;
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
diff --git a/libzmix/bbs/src/pok_vc.rs b/libzmix/bbs/src/pok_vc.rs
index bc922ad..ed9df93 100644
--- a/libzmix/bbs/src/pok_vc.rs
+++ b/libzmix/bbs/src/pok_vc.rs
@@ -387,10 +387,11 @@ impl ProofG1 {
         let commitment = slice_to_elem!(&mut c, G1, compressed)?;
 
         let mut length_bytes = [0u8; 4];
-        c.read_exact(&mut length_bytes).unwrap();
+        c.read_exact(&mut length_bytes)?;
         let length = u32::from_be_bytes(length_bytes) as usize;
 
-        if data.len() < g_size + 4 + length * FR_COMPRESSED_SIZE {
+        let responses_len = data.len() - g_size - 4;
+        if responses_len % FR_COMPRESSED_SIZE != 0 || responses_len / FR_COMPRESSED_SIZE != length {
             return Err(PoKVCErrorKind::GeneralError {
                 msg: "Invalid length".to_string(),
             }
diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..7fb0c9e 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -83,8 +83,11 @@ macro_rules! try_from_impl {
             type Error = BBSError;
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
-                let mut value = value;
                 let compressed = value.len() == SIGNATURE_COMPRESSED_SIZE;
+                if !compressed && value.len() != SIGNATURE_UNCOMPRESSED_SIZE {
+                    return Err(BBSErrorKind::SignatureIncorrectSize(value.len()).into());
+                }
+                let mut value = value;
                 let a = G1::deserialize(&mut value, compressed)?;
                 let e = Fr::deserialize(&mut value, compressed)?;
                 let s = Fr::deserialize(&mut value, compressed)?;
@@ -160,6 +163,9 @@ impl BlindSignature {
             verkey.message_count(),
             messages.len()
         );
+        for i in messages.keys() {
+            check_verkey_message!(*i >= verkey.message_count(), verkey.message_count(), *i);
+        }
         signkey.validate()?;
         verkey.validate()?;
         let e = rand_non_zero_fr();
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..fc63194 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
@@ -46,6 +46,17 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        // the proof must reveal what was asked for, no more and no less
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
@@ -85,6 +96,16 @@ impl Verifier {
         nonce: &ProofNonce,
         claims: Option<&[&[u8]]>,
     ) -> Result<ProofChallenge, BBSError> {
+        if proofs.len() != proof_requests.len() {
+            return Err(BBSErrorKind::GeneralError {
+                msg: format!(
+                    "{} proofs were given for {} requests",
+                    proofs.len(),
+                    proof_requests.len()
+                ),
+            }
+            .into());
+        }
         let mut bytes = Vec::new();
 
         for pr in proofs.iter().zip(proof_requests.iter()) {
-- 
2.43.0


From dc85611abe11f09df18523ad398ac8076ebc8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 24/45] fix: PS proofs refuse revealed positions out of range
 and read back from their own bytes

---
 libzmix/src/signatures/ps/mod.rs     |  4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..6c65e85 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let hidden_msg_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= hidden_msg_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, hidden_msg_count
                 ),
             }
             .into());
@@ -210,6 +210,14 @@ impl PoKOfSignatureProof {
         if self.sig.sigma_1.is_identity() || self.sig.sigma_2.is_identity() {
             return Ok(false);
         }
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
 
         // +1 for `t`
         let hidden_msg_count = vk.Y_tilde.len() - revealed_msgs.len() + 1;
-- 
2.43.0


From 12ec02b147d538f99f7359b7587ae2d383eb7923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 25/45] fix: delegatable credentials check the shapes of
 signatures, chains, tokens and revealed positions

---
 .../delg_cred_cdd/attribute_token.rs          | 210 +++++++++++++++++-
 .../src/signatures/delg_cred_cdd/groth_sig.rs |  42 +++-
 .../src/signatures/delg_cred_cdd/issuer.rs    |  25 ++-
 3 files changed, 265 insertions(+), 12 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 6b8da89..5ef2834 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -240,6 +240,27 @@ impl<'a> AttributeToken<'a> {
         odd_level_vks: Vec<&OddLevelVerkey>,
     ) -> DelgCredCDDResult<AttributeTokenResp> {
         at.validate(self.L)?;
+        if self.L == 0 || self.blindings_s.len() != self.L {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: "no commitment was made".to_string(),
+            }
+            .into());
+        }
+        // The verkeys of all levels but the last are needed
+        if odd_level_vks.len() < self.L / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfOddLevelVerkeys {
+                expected: self.L / 2,
+                given: odd_level_vks.len(),
+            }
+            .into());
+        }
+        if even_level_vks.len() < (self.L - 1) / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenLevelVerkeys {
+                expected: (self.L - 1) / 2,
+                given: even_level_vks.len(),
+            }
+            .into());
+        }
 
         let mut resp_csk = FieldElement::zero();
         let mut odd_level_resp_vk = G1Vector::new(0);
@@ -272,6 +293,11 @@ impl<'a> AttributeToken<'a> {
                     resp_csk = &self.blindings_vk[i - 1] + (challenge * sig_key);
                 }
 
+                let revealed = at.odd_level_revealed_attributes[i / 2]
+                    .keys()
+                    .cloned()
+                    .collect();
+                check_revealed_indices(&revealed, link.attribute_count())?;
                 // Total messages - revealed attributes - last message (for verkey)
                 let unrevealed_attr_count =
                     link.attribute_count() - at.odd_level_revealed_attributes[i / 2].len() - 1;
@@ -325,6 +351,11 @@ impl<'a> AttributeToken<'a> {
                     resp_csk = &self.blindings_vk[i - 1] + (challenge * sig_key);
                 }
 
+                let revealed = at.even_level_revealed_attributes[(i / 2) - 1]
+                    .keys()
+                    .cloned()
+                    .collect();
+                check_revealed_indices(&revealed, link.attribute_count())?;
                 // Total messages - revealed attributes - last message (for verkey)
                 let unrevealed_attr_count = link.attribute_count()
                     - at.even_level_revealed_attributes[(i / 2) - 1].len()
@@ -401,6 +432,14 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        check_shape(
+            L,
+            comm,
+            resp,
+            &revealed,
+            setup_params_1.y.len(),
+            setup_params_2.y.len(),
+        )?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -715,6 +754,36 @@ impl<'a> AttributeToken<'a> {
             );
         }
 
+        if self.L == 0 {
+            return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
+        }
+        for i in 1..=self.L {
+            let (attribute_count, max_count) = if i % 2 == 1 {
+                (
+                    self.cred_chain.get_odd_link(i / 2)?.attribute_count(),
+                    self.setup_params_1.y.len(),
+                )
+            } else {
+                (
+                    self.cred_chain
+                        .get_even_link((i / 2) - 1)?
+                        .attribute_count(),
+                    self.setup_params_2.y.len(),
+                )
+            };
+            check_attribute_count(attribute_count, max_count)?;
+            check_revealed_indices(&revealed[i - 1], attribute_count)?;
+        }
+
+        // A token may be committed to more than once, the last commitment counts
+        self.odd_level_blinded_sigs.clear();
+        self.even_level_blinded_sigs.clear();
+        self.blindings_sigs = FieldElementVector::with_capacity(self.L);
+        self.blindings_vk = FieldElementVector::with_capacity(self.L);
+        self.blindings_s = FieldElementVector::with_capacity(self.L);
+        self.blindings_t.clear();
+        self.blindings_a.clear();
+
         let mut odd_level_revealed_attributes =
             Vec::<HashMap<usize, OddLevelAttribute>>::with_capacity(self.L);
         let mut even_level_revealed_attributes =
@@ -935,6 +1004,14 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        check_shape(
+            L,
+            comm,
+            resp,
+            &revealed,
+            setup_params_1.y.len(),
+            setup_params_2.y.len(),
+        )?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -1324,13 +1401,19 @@ impl AttributeTokenComm {
             }
         }
         for r_map in &self.odd_level_revealed_attributes {
-            for e in r_map.iter() {
+            // The order in which the map holds its entries is arbitrary
+            let mut entries = r_map.iter().collect::<Vec<_>>();
+            entries.sort_by_key(|e| *e.0);
+            for e in entries {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
         }
         for r_map in &self.even_level_revealed_attributes {
-            for e in r_map.iter() {
+            // The order in which the map holds its entries is arbitrary
+            let mut entries = r_map.iter().collect::<Vec<_>>();
+            entries.sort_by_key(|e| *e.0);
+            for e in entries {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
@@ -1358,10 +1441,133 @@ impl AttributeTokenResp {
             }
             .into());
         }
+
+        check_odd_collection_length!(self.odd_level_resp_s, L, "s from signature".to_string())?;
+        check_even_collection_length!(self.even_level_resp_s, L, "s from signature".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_t, L, "t from signature".to_string())?;
+        check_even_collection_length!(self.even_level_resp_t, L, "t from signature".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_a, L, "attributes".to_string())?;
+        check_even_collection_length!(self.even_level_resp_a, L, "attributes".to_string())?;
+
+        // There is no response for the verkey of the last level
+        let verkeys = L.saturating_sub(1);
+        check_odd_collection_length!(self.odd_level_resp_vk, verkeys, "verkeys".to_string())?;
+        check_even_collection_length!(self.even_level_resp_vk, verkeys, "verkeys".to_string())?;
         Ok(())
     }
 }
 
+/// Each link has at least the delegatee's verkey and not more attributes than the setup parameters support
+fn check_attribute_count(attribute_count: usize, max_count: usize) -> DelgCredCDDResult<()> {
+    if attribute_count == 0 {
+        return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
+    }
+    if attribute_count > max_count {
+        return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+            expected: max_count,
+            given: attribute_count,
+        }
+        .into());
+    }
+    Ok(())
+}
+
+/// Only attributes can be revealed. The last one is the delegatee's verkey
+fn check_revealed_indices(
+    revealed: &HashSet<usize>,
+    attribute_count: usize,
+) -> DelgCredCDDResult<()> {
+    for idx in revealed {
+        if *idx + 1 >= attribute_count {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: format!(
+                    "revealed attribute index {} should be less than {}",
+                    idx,
+                    attribute_count.saturating_sub(1)
+                ),
+            }
+            .into());
+        }
+    }
+    Ok(())
+}
+
+/// Check that a token has as many values for each level as its commitment says and that it reveals the
+/// attributes it should and no other.
+fn check_shape(
+    L: usize,
+    comm: &AttributeTokenComm,
+    resp: &AttributeTokenResp,
+    revealed: &[HashSet<usize>],
+    max_count_1: usize,
+    max_count_2: usize,
+) -> DelgCredCDDResult<()> {
+    if L == 0 {
+        return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
+    }
+    if revealed.len() != L {
+        return Err(
+            DelgCredCDDErrorKind::IncorrectNumberOfRevealedAttributeSets {
+                expected: L,
+                given: revealed.len(),
+            }
+            .into(),
+        );
+    }
+    for i in 1..=L {
+        let attribute_count = comm.comms_t[i - 1].len();
+        let (max_count, in_comm, resp_t, resp_a): (usize, HashSet<usize>, usize, usize) =
+            if i % 2 == 1 {
+                (
+                    max_count_1,
+                    comm.odd_level_revealed_attributes[i / 2]
+                        .keys()
+                        .cloned()
+                        .collect(),
+                    resp.odd_level_resp_t[i / 2].len(),
+                    resp.odd_level_resp_a[i / 2].len(),
+                )
+            } else {
+                (
+                    max_count_2,
+                    comm.even_level_revealed_attributes[(i / 2) - 1]
+                        .keys()
+                        .cloned()
+                        .collect(),
+                    resp.even_level_resp_t[(i / 2) - 1].len(),
+                    resp.even_level_resp_a[(i / 2) - 1].len(),
+                )
+            };
+        check_attribute_count(attribute_count, max_count)?;
+        check_revealed_indices(&revealed[i - 1], attribute_count)?;
+        if in_comm != revealed[i - 1] {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: format!("level {} does not reveal the attributes it should", i),
+            }
+            .into());
+        }
+        if resp_t != attribute_count {
+            return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                count_commitments: attribute_count,
+                count_responses: resp_t,
+                entity_type: "t from signature".to_string(),
+            }
+            .into());
+        }
+        // Skipping 1 for verkey
+        let unrevealed_attr_count = attribute_count - 1 - in_comm.len();
+        if unrevealed_attr_count != resp_a {
+            return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                count_commitments: unrevealed_attr_count,
+                count_responses: resp_a,
+                entity_type: "unrevealed attributes".to_string(),
+            }
+            .into());
+        }
+    }
+    Ok(())
+}
+
 // XXX: Temporary until binary_scalar_mul is added to G2
 fn binary_scalar_mul_g2(g2: &G2, h2: &G2, r1: &FieldElement, r2: &FieldElement) -> G2 {
     let mut g2_vec = G2Vector::with_capacity(2);
diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..296ca4b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -88,7 +88,7 @@ macro_rules! impl_GrothS_setup {
 
 macro_rules! impl_GrothSig_new {
     ( $messages:ident, $sk:ident, $y:expr, $g_r:expr, $g_s:expr, $msg_group_vec:ident ) => {{
-        if $messages.len() > $y.len() {
+        if $y.len() == 0 || $messages.len() > $y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: $y.len(),
                 given: $messages.len(),
@@ -204,13 +204,21 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        // The signature has one element for each message
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -255,13 +263,21 @@ impl Groth1Sig {
         verkey: &Groth1Verkey,
         setup_params: &Groth1SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        // The signature has one element for each message
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -376,13 +392,21 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        // The signature has one element for each message
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -426,13 +450,21 @@ impl Groth2Sig {
         verkey: &Groth2Verkey,
         setup_params: &Groth2SetupParams,
     ) -> DelgCredCDDResult<bool> {
-        if messages.len() > setup_params.y.len() {
+        if setup_params.y.len() == 0 || messages.len() > setup_params.y.len() {
             return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
                 expected: setup_params.y.len(),
                 given: messages.len(),
             }
             .into());
         }
+        // The signature has one element for each message
+        if messages.len() != self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..ca41922 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,10 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                match self.attributes.len() {
+                    0 => false,
+                    n => self.attributes[n - 1] == vk.0,
+                }
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -59,6 +62,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.attributes.len() != self.signature.T.len() {
+                    return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
@@ -199,7 +209,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && link.level != self.odd_links[self.odd_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +232,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && link.level != self.even_links[self.even_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -408,11 +418,11 @@ impl CredChain {
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
-                new_chain.odd_links.push(self.odd_links[i / 2].clone());
+                new_chain.odd_links.push(self.get_odd_link(i / 2)?.clone());
             } else {
                 new_chain
                     .even_links
-                    .push(self.even_links[(i / 2) - 1].clone());
+                    .push(self.get_even_link((i / 2) - 1)?.clone());
             }
         }
         Ok(new_chain)
@@ -428,6 +438,11 @@ impl CredChain {
         if size == 0 {
             return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
         }
+        // Odd and even levels alternate, beginning with an odd one
+        self.get_odd_link((size - 1) / 2)?;
+        if size > 1 {
+            self.get_even_link(size / 2 - 1)?;
+        }
         if (even_level_vks.len() + odd_level_vks.len()) != (size + 1) {
             return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
                 expected: size + 1,
-- 
2.43.0


From f32570733fc15207c2518817606ca7cca20ea766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 26/45] fix: verifiable encryption checks the number of
 messages and the sign of v when verifying

---
 .../cs_verifiable_encryption.rs                | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..c39dfac 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -353,6 +353,16 @@ pub fn reconstruct_blindings_ciphertext(
             ),
         ));
     }
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of messages {} is not equal to the number of encrypted messages {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
 
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
@@ -360,6 +370,14 @@ pub fn reconstruct_blindings_ciphertext(
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    // A ciphertext is decrypted only if abs(v) == v
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
-- 
2.43.0


From cb4175c966f9a252589b0696d2af16b81f7c6682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 27/45] fix: vector commitment proofs refuse trailing bytes
 when read back

---
 libzmix/src/commitments/pok_vc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libzmix/src/commitments/pok_vc.rs b/libzmix/src/commitments/pok_vc.rs
index 9de1813..266e77d 100644
--- a/libzmix/src/commitments/pok_vc.rs
+++ b/libzmix/src/commitments/pok_vc.rs
@@ -293,7 +293,10 @@ macro_rules! impl_PoK_VC {
                 let length = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
                 offset += 4;
 
-                if data.len() < offset + length * amcl_wrapper::constants::FieldElement_SIZE {
+                let responses_len = data.len() - offset;
+                if responses_len % amcl_wrapper::constants::FieldElement_SIZE != 0
+                    || responses_len / amcl_wrapper::constants::FieldElement_SIZE != length
+                {
                     return Err(PoKVCErrorKind::GeneralError {
                         msg: format!("Invalid length"),
                     }
-- 
2.43.0


From de16d2cc0abcd1917a3178e4b73f3f49812e9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 28/45] fix: an inner product argument with sides of different
 length is refused

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..208851e 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,10 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
+        if G_vec.len() != n || H_vec.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -287,6 +290,10 @@ impl IPP {
             // n is not a power of 2
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
+        if R_vec.len() != lg_n {
+            // every round has both an L and an R
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
 
         transcript.innerproduct_domain_sep(n as u64);
 
-- 
2.43.0


From 013c991e5655a7b2bfe0faa6d62a12cd260ddeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 29/45] fix: too few generators in the second vector are an
 error, not a crash

---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 8 ++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..21af7eb 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len().min(H.len()) < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: n1,
             }
             .into());
@@ -388,9 +388,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len().min(H.len()) < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..354a478 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,9 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len().min(H.len()) < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From 879595248120222bdfaf4cdd288e184447b2506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 30/45] fix: gadget proofs with a wrong number of commitments
 are refused

---
 .../src/r1cs/gadgets/bound_check.rs           |  3 +++
 .../r1cs/gadgets/helper_constraints/mod.rs    | 19 +++++++++++++++++++
 .../src/r1cs/gadgets/mimc.rs                  |  3 +++
 .../src/r1cs/gadgets/non_zero.rs              |  3 +++
 .../src/r1cs/gadgets/poseidon_hash.rs         |  7 +++++++
 .../src/r1cs/gadgets/set_membership.rs        |  3 +++
 .../src/r1cs/gadgets/set_membership_alt.rs    |  3 +++
 .../src/r1cs/gadgets/set_non_membership.rs    |  3 +++
 8 files changed, 44 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..3c23d40 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -100,6 +101,8 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 3)?;
+
     let var_v = verifier.commit(commitments.remove(0));
     let quantity_v = AllocatedQuantity {
         variable: var_v,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 878a3ac..15a2935 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -3,6 +3,7 @@ use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::constants::MODBYTES;
 use amcl_wrapper::field_elem::FieldElement;
+use amcl_wrapper::group_elem_g1::G1;
 
 use rand::{CryptoRng, Rng};
 
@@ -24,6 +25,24 @@ pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
     cs.constrain(lc - LinearCombination::from(scalar.clone()));
 }
 
+/// Check that the prover sent as many commitments as the gadget needs
+pub(crate) fn check_commitment_count(
+    commitments: &[G1],
+    expected: usize,
+) -> Result<(), R1CSError> {
+    if commitments.len() != expected {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} commitments but found {}",
+                expected,
+                commitments.len()
+            ),
+        }
+        .into());
+    }
+    Ok(())
+}
+
 /// Get byte size of number in given `base` with `num_digits` digits in that base
 fn get_byte_size(num_digits: usize, base: u8) -> usize {
     let num_bits = get_bit_count(num_digits, base);
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
index 3723081..8164631 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Verifier};
 use amcl_wrapper::field_elem::FieldElement;
@@ -43,6 +44,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 2)?;
+
     let var_l = verifier.commit(commitments.remove(0));
     let var_r = verifier.commit(commitments.remove(0));
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..1d70ddf 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -37,6 +38,8 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 2)?;
+
     let var_val = verifier.commit(commitments.remove(0));
 
     let var_val_inv = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
index a7aa0cc..d1caf17 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Variable, Verifier};
 use amcl_wrapper::field_elem::FieldElement;
@@ -93,6 +94,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 2)?;
+
     let lv = verifier.commit(commitments.remove(0));
     let rv = verifier.commit(commitments.remove(0));
 
@@ -236,6 +239,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 4)?;
+
     let mut allocs = vec![];
 
     for _ in 0..4 {
@@ -389,6 +394,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    check_commitment_count(&commitments, 8)?;
+
     let mut vars = vec![];
 
     for _ in 0..8 {
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..8dbb162 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use super::helper_constraints::constrain_lc_with_scalar;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
@@ -83,6 +84,8 @@ pub fn verify_set_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_commitment_count(&commitments, set_length + 1)?;
+
     let mut diff_vars = vec![];
 
     let var_val = verifier.commit(commitments.remove(0));
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..a6e470d 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
@@ -135,6 +136,8 @@ pub fn verify_set_membership_alt(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_commitment_count(&commitments, set_length + 1)?;
+
     let mut bit_vars = vec![];
     let mut bit_allocs = vec![];
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..750d44c 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -84,6 +85,8 @@ pub fn verify_set_non_membership(
 ) -> Result<(), R1CSError> {
     let set_length = set.len();
 
+    check_commitment_count(&commitments, 2 * set_length + 1)?;
+
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
 
-- 
2.43.0


From ef085fa01f29de9d870fd7c8deca99dfdc5d7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:40 +0000
Subject: [PATCH 31/45] fix: Merkle paths of the wrong length are refused, in
 the clear and in proofs

---
 .../sparse_merkle_tree_4_ary.rs                 | 17 ++++++++++++++++-
 .../sparse_merkle_tree_8_ary.rs                 | 17 ++++++++++++++++-
 .../r1cs/gadgets/sparse_merkle_tree_4_ary.rs    |  5 +++++
 .../r1cs/gadgets/sparse_merkle_tree_8_ary.rs    |  5 +++++
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..a002b2b 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -168,6 +168,9 @@ where
         proof: &[ProofNode4ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
@@ -259,6 +262,18 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // The path must have the length that the depth of the tree calls for
+    if proof_nodes.len() != 3 * depth {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} proof nodes but found {}",
+                3 * depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..f378f3b 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -173,6 +173,9 @@ where
         proof: &[ProofNode8ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
@@ -270,6 +273,18 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // The path must have the length that the depth of the tree calls for
+    if proof_nodes.len() != 7 * depth {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!(
+                "Expected {} proof nodes but found {}",
+                7 * depth,
+                proof_nodes.len()
+            ),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..720dc8f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -86,6 +87,10 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // leaf index, leaf if it is hidden, and the siblings of each level
+    let hidden = if leaf_val.is_none() { 2 } else { 1 };
+    check_commitment_count(&commitments, hidden + 3 * tree_depth)?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..36dac13 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::check_commitment_count;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -87,6 +88,10 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
+    // leaf index, leaf if it is hidden, and the siblings of each level
+    let hidden = if leaf_val.is_none() { 2 } else { 1 };
+    check_commitment_count(&commitments, hidden + 7 * tree_depth)?;
+
     let var_leaf_idx = verifier.commit(commitments.remove(0));
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
-- 
2.43.0


From 941e4cb0b586b72f7343e396c7e0a1fda210186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 32/45] fix: gadgets convert 64-bit numbers exactly

---
 .../src/r1cs/gadgets/bound_check.rs           | 20 +++++++++----------
 .../r1cs/gadgets/helper_constraints/mod.rs    |  8 ++++++++
 .../src/r1cs/gadgets/set_membership_alt.rs    |  8 ++++----
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 3c23d40..f579c4f 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,4 +1,4 @@
-use super::helper_constraints::check_commitment_count;
+use super::helper_constraints::{check_commitment_count, u64_to_field_element};
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -26,12 +26,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(u64_to_field_element(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(u64_to_field_element(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &u64_to_field_element(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -58,26 +58,26 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        u64_to_field_element(val),
         blinding.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(u64_to_field_element(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(u64_to_field_element(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(u64_to_field_element(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(u64_to_field_element(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(u64_to_field_element(b)),
     };
     comms.push(com_b);
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 15a2935..f8e0965 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -25,6 +25,14 @@ pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
     cs.constrain(lc - LinearCombination::from(scalar.clone()));
 }
 
+/// Convert a number of 64 bits to a field element. Unlike `FieldElement::from` it is exact, and the
+/// result normalized, for numbers of any size.
+pub(crate) fn u64_to_field_element(num: u64) -> FieldElement {
+    let mut bytes = [0u8; MODBYTES];
+    bytes[MODBYTES - 8..].copy_from_slice(&num.to_be_bytes());
+    FieldElement::from(&bytes)
+}
+
 /// Check that the prover sent as many commitments as the gadget needs
 pub(crate) fn check_commitment_count(
     commitments: &[G1],
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index a6e470d..eb52c8a 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,4 +1,4 @@
-use super::helper_constraints::check_commitment_count;
+use super::helper_constraints::{check_commitment_count, u64_to_field_element};
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
@@ -56,9 +56,9 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             toggles[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), u64_to_field_element(items[i]))),
         )?;
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &u64_to_field_element(items[i]));
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
@@ -113,7 +113,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     // The toggle vector sum should be 1
     vector_sum_constraints(prover, toggles_vars, 1);
 
-    let _value = FieldElement::from(value);
+    let _value = u64_to_field_element(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
-- 
2.43.0


From 494b98dc94a2e54c7a64f5313c2ccf872c6d4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 33/45] fix: bound proofs refuse numbers out of bounds, empty
 ranges and too many bits

---
 .../src/r1cs/gadgets/bound_check.rs           | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index f579c4f..45b6fe7 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -26,12 +26,26 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
+    // More bits than a u64 has are never needed, and with about as many bits as the field order has
+    // every field element would count as a positive number.
+    if n > 64 {
+        return Err(R1CSErrorKind::GadgetError {
+            description: format!("Number of bits should be at most 64 but was {}", n),
+        }
+        .into());
+    }
+    let range = max.checked_sub(min).ok_or_else(|| {
+        R1CSError::from(R1CSErrorKind::GadgetError {
+            description: format!("Lower bound {} is above upper bound {}", min, max),
+        })
+    })?;
+
     cs.constrain(v.variable - LinearCombination::from(u64_to_field_element(min)) - a.variable);
 
     cs.constrain(LinearCombination::from(u64_to_field_element(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &u64_to_field_element(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &u64_to_field_element(range));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -52,8 +66,15 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(blinding, rng)?;
 
-    let a = val - lower;
-    let b = upper - val;
+    let (a, b) = match (val.checked_sub(lower), upper.checked_sub(val)) {
+        (Some(a), Some(b)) => (a, b),
+        _ => {
+            return Err(R1CSErrorKind::GadgetError {
+                description: format!("Value {} is not in [{}, {}]", val, lower, upper),
+            }
+            .into())
+        }
+    };
 
     let mut comms = vec![];
 
-- 
2.43.0


From 29789436e09d5b20213ba290de63d5b10610c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 34/45] fix: the membership proof with toggles uses the toggles
 committed to

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index eb52c8a..6f46380 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -59,6 +59,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .map(|bit| (bit.clone(), u64_to_field_element(items[i]))),
         )?;
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &u64_to_field_element(items[i]));
+        // `bit_var` is the committed toggle
+        cs.constrain(bit_var - toggles[i].variable);
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
-- 
2.43.0


From 4d4d530d65694df8b5ea8e150d934c6ed33a69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 35/45] fix: the membership proof with toggles works for sets
 with repeated elements

---
 .../src/r1cs/gadgets/set_membership_alt.rs                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 6f46380..3c1ee7b 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -89,10 +89,10 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(randomness, rng)?;
 
-    // Set all indices to 0 except the one where `value` is
-    let toggles: Vec<u64> = set
-        .iter()
-        .map(|elem| if *elem == value { 1 } else { 0 })
+    // Set all indices to 0 except the first one where `value` is
+    let position = set.iter().position(|elem| *elem == value);
+    let toggles: Vec<u64> = (0..set.len())
+        .map(|i| if Some(i) == position { 1 } else { 0 })
         .collect();
 
     let mut comms = vec![];
-- 
2.43.0


From 5ce143c6a38fa451aa701a4beeb111bca881663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 36/45] fix: the inverse S-box constrains its input

---
 .../r1cs/gadgets/helper_constraints/poseidon.rs    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
index b9581d8..48126f1 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -234,17 +234,21 @@ impl SboxType {
     ) -> Result<Variable, R1CSError> {
         let inp_plus_const: LinearCombination = input_var + round_key;
 
-        let val_l = cs.evaluate_lc(&inp_plus_const);
-        let val_r = val_l.clone().map(|l| l.inverse());
+        let val = cs.evaluate_lc(&inp_plus_const).map(|l| {
+            let inv = l.inverse();
+            (l, inv)
+        });
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) = cs.allocate_multiplier(val)?;
+
+        // The left wire carries `inp_plus_const`
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From b9e5de9b97c2042f78af17f58f1407566a80c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 37/45] fix: too few generators for a Merkle proof are an
 error, not a crash

---
 .../src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index 720dc8f..22d0c65 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -164,7 +164,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());*/
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 51c6f898571dcbb539f6c831d1ff84a5123acfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 38/45] fix: incrementing and decrementing a negative number
 keeps its sign

---
 libursa/src/bn/openssl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..395d1de 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -499,15 +499,15 @@ impl BigNumber {
     }
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.add_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?;
         bn.sub_word(1)?;
-        Ok(BigNumber { openssl_bn: bn })
+        Ok(bn)
     }
 
     pub fn lshift1(&self) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From 406260d0ecf3de2c793344742a3865ab47f0699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 39/45] fix: powers without a result are an error: negative
 exponent, modulus zero

---
 libursa/src/bn/openssl.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 395d1de..5b5bcda 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -390,6 +390,13 @@ impl BigNumber {
     ) -> UrsaCryptoResult<BigNumber> {
         let mut bn = BigNumber::new()?;
 
+        if b.openssl_bn.num_bits() == 0 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot have modulus==0",
+            ));
+        }
+
         if a.openssl_bn.is_negative() {
             BigNumRef::mod_exp(
                 &mut bn.openssl_bn,
@@ -441,6 +448,12 @@ impl BigNumber {
         a: &BigNumber,
         ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
+        if a.is_negative() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot raise to a negative power",
+            ));
+        }
         let mut bn = BigNumber::new()?;
         match ctx {
             Some(context) => BigNumRef::exp(
-- 
2.43.0


From c271e96ddefca3b2e6fc970d1cbbfd641df3af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 40/45] fix: from_u32 does not cut off large values

---
 libursa/src/bn/openssl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 5b5bcda..ee348f5 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -139,7 +139,7 @@ impl BigNumber {
     }
 
     pub fn from_u32(n: usize) -> UrsaCryptoResult<BigNumber> {
-        let bn = BigNum::from_u32(n as u32)?;
+        let bn = BigNum::from_slice(&n.to_be_bytes())?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
-- 
2.43.0


From d904ee0be9f799d03fefc5caeea9eaeb91fdca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 41/45] fix: a text with anything but digits is no number

---
 libursa/src/bn/openssl.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ee348f5..1a6fdfb 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -144,11 +144,25 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        Self::check_digits(dec, 10)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
+    /// OpenSSL reads as many digits as there are and ignores what follows them
+    fn check_digits(num: &str, radix: u32) -> UrsaCryptoResult<()> {
+        let digits = if num.starts_with('-') { &num[1..] } else { num };
+        if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation of a number",
+            ));
+        }
+        Ok(())
+    }
+
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        Self::check_digits(hex, 16)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
-- 
2.43.0


From 9ff56d63847d4f917a17272937d9a3288a3d3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 42/45] fix: 7 is a safe prime

---
 libursa/src/bn/openssl.rs | 9 +--------
 libursa/src/bn/rust.rs    | 2 +-
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 1a6fdfb..ea6979b 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -90,16 +90,9 @@ impl BigNumber {
     pub fn is_safe_prime(&self, ctx: Option<&mut BigNumberContext>) -> UrsaCryptoResult<bool> {
         match ctx {
             Some(c) => {
-                // according to https://eprint.iacr.org/2003/186.pdf
-                // a safe prime is congruent to 2 mod 3
-
                 // a safe prime satisfies (p-1)/2 is prime. Since a
                 // prime is odd, We just need to divide by 2
-                Ok(
-                    self.modulus(&BigNumber::from_u32(3)?, Some(c))? == BigNumber::from_u32(2)?
-                        && self.is_prime(Some(c))?
-                        && self.rshift1()?.is_prime(Some(c))?,
-                )
+                Ok(self.is_prime(Some(c))? && self.rshift1()?.is_prime(Some(c))?)
             }
             None => {
                 let mut context = BigNumber::new_context()?;
diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 6f77067..d76e6dd 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -123,7 +123,7 @@ impl BigNumber {
     }
 
     pub fn is_safe_prime(&self, _ctx: Option<&mut BigNumberContext>) -> UrsaCryptoResult<bool> {
-        prime_check!(safe_prime, self, "An error in is_safe_prime")
+        Ok(self.is_prime(None)? && self.rshift1()?.is_prime(None)?)
     }
 
     pub fn rand(size: usize) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From 7138445d50e851d3a5f185a2ed4338d63bcd2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 43/45] fix: portable big numbers: powers, inverses and bits
 without a result are errors

---
 libursa/src/bn/rust.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index d76e6dd..77bfb73 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -155,6 +155,12 @@ impl BigNumber {
     }
 
     pub fn set_bit(&mut self, n: i32) -> Result<&mut BigNumber, UrsaCryptoError> {
+        if n < 0 {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot set a negative bit".to_string(),
+            ));
+        }
         let bits = n as usize;
         let mask = BigInt::one() << bits;
         self.bn |= mask;
@@ -304,6 +310,12 @@ impl BigNumber {
         b: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
+        if b.bn.is_zero() {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot have modulus==0".to_string(),
+            ));
+        }
         if b.bn.is_one() {
             return BigNumber::new();
         }
@@ -352,6 +364,12 @@ impl BigNumber {
         a: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
+        if a.bn.is_negative() {
+            return Err(UrsaCryptoError::from_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot raise to a negative power".to_string(),
+            ));
+        }
         if self.bn.bits() == 0 {
             return Ok(BigNumber::default());
         } else if a.bn.is_one() {
@@ -397,7 +415,7 @@ impl BigNumber {
         //    return t
         //
         let (mut t, mut new_t) = (BigInt::zero(), BigInt::one());
-        let (mut r, mut new_r) = (n.clone(), self.bn.clone());
+        let (mut r, mut new_r) = (n.clone(), self.modulus(&BigNumber { bn: n.clone() }, None)?.bn);
 
         while !new_r.is_zero() {
             let quotient = &r / &new_r;
-- 
2.43.0


From 44dd6032187acc76ae39796aeb29700b58b3a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:37 +0000
Subject: [PATCH 44/45] fix: modular difference, negation and inverse of group
 scalars are right for zero and for large operands

---
 libursa/src/pair/amcl.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 69648fa..f0fa2f2 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -477,19 +477,7 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
-        let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
-        Ok(GroupOrderElement { bn: diff })
+        self.add_mod(&r.mod_neg()?)
     }
 
     /// (GroupOrderElement * GroupOrderElement) mod GroupOrder
@@ -503,16 +491,26 @@ impl GroupOrderElement {
 
     /// 1 / GroupOrderElement
     pub fn inverse(&self) -> UrsaCryptoResult<GroupOrderElement> {
+        let order = BIG::new_ints(&CURVE_ORDER);
         let mut bn = self.bn;
-        bn.invmodp(&BIG::new_ints(&CURVE_ORDER));
+        bn.rmod(&order);
+        if bn.iszilch() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Zero has no inverse",
+            ));
+        }
+        bn.invmodp(&order);
 
         Ok(GroupOrderElement { bn })
     }
 
     /// - GroupOrderElement mod GroupOrder
     pub fn mod_neg(&self) -> UrsaCryptoResult<GroupOrderElement> {
-        let mut r = self.bn;
-        r = BIG::modneg(&r, &BIG::new_ints(&CURVE_ORDER));
+        let order = BIG::new_ints(&CURVE_ORDER);
+        let mut r = BIG::modneg(&self.bn, &order);
+        // the negative of zero is zero and not the order
+        r.rmod(&order);
         Ok(GroupOrderElement { bn: r })
     }
 
-- 
2.43.0


From f6d15a583fcef933dcc942ee1847e12b7e128d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 45/45] fix: the pairing of the point at infinity is one

---
 libursa/src/pair/amcl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index f0fa2f2..1977cef 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -612,6 +612,11 @@ impl Pair {
     pub const BYTES_REPR_SIZE: usize = MODBYTES * 16;
     /// e(PointG1, PointG2)
     pub fn pair(p: &PointG1, q: &PointG2) -> UrsaCryptoResult<Pair> {
+        if p.point.is_infinity() || q.point.is_infinity() {
+            return Ok(Pair {
+                pair: FP12::new_int(1),
+            });
+        }
         let mut result = fexp(&ate(&q.point, &p.point));
         result.reduce();
 
@@ -620,6 +625,11 @@ impl Pair {
 
     /// e(PointG1, PointG2, PointG1_1, PointG2_1)
     pub fn pair2(p: &PointG1, q: &PointG2, r: &PointG1, s: &PointG2) -> UrsaCryptoResult<Pair> {
+        if [p, r].iter().any(|x| x.point.is_infinity())
+            || [q, s].iter().any(|x| x.point.is_infinity())
+        {
+            return Self::pair(p, q)?.mul(&Self::pair(r, s)?);
+        }
         let mut result = fexp(&ate2(&q.point, &p.point, &s.point, &r.point));
         result.reduce();
 
-- 
2.43.0

