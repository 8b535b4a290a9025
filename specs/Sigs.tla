-------------------------------- MODULE Sigs --------------------------------
(* Ed25519 (Fam "ed") and ECDSA over secp256k1 (Fam "secp") behind the common interface (property C11).
   keys: the key pairs made so far, by origin; equal origins give equal pairs. sigs: key and message of each signature.
     key:    make a pair; t: rand; seed (length, content); sk: from the secret key of pair i; raw: from a chosen number;
             exp: expanded key material; expk: expanded first half of the secret of i; bad: from an altered secret of i
             result "=j": equal to pair j, the first such (itself if new)
     sign:   with the secret key of i, altered by e; "=j": equal to signature j
     verify: signature s altered by e, message m, the public key of i altered by pe
     norm:   normalize_s of signature s altered by e
     signer: public key and signature through Signer *)
EXTENDS Kit
CONSTANTS Fam
VARIABLES ev, keys, sigs
\* contents of a seed: 0, or with the first (1) or last (2) byte changed; secp256k1 reads 32 bytes of it
SeedId(c) == IF Fam = "secp" THEN IF c.len < 32 THEN <<>> ELSE <<"s", 32, IF c.x = 2 /\ c.len > 32 THEN 0 ELSE c.x>>
             ELSE <<"s", c.len, IF c.len = 0 THEN 0 ELSE c.x>>
ExpId(c) == IF c.len < 32 THEN <<>> ELSE <<"e", IF c.x = 2 /\ c.len > 32 THEN 0 ELSE c.x>>
\* the origin of the pair, <<>>: refused
Orig(c) == CASE c.t = "rand" -> <<"r", Len(keys) + 1>>
             [] c.t = "seed" -> SeedId(c)
             [] c.t \in {"sk", "expk"} -> keys[c.i]
             [] c.t = "exp" -> ExpId(c)
             [] c.t = "raw" -> IF Fam = "secp" /\ c.x \in {"one", "n1"} THEN <<"raw", c.x>> ELSE <<>>
             [] c.t = "bad" -> <<>>
First(q, x) == CHOOSE j \in 1..(Len(q) + 1) : (j = Len(q) + 1 \/ q[j] = x) /\ \A i \in 1..(j - 1) : q[i] # x
Eq(q, x) == "=" \o ToString(First(q, x))
SigOf(c) == <<keys[c.i], c.m>>
SignOk(c) == c.e = "none"
VerifyOk(c) == /\ c.e \in (IF Fam = "secp" THEN {"none", "norm"} ELSE {"none"})
               /\ c.pe \in (IF Fam = "secp" THEN {"none", "unc"} ELSE {"none"})
               /\ sigs[c.s] = SigOf(c)
Want(c) == CASE c.op = "new" -> "ok"
             [] c.op = "key" -> IF Orig(c) = <<>> THEN "err" ELSE Eq(keys, Orig(c))
             [] c.op = "sign" -> IF SignOk(c) THEN Eq(sigs, SigOf(c)) ELSE "err"
             [] c.op = "verify" -> IF VerifyOk(c) THEN "yes" ELSE "no"
             [] c.op = "norm" -> IF c.e \in {"none", "high", "norm"} THEN "same" ELSE "err"
             [] c.op = "signer" -> IF SignOk(c) THEN "same" ELSE "err"
Allowed(c, r) == r = Want(c)
Step(c, r) == /\ Allowed(c, r) /\ ev' = Ev(c, r)
              /\ keys' = IF c.op = "new" THEN <<>> ELSE IF c.op = "key" /\ Orig(c) # <<>> THEN Append(keys, Orig(c)) ELSE keys
              /\ sigs' = IF c.op = "new" THEN <<>> ELSE IF c.op = "sign" /\ SignOk(c) THEN Append(sigs, SigOf(c)) ELSE sigs
Init == ev = Ev([op |-> "init"], "") /\ keys = <<>> /\ sigs = <<>>
=============================================================================
