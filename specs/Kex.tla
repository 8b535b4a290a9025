-------------------------------- MODULE Kex ---------------------------------
(* Key exchange over X25519 (Fam "x") and secp256k1 (Fam "ecdh") (property C12).
   keys: the pairs so far, by origin. secs: the secrets derived so far, each the set of the two origins.
     key:    as in Sigs; t "ed": the pair converted from an Ed25519 pair made from that seed; "mismatch" if its halves differ
     secret: i's secret key (altered by se) with j's public key (altered by pe): "=n", equal to the n-th secret
     long:   a secret key of more than the expected length: refused, or read as the key it begins with
     conv:   the public key of i through a path of compress (c), uncompress (u), parse (p)
     convbad: one of these on malformed data *)
EXTENDS Kit
CONSTANTS Fam
VARIABLES ev, keys, secs
SeedId(c) == IF Fam = "ecdh" THEN IF c.len < 32 THEN <<>> ELSE <<"s", 32, IF c.x = 2 /\ c.len > 32 THEN 0 ELSE c.x>>
             ELSE <<"s", c.len, IF c.len = 0 THEN 0 ELSE c.x>>
\* X25519 ignores the low three bits and the highest of a secret key and sets the one below it
RawId(x) == IF Fam = "ecdh" THEN IF x \in {"one", "n1"} THEN <<"raw", x>> ELSE <<>>
            ELSE <<"raw", IF x = "one" THEN "zero" ELSE x>>
Orig(c) == CASE c.t = "rand" -> <<"r", Len(keys) + 1>>
             [] c.t = "seed" -> SeedId(c)
             [] c.t = "sk" -> keys[c.i]
             [] c.t = "raw" -> RawId(c.x)
             [] c.t = "ed" -> <<"ed", c.x>>
             [] c.t = "bad" -> <<>>
First(q, x) == CHOOSE j \in 1..(Len(q) + 1) : (j = Len(q) + 1 \/ q[j] = x) /\ \A i \in 1..(j - 1) : q[i] # x
Eq(q, x) == "=" \o ToString(First(q, x))
\* over secp256k1 the secret is the first coordinate of a point: the same for a key and its negative
Mag(k) == IF k = <<"raw", "n1">> THEN <<"raw", "one">> ELSE k
Sec(c) == {Mag(keys[c.i]), Mag(keys[c.j])}
SecOk(c) == c.se = "none" /\ c.pe \in (IF Fam = "ecdh" THEN {"none", "unc"} ELSE {"none", "top"})
Want(c) == CASE c.op = "new" -> "ok"
             [] c.op = "key" -> IF Orig(c) = <<>> THEN "err" ELSE Eq(keys, Orig(c))
             [] c.op = "secret" -> IF SecOk(c) THEN Eq(secs, Sec(c)) ELSE "err"
             [] c.op = "conv" -> "same"
             [] c.op = "convbad" -> "err"
             [] c.op = "long" -> "ok"
Allowed(c, r) == r = Want(c)
Step(c, r) == /\ Allowed(c, r) /\ ev' = Ev(c, r)
              /\ keys' = IF c.op = "new" THEN <<>> ELSE IF c.op = "key" /\ Orig(c) # <<>> THEN Append(keys, Orig(c)) ELSE keys
              /\ secs' = IF c.op = "new" THEN <<>> ELSE IF c.op = "secret" /\ SecOk(c) THEN Append(secs, Sec(c)) ELSE secs
Init == ev = Ev([op |-> "init"], "") /\ keys = <<>> /\ secs = <<>>
=============================================================================
