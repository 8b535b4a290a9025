------------------------------- MODULE BlsBn -------------------------------
(* BLS signatures over BN254 (property C09). Secret keys are vectors over independent random
   secrets: key i < Neg is the i-th secret, key Neg the negative of the first one (a rogue key made
   to cancel it), key 0 is zero. A signature or aggregate is its vector of discrete logarithms: for
   each message, a combination of secrets times the hash of that message. made lists the
   signatures produced so far; keys are bound to the generator they were made for.
     sign k m; verify: signature i of made, or the proof of possession (i = 0: of key k0 for generator g0),
     on message m (m = 0: the bytes of the key k for generator gk) under key k made for gk, generator g
     multi: the aggregate of all of made, message m, list of keys ks made for gk, generator g
     pop: the proof of key k0 made for g0, verified for key k made for gk, generator g (as: "pop" or a signature used as one)
     dec: the bytes of an object of a kind, edited at a position; seed: a key from seed of a length; same seed, same key *)
EXTENDS Kit
CONSTANTS Neg
VARIABLES ev, made
Val(k, b) == CASE k = 0 -> 0 [] k = Neg -> (IF b = 1 THEN -1 ELSE 0) [] OTHER -> (IF k = b THEN 1 ELSE 0)
Bases == 1..(Neg - 1)
IsZero(k) == k = 0
RECURSIVE Coef(_, _, _)
Coef(q, m, b) == IF q = <<>> THEN 0 ELSE (IF Head(q).m = m THEN Val(Head(q).k, b) ELSE 0) + Coef(Tail(q), m, b)
RECURSIVE KeySum(_, _)
KeySum(ks, b) == IF ks = <<>> THEN 0 ELSE Val(Head(ks), b) + KeySum(Tail(ks), b)
Msgs(q) == {q[i].m : i \in DOMAIN q}

VerifyOk(c) == /\ c.i # 0 /\ c.m = made[c.i].m /\ made[c.i].k = c.k /\ ~IsZero(c.k) /\ c.gk = c.g
MultiOk(c) == /\ c.gk = c.g
              /\ \A i \in DOMAIN c.ks : ~IsZero(c.ks[i])
              /\ \E b \in Bases : KeySum(c.ks, b) # 0         \* the sum of the keys is not the identity
              /\ \A m \in Msgs(made) \cup {c.m} : \A b \in Bases : Coef(made, m, b) = IF m = c.m THEN KeySum(c.ks, b) ELSE 0
PopOk(c) == c.as = "pop" /\ c.k0 = c.k /\ c.g0 = c.gk /\ c.gk = c.g /\ ~IsZero(c.k)
YN(b) == IF b THEN "yes" ELSE "no"
DecOk(c) == CASE c.edit = "none" -> "same"
              [] c.edit \in {"long", "long1"} -> "err"
              \* a secret key is any number of up to 32 bytes
              [] c.kind = "sk" -> "?"
              [] OTHER -> "err"
Want(c) == CASE c.op = "sign" -> "ok"
             [] c.op = "verify" -> YN(VerifyOk(c))
             [] c.op = "multi" -> YN(MultiOk(c))
             [] c.op = "pop" -> YN(PopOk(c))
             [] c.op = "dec" -> DecOk(c)
             [] c.op = "seed" -> IF c.len = 32 THEN "same" ELSE "err"
             [] OTHER -> "ok"
Allowed(c, r) == r = Want(c) \/ (Want(c) = "?" /\ r \in {"same", "other", "err"})
After(c) == CASE c.op = "sign" -> Append(made, [k |-> c.k, m |-> c.m])
              [] c.op = "new" -> <<>>
              [] OTHER -> made
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r) /\ made' = After(c)
Init == ev = Ev([op |-> "init"], "") /\ made = <<>>
=============================================================================
