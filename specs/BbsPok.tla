------------------------------- MODULE BbsPok -------------------------------
(* Proofs of knowledge of BBS+ signatures, libzmix/bbs (property C18).
   A proof is made from a signature under the key of family k with n messages, on vector m, showing the positions
   in r (a sorted sequence), for a nonce. Results of verification are "ok:" and the values shown, or a refusal. *)
EXTENDS Kit
VARIABLES pf, ev
vars == <<pf>>
Nil == [k |-> "", n |-> 0, m |-> <<>>, r |-> <<>>, nonce |-> 0]
RECURSIVE Shown(_, _)
Shown(m, r) == IF r = <<>> THEN "" ELSE ToString(m[Head(r)]) \o (IF Len(r) > 1 THEN "," ELSE "") \o Shown(m, Tail(r))
\* what the prover claims: "lie" replaces the message at one position, or the key
Honest(c) == c.lie = "no"
Genuine(c) == c.k = pf.k /\ c.n = pf.n /\ c.r = pf.r /\ c.nonce = pf.nonce /\ c.e \in {"none", "comp", "uncomp", "json"}
Pair(c) == \* two proofs under one challenge
  /\ c.order = "same" /\ c.nonce = 1 /\ c.claims = "same"
Outs(c) ==
  CASE c.op = "request" -> IF \A i \in DOMAIN c.r : c.r[i] \in 1..c.n THEN {"ok"} ELSE {"err"}
    [] c.op = "prove" -> IF Honest(c) THEN {"ok"} ELSE {"err"}
    [] c.op = "verify" -> IF Genuine(c) THEN {"ok:" \o Shown(pf.m, pf.r)} ELSE {"err"}
    [] c.op = "resp" -> IF c.i < c.n - Len(c.r) THEN {"ok"} ELSE {"err"}
    [] c.op = "malformed" -> {"err"}
    \* a prover that does not follow the protocol
    [] c.op = "cheat" -> {"err"}
    \* two proofs, the hidden messages at positions i and j with one blinding: the responses are the same iff the messages are
    [] c.op = "link" -> IF Pair(c) THEN {IF c.m1[c.i] = c.m2[c.j] THEN "linked" ELSE "apart"} ELSE {"err"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) == /\ ev' = Ev(c, r)
              /\ pf' = IF c.op = "prove" /\ r = "ok" THEN [k |-> c.k, n |-> c.n, m |-> c.m, r |-> c.r, nonce |-> c.nonce] ELSE pf
Init == pf = Nil /\ ev = Ev([op |-> "init"], "")
=============================================================================
