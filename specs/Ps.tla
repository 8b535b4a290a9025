---------------------------------- MODULE Ps ----------------------------------
(* Pointcheval-Sanders signatures, libzmix/src/signatures/ps (property C19).
   Keys are [k |-> family, n |-> count], messages numbers, standing for themselves: the scheme is exactly linear in
   them, so that a blind signature on a commitment and a list of known messages which overlap is one on their sums.
   A proof of knowledge is made from the signature held, showing the positions in r, with a challenge computed from
   its bytes and a nonce. *)
EXTENDS Kit
VARIABLES com, sig, pf, ev
vars == <<com, sig, pf>>
None == [k |-> "", n |-> 0]
Key(c) == [k |-> c.k, n |-> c.n]
Yes(b) == IF b THEN {"yes"} ELSE {"no", "err"}
Ok(b) == IF b THEN {"ok"} ELSE {"err"}
At(m, i) == IF i \in DOMAIN m THEN m[i] ELSE 0
\* the committed messages come first, the known ones last
Sum(a, w, n) == [i \in 1..n |-> At(a, i) + At(w, i - (n - Len(w)))]
Nonzero(m) == \E i \in DOMAIN m : m[i] # 0
\* which of the keys' parts the signature depends on
BlindGood(c) == /\ c.bl = "own" /\ c.e = "none"
                /\ (Nonzero(com.m) => com.key.k = c.k) /\ (c.way = "paper" /\ Nonzero(c.w) => c.bk = c.k)
Edited == {"none", "rand", "negboth"}      \* a signature can be randomised
SigGood(c) == sig.good /\ sig.key = Key(c) /\ sig.m = c.m /\ c.e \in Edited /\ c.p = 1
PfGood(c) == pf.good /\ pf.key = Key(c) /\ c.p = 1 /\ c.nonce = pf.nonce /\ c.r = pf.r /\ c.out = 0
             /\ (c.e \in {"none", "bytes", "json"} \/ (c.e \in Edited /\ c.chal = "given"))
\* how many revealed positions a list has
Outs(c) ==
  CASE c.op = "key" -> {"ok"}
    [] c.op = "sign" -> Ok(Len(c.m) = c.n)
    [] c.op = "verify" -> Yes(SigGood(c))
    [] c.op = "commit" -> {"ok"}
    \* sk of k, blinding key of bk and count bn
    [] c.op = "bsign" -> IF Len(c.w) < c.bn /\ (c.way = "paper" \/ c.bn = c.n) THEN {"ok"} ELSE {"err"}
    [] c.op = "prove" -> Ok(Len(c.m) = c.n /\ (\A i \in DOMAIN c.r : c.r[i] \in 1..Len(c.m)) /\ (c.bc = -1 \/ c.bc = Len(c.m) - Len(c.r)))
    [] c.op = "show" -> Yes(PfGood(c))
    [] c.op = "resp" -> Ok(c.i < c.n - Len(c.r) /\ c.e = "none")
    \* provers that do not hold a signature
    [] c.op = "cheat" -> {"no", "err"}
    \* one blinding, one challenge: the same response iff the same message
    [] c.op = "link" -> {IF c.a = c.b THEN "linked" ELSE "apart"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ com' = IF c.op = "commit" /\ r = "ok" THEN [key |-> Key(c), m |-> c.m] ELSE com
  /\ sig' = IF c.op = "sign" /\ r = "ok" THEN [key |-> Key(c), m |-> c.m, good |-> TRUE]
            ELSE IF c.op = "bsign" /\ r = "ok" THEN [key |-> Key(c), m |-> Sum(com.m, c.w, c.n), good |-> BlindGood(c)]
            ELSE sig
  /\ pf' = IF c.op = "prove" /\ r = "ok" THEN [key |-> Key(c), m |-> c.m, r |-> c.r, nonce |-> c.nonce, good |-> sig.good /\ sig.key = Key(c) /\ sig.m = c.m] ELSE pf
Init == /\ com = [key |-> None, m |-> <<>>] /\ sig = [key |-> None, m |-> <<>>, good |-> FALSE]
        /\ pf = [key |-> None, m |-> <<>>, r |-> <<>>, nonce |-> 0, good |-> FALSE]
        /\ ev = Ev([op |-> "init"], "")
=============================================================================
