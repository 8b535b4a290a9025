-------------------------------- MODULE VerEnc --------------------------------
(* Camenisch-Shoup verifiable encryption, libzmix/src/verifiable_encryption (property C22).
   Two key pairs "a", "b" for N messages each. Messages are named: "0", "1", "n-1", "n" (the modulus), "n+1", "-1", or fresh ones "r1", "r2".. .
   ct: the ciphertext last made and for what; pf: the ciphertext and proof last made, lies tells whether the prover departed from the protocol. *)
EXTENDS Kit
CONSTANT N
VARIABLES ct, pf
VARIABLE ev
vars == <<ct, pf>>
None == "none"
NoCt == [k |-> None, m |-> <<>>, lbl |-> ""]
NoPf == [k |-> None, m |-> <<>>, lbl |-> "", chal |-> "", lie |-> None]
\* messages are numbers modulo the modulus
Norm(x) == CASE x = "n" -> "0" [] x = "n+1" -> "1" [] x = "-1" -> "n-1" [] OTHER -> x
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Norm(a[i]) = Norm(b[i])
Ok(b) == IF b THEN {"ok"} ELSE {"err"}
Yes(b) == IF b THEN {"yes"} ELSE {"no", "err"}
Benign == {"none", "json"}
\* exchanging two encryptions of the same message still changes the ciphertext
Outs(c) ==
  CASE c.op = "new" -> Ok(c.n > 0)
    [] c.op = "enc" -> Ok(Len(c.m) <= N)
    \* want: the messages expected; the harness says whether those came out
    [] c.op = "dec" -> IF c.e \in Benign /\ c.pub = ct.k /\ c.sec = ct.k /\ c.lbl = ct.lbl /\ (c.trim = 0 \/ Len(ct.m) <= N - c.trim)
                       THEN {IF Same(c.want, ct.m) THEN "same" ELSE "other"} ELSE {"err"}
    [] c.op = "prove" -> Ok(Len(c.m) = c.bl /\ Len(c.m) <= N)
    [] c.op = "verify" -> Yes(pf.lie = None /\ c.e \in Benign /\ c.k = pf.k /\ c.lbl = pf.lbl /\ c.chal = pf.chal /\ Same(c.want, pf.m))
    \* what was proved about decrypts
    [] c.op = "open" -> {"same"}
    [] c.op = "twice" -> {"apart"}
    \* bytes moved between the last part of a ciphertext and the label
    [] c.op = "shift" -> {"err", "no"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ ct' = IF c.op = "enc" THEN (IF r = "ok" THEN [k |-> c.k, m |-> c.m, lbl |-> c.lbl] ELSE NoCt) ELSE ct
  /\ pf' = IF c.op = "prove" THEN (IF r = "ok" THEN [k |-> c.k, m |-> c.m, lbl |-> c.lbl, chal |-> c.chal, lie |-> c.lie] ELSE NoPf) ELSE pf
Init == ct = NoCt /\ pf = NoPf /\ ev = Ev([op |-> "init"], "")
=============================================================================
