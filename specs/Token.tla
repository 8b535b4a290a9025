-------------------------------- MODULE Token --------------------------------
(* Attribute tokens: showing a delegated chain, libzmix/src/signatures/delg_cred_cdd/attribute_token.rs (property C21).
   ch: the chain, ch.n[i] the number of attributes (delegate's key not counted) of its link i, ch.bad whether something is wrong with a link.
   tok: what was committed to last; rs: the response made. Positions count from 0, sets of positions are ascending sequences. *)
EXTENDS Kit
VARIABLES ch, tok, rs, ev
vars == <<ch, tok, rs>>
None == "none"
Yes(b) == IF b THEN {"yes"} ELSE {"no", "err"}
Ok(b) == IF b THEN {"ok"} ELSE {"err"}
L == Len(ch.n)
\* how they were made (st, how) is remembered only to tell apart what the code has to be tried on
NoTok == [st |-> None, r |-> <<>>]
NoRs == [st |-> None, how |-> "", good |-> FALSE, nonce |-> 0]
\* the key, after the last attribute, cannot be shown
Shows(r) == Len(r) = L /\ L > 0 /\ \A i \in 1..L : \A p \in Rng(r[i]) : p >= 0 /\ p < ch.n[i]
\* edits of what is sent which leave it what it was
Benign == {"none", "json"}
\* the commitments are computed again: those sent are only counted
Unused == {"cs", "ct"}
Matches(c) == c.L = L /\ c.r = tok.r /\ c.nonce = rs.nonce /\ c.ipk = "root" /\ c.par = "own"
Outs(c) ==
  CASE c.op = "chain" -> {"ok"}
    [] c.op = "commit" -> Ok(Shows(c.r))
    [] c.op = "respond" -> IF tok.st = None THEN {"err"}
                           ELSE IF c.keys = "less" THEN Ok(L = 1)
                           ELSE Ok(c.lie \notin {"extra", "miss"})
    [] c.op = "check" -> IF rs.good /\ Matches(c) /\ c.e \in Unused THEN {"?"} ELSE Yes(rs.good /\ Matches(c) /\ c.e \in Benign)
    \* two tokens for the same disclosure have no random element in common, nor one token twice the same
    [] c.op = "census" -> IF Shows(c.r) THEN {"apart"} ELSE {"err"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
\* "lie": the commitment changed before the challenge was computed from it
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ ch' = IF c.op = "chain" THEN [n |-> c.n, bad |-> c.bad] ELSE ch
  /\ tok' = IF c.op = "chain" THEN NoTok
            ELSE IF c.op = "commit" THEN (IF r = "ok" THEN [st |-> c.way \o (IF tok.st = None THEN "" ELSE " again"), r |-> c.r] ELSE NoTok) ELSE tok
  /\ rs' = IF c.op \in {"chain", "commit"} THEN NoRs
           ELSE IF c.op = "respond"
           THEN IF r = "ok" THEN [st |-> "made", how |-> c.sk \o c.keys \o c.lie \o c.ipk, nonce |-> c.nonce,
                                  good |-> ch.bad = None /\ c.sk = "own" /\ (c.keys \in {"right", "more"} \/ L = 1) /\ c.lie = None /\ c.ipk = "root"]
                ELSE NoRs
           ELSE rs
Init == ch = [n |-> <<>>, bad |-> None] /\ tok = NoTok /\ rs = NoRs /\ ev = Ev([op |-> "init"], "")
=============================================================================
