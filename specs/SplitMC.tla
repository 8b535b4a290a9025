------------------------------- MODULE SplitMC -------------------------------
(* (a) the design: any threshold of the shares of any polynomial gives the secret, fewer fit every secret;
   (b) every list of shares up to LenHi over Z_P and a little beyond, as calls for replay, and splits by class. *)
EXTENDS Split
CONSTANTS MaxT, LenHi, IdHi, ValHi, Wide
Vals == 0..(P - 1)
Poly(t) == [1..t -> Vals]
Deal == \E t \in 2..MaxT : \E n \in t..(P - 1) : \E p \in Poly(t) :
          /\ dealt = <<>> /\ pars' = <<t, n>> /\ secret' = p[1]
          /\ dealt' = [i \in 1..n |-> <<i, Eval(p, i)>>] /\ ev' = Ev([op |-> "model"], "")
Do(c) == ev' = Ev(c, Want(c)) /\ UNCHANGED vars
\* lists of shares: of length at most 2 with values and identifiers beyond the field, longer ones within it
Combine == \/ \E k \in 0..2 : \E sh \in [1..k -> (0..IdHi) \X (0..ValHi)] : Do([op |-> "combine", sh |-> sh])
           \/ \E k \in 3..LenHi : \E sh \in [1..k -> (0..P) \X Vals] : Do([op |-> "combine", sh |-> sh])
Fields == {"zero", "one", "small", "p257", "m61", "ed", "bls"}
Secrets == {"empty", "zero", "one", "mid", "max", "size", "over"}
Totals(f) == {0, 1, 2, 3, 4, 5, 6, 255} \cup (IF f = "small" THEN {P - 1, P, P + 1} ELSE {})
Picks(n) == {q \in SeqsOf(1..(IF n > 4 THEN 4 ELSE n), 0, 3) : TRUE} \cup {[i \in 1..n |-> i], [i \in 1..n |-> n + 1 - i]} \cup (IF n > 1 THEN {<<1, n>>, <<n, 1>>} ELSE {})
Round1 == \E f \in Fields, s \in Secrets : \E n \in Totals(f), t \in {0, 1, 2, 3, 4, 5, 254, 255}, z \in {0, 1, 40}, how \in {"direct", "bytes"} :
            \E q \in (IF n <= 6 /\ n >= 2 /\ (Wide = 1 \/ (s = "mid" /\ z = 0 /\ how = "direct")) THEN Picks(n)
                      ELSE {[i \in 1..n |-> n + 1 - i], IF n < 1 THEN <<>> ELSE <<1>>, [i \in 1..(IF t < n THEN t ELSE n) |-> i], [i \in 1..(IF t - 1 < n /\ t > 0 THEN t - 1 ELSE 0) |-> i + 1]}) :
              (n < 100 \/ (z = 0 /\ how = "direct" /\ s \in {"mid", "over"} /\ (Len(q) < 20 \/ f = "bls" \/ f = "small"))) /\ Do([op |-> "round", f |-> f, s |-> s, t |-> t, n |-> n, z |-> z, how |-> how, pick |-> q])
From1 == \/ \E b \in SeqsOf({0, 1, 3, 128, 255}, 0, 4) : Do([op |-> "from", b |-> b])
         \/ \E b \in SeqsOf({0, 1, 255}, 0, 2), f \in {"zero", "one"} : Do([op |-> "fromno", f |-> f, b |-> b])
         \/ \E f \in {"small", "p257", "m61", "ed", "bls"}, v \in Secrets, i \in {0, 1, 127, 255} : v \notin {"empty", "size", "over"} /\ Do([op |-> "share", f |-> f, s |-> v, id |-> i])
         \/ \E e \in {"negid", "negval", "negfield", "zeroval", "manyzero"} : Do([op |-> "odd", e |-> e])
Next == (dealt = <<>> /\ (Combine \/ Round1 \/ From1)) \/ Deal
Emit == ev'.c.op = "model" \/ EmitEdge(vars, ev', vars')

PicksD(n) == {q \in SeqsOf(1..n, 2, 3) : NoDup(q)}
Reconstruct == dealt # <<>> => /\ SplitOk(pars[1], pars[2], secret, dealt)
                               /\ \A q \in PicksD(pars[2]) : Len(q) >= pars[1] =>
                                    ToString(secret) \in Comb([i \in DOMAIN q |-> dealt[q[i]]])
Hiding == dealt # <<>> => \A s \in Vals : \E p \in Poly(pars[1]) : p[1] = s /\ \A i \in 1..(pars[1] - 1) : Eval(p, i) = dealt[i][2]
View == vars
=============================================================================
