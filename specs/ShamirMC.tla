------------------------------ MODULE ShamirMC ------------------------------
(* Exhaustive: (a) the design theorem - any threshold of the shares of any polynomial gives the secret;
   (b) every share list up to LenHi over the field, as calls for replay. *)
EXTENDS Shamir
CONSTANTS MaxT, LenHi, MaxNew, IdHi

Ids == 0..IdHi
Vals == 0..(P - 1)
Poly(t) == [1..t -> Vals]
Res(c) == IF c.op = "new" THEN IF SchemeOk(c.t, c.n) THEN "ok" ELSE "err" ELSE CombineRes(c.t, c.sh)
MCStep(c) == LET r == Res(c) IN /\ Allowed(c, r) /\ ev' = Ev(c, r) /\ UNCHANGED vars

\* dealing: every polynomial of degree < t with a non-zero intercept
Deal == \E t \in 2..MaxT : \E n \in t..IdHi : \E p \in Poly(t) :
          /\ p[1] # 0 /\ dealt = <<>>
          /\ scheme' = <<t, n>> /\ secret' = p[1]
          /\ dealt' = [i \in 1..n |-> <<i, Eval(p, i)>>]
          /\ ev' = Ev([op |-> "model"], "")
Combine == \E t \in 2..MaxT, k \in 0..LenHi : \E sh \in [1..k -> Ids \X Vals] :
             MCStep([op |-> "combine", t |-> t, n |-> IF t > 3 THEN t ELSE 3, sh |-> sh])
New == \E t, n \in 0..MaxNew : MCStep([op |-> "new", t |-> t, n |-> n])
Next == (dealt = <<>> /\ (Combine \/ New)) \/ Deal

Emit == ev'.c.op = "model" \/ EmitEdge(vars, ev', vars')

\* --- properties of the design ---
Picks(n) == {q \in SeqsOf(1..n, 0, 3) : NoDup(q)}
Reconstruct ==
  dealt # <<>> =>
    /\ SplitOk(scheme[1], scheme[2], secret, dealt)
    /\ \A q \in Picks(scheme[2]) :
         LET sh == [i \in DOMAIN q |-> dealt[q[i]]]
             w == CombineRes(scheme[1], sh)
         IN w = IF Len(q) < scheme[1] \/ \E i \in DOMAIN sh : sh[i][2] = 0 THEN "err" ELSE ToString(secret)
\* t-1 shares are compatible with every secret
Hiding ==
  dealt # <<>> =>
    LET t == scheme[1] IN
    \A s \in 1..(P - 1) : \E p \in Poly(t) :
        p[1] = s /\ \A i \in 1..(t - 1) : Eval(p, i) = dealt[i][2]
View == vars
=============================================================================
