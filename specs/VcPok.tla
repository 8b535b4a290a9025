-------------------------------- MODULE VcPok --------------------------------
(* Proofs of knowledge of the exponents of a vector commitment, libzmix/src/commitments/pok_vc.rs and libzmix/bbs/src/pok_vc.rs (property C23).
   Points and scalars are symbolic. A point is an integer combination, with scalar coefficients, of independent generators 1..G (0 names the identity);
   a scalar is an integer combination of the symbols below: so an equation between points holds on the curve iff it holds here, up to chance. *)
EXTENDS Kit
VARIABLE pf     \* the proof last made and what for
VARIABLE ev
vars == <<pf>>
NoPf == [lib |-> "none", gens |-> <<>>, secs |-> <<>>, bl |-> <<>>, chal |-> "", nonce |-> ""]
G == 1..4
R == 9          \* random blindings 1..R-1 by position; R: the randomness of an altered part
H == 10         \* the challenge computed by hashing
H2 == 11        \* another random challenge
Dim == 0..11
\* scalars
Zero == [i \in Dim |-> 0]
Num(k) == [Zero EXCEPT ![0] = k]
Sym(i) == [Zero EXCEPT ![i] = 1]
Add(a, b) == [i \in Dim |-> a[i] + b[i]]
Scale(k, a) == [i \in Dim |-> k * a[i]]
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN Zero ELSE Add(Head(q), SumOf(Tail(q)))
Chal(c) == CASE c = "own" -> Sym(H) [] c = "rnd" -> Sym(H2) [] c = "-1" -> Num(-1) [] c = "0" -> Num(0) [] c = "1" -> Num(1) [] c = "2" -> Num(2)
\* blindings: an integer, or 99: random
Rand == 99
Blind(b, i) == IF b = Rand THEN Sym(i) ELSE Num(b)
\* the coefficient of generator g in the point sum of scalars q over generators gs
Coef(gs, q, g) == SumOf([i \in DOMAIN gs |-> IF gs[i] = g THEN q[i] ELSE Zero])
\* the integer exponents of a commitment to secrets ss over generators gs
RECURSIVE Exp(_, _, _)
Exp(gs, ss, g) == IF gs = <<>> THEN 0 ELSE (IF Head(gs) = g THEN Head(ss) ELSE 0) + Exp(Tail(gs), Tail(ss), g)
Responses(p) == [i \in DOMAIN p.gens |-> Add(Blind(p.bl[i], i), Scale(-p.secs[i], Chal(p.chal)))]
\* altered responses: e is [k, i, j]
Edit(q, e) ==
  CASE e.k = "swap" -> [q EXCEPT ![e.i] = q[e.j], ![e.j] = q[e.i]]
    [] e.k = "rnd" -> [q EXCEPT ![e.i] = Sym(R)]
    [] e.k = "plus" -> [q EXCEPT ![e.i] = Add(@, Num(1))]
    [] e.k = "zero" -> [q EXCEPT ![e.i] = Zero]
    [] e.k = "less" -> [i \in 1..(Len(q) - 1) |-> q[i]]
    [] e.k = "first" -> Tail(q)
    [] e.k = "more" -> Append(q, Zero)
    [] e.k = "dup" -> Append(q, q[Len(q)])
    [] OTHER -> q
\* the commitment of the proof altered by adding generator pt (0: not altered, -1: replaced by a random point, -2: by the identity, -3: negated)
Rand0(p) == [g \in G |-> Coef(p.gens, [i \in DOMAIN p.gens |-> Blind(p.bl[i], i)], g)]
PointNow(p, pt) == [g \in G |-> CASE pt = -2 -> Zero [] pt = -3 -> Scale(-1, Rand0(p)[g]) [] pt = g -> Add(Rand0(p)[g], Num(1)) [] OTHER -> Rand0(p)[g]]
\* the equation of the verifier: c is [bases, cg, cs, chal, e, pt]
Recomputed(p, c, q) == [g \in G |-> Add(Coef(c.bases, q, g), Scale(Exp(c.cg, c.cs, g), Chal(c.chal)))]
SamePoint(g1, s1, g2, s2) == \A g \in G : Exp(g1, s1, g) = Exp(g2, s2, g)
Verdict(p, c) ==
  LET q == Edit(Responses(p), c.e) IN
  IF Len(c.bases) # Len(q) THEN "err"
  ELSE IF c.pt # -1 /\ Recomputed(p, c, q) = PointNow(p, c.pt) THEN "yes" ELSE "no"
\* the challenge must in addition be the hash of the generators, the recomputed point, the commitment and the nonce
Hashed(p, c) ==
  LET q == Edit(Responses(p), c.e) IN
  /\ c.chal = "own" /\ p.chal = "own" /\ c.bases = p.gens /\ Recomputed(p, c, q) = Rand0(p)
  /\ SamePoint(c.cg, c.cs, p.gens, p.secs) /\ c.nonce = p.nonce
Outs(c) ==
  CASE c.op = "prove" -> IF Len(c.secs) = Len(c.gens) THEN {"ok"} ELSE {"err"}
    [] c.op = "verify" -> {Verdict(pf, c)}
    \* the encoding of the identity is not unique in the curve library of zmix, so its hash is not either
    [] c.op = "complete" -> IF pf.lib # "b1" /\ Verdict(pf, c) = "yes" /\ Rand0(pf) = [g \in G |-> Zero] THEN {"yes", "no"} ELSE {IF Verdict(pf, c) = "yes" /\ ~Hashed(pf, c) THEN "no" ELSE Verdict(pf, c)}
    \* what bbs offers for a surrounding protocol: the recomputed point, compared with the one committed to
    [] c.op = "contrib" -> {Verdict(pf, c)}
    [] c.op = "bytes" -> IF c.how = "none" THEN {"same"} ELSE IF c.how = "flip" THEN {"diff", "err"} \cup (IF pf.lib # "b1" /\ Rand0(pf) = [g \in G |-> Zero] THEN {"same"} ELSE {}) ELSE {"err"}
    \* what was committed to at a position: "ok" if it is the generator and the blinding given
    [] c.op = "index" -> IF c.i < Len(c.gens) THEN {"ok"} ELSE {"err"}
    \* random blindings never repeat, fixed ones are used as given
    [] c.op = "census" -> {"distinct"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ pf' = IF c.op = "prove" THEN (IF r = "ok" THEN [lib |-> c.lib, gens |-> c.gens, secs |-> c.secs, bl |-> c.bl, chal |-> c.chal, nonce |-> c.nonce] ELSE NoPf) ELSE pf
Init == pf = NoPf /\ ev = Ev([op |-> "init"], "")
=============================================================================
