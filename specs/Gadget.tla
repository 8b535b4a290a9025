------------------------------- MODULE Gadget -------------------------------
(* Proofs about committed numbers with the gadgets of bulletproofs_amcl (property C24): that a number lies within
   bounds, is not zero, is a member of a set (two gadgets) or not a member of one; and two of them in one proof.
   A number is <<k, o>>: 2^k + o, or o itself when k = -1 (negative ones are residues). A statement is a record
   with kind, lo, hi, bits and set; the committed value is v. Values and parameters not used by a kind are ignored.
   Honest provers go through the library's functions; forgers ("f1", "f2", "f3") use the gadget with a witness of
   their own making. *)
EXTENDS Csat
VARIABLES pf,   \* the proof made last: its statement, value and how it was made
          ev
vars == <<pf>>
NoPf == [st |-> [kind |-> "none"], v |-> <<-1, 0>>, how |-> "none"]
Init == pf = NoPf /\ ev = Ev([op |-> "init"], "")

\* order of numbers; offsets are small against the powers used
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* y - x < 2^bits, for x <= y
Fits(x, y, bits) == IF x[1] = y[1] THEN bits > 20 \/ y[2] - x[2] < Pow2(bits) ELSE bits = 64
InBounds(st, v) == /\ Le(st.lo, v) /\ Le(v, st.hi) /\ st.bits <= 64
                   /\ Fits(st.lo, v, st.bits) /\ Fits(v, st.hi, st.bits)
Holds(st, v) ==
  CASE st.kind = "bound" -> InBounds(st, v)
    [] st.kind = "nonzero" -> v # <<-1, 0>>
    [] st.kind \in {"member", "alt"} -> v \in Rng(st.set)
    [] st.kind = "nonmember" -> v \notin Rng(st.set)
    [] st.kind = "pair" -> InBounds(st, v) /\ v \notin Rng(st.set)
Honest(how) == how \in {"rng", "blind"}

\* c.at: which committed variable is the value
SatisfiableAt(c, w) == Sat(c.n, {Norm(c.n, c.cons[i], c.p) : i \in DOMAIN c.cons},
                         [x \in 1..(3 * c.n + c.m) |-> IF x = 3 * c.n + c.at THEN w ELSE -1], c.p)
Residue(x, p) == (x[2] + 64 * p) % p
HoldsMod(st, w, p) ==
  CASE st.kind = "bound" -> st.lo[2] <= w /\ w <= st.hi[2] /\ w - st.lo[2] < Pow2(st.bits) /\ st.hi[2] - w < Pow2(st.bits)
    [] st.kind = "nonzero" -> w # 0
    [] st.kind \in {"member", "alt"} -> \E i \in DOMAIN st.set : Residue(st.set[i], p) = w
    [] st.kind = "nonmember" -> \A i \in DOMAIN st.set : Residue(st.set[i], p) # w
Decides(c) == \A w \in 0..(c.p - 1) : (SatisfiableAt(c, w) <=> HoldsMod(c.st, w, c.p))

\* the same statement, commitments, label and generators
NoGates(st) == (st.kind = "bound" /\ st.bits = 0) \/ (st.kind = "nonmember" /\ st.set = <<>>)
Vacuous(st) == st.kind = "nonmember" /\ st.set = <<>>
\* (a circuit without multiplications does not touch the vectors of generators; one without constraints not even g)
Same(c) == c.st = pf.st /\ c.e = "none" /\ c.label = "a" /\ (c.gens = "std" \/ (c.gens \in {"G", "H"} /\ NoGates(c.st))
                                                       \/ (c.gens = "g" /\ Vacuous(c.st)))
Want(c) ==
  CASE c.op = "prove" -> IF c.how = "neither" THEN "err" ELSE "done"
    [] c.op = "verify" -> IF Same(c) /\ Holds(pf.st, pf.v) THEN (IF Honest(pf.how) THEN "ok" ELSE "?") ELSE "err"
    \* the commitment to the value is the one the caller's blinding gives
    [] c.op = "opens" -> IF pf.how = "blind" /\ Holds(pf.st, pf.v) THEN "yes" ELSE "?"
    [] OTHER -> "?"
Allowed(c, r) == IF c.op = "circuit" THEN r = "ok" /\ Decides(c)
                 ELSE LET w == Want(c) IN r = w \/ (w = "?" /\ r \in {"ok", "err", "yes", "no", "none"})
Step(c, r) == /\ ev' = Ev(c, r)
              /\ pf' = IF c.op = "prove" /\ r = "done" THEN [st |-> c.st, v |-> c.v, how |-> c.how]
                       ELSE IF c.op = "new" THEN NoPf ELSE pf
=============================================================================
