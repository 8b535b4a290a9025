-------------------------------- MODULE Hash --------------------------------
(* Hash functions for circuits in bulletproofs_amcl (property C26): Poseidon with 2, 4 and 8 inputs and MiMC, computed,
   as constraints, and in proofs of knowledge of a preimage. A function is [w |-> inputs, sbox, rounds |-> <<full,
   partial, full>>]; an image is given by inputs that have it. Distinct inputs have distinct images. *)
EXTENDS Csat
VARIABLES pf, ev
vars == <<pf>>
NoPf == [made |-> FALSE]
Init == pf = NoPf /\ ev = Ev([op |-> "init"], "")

\* computing, over the integers (p = 0) or a prime field; <<>> is undefined
Mod(x, p) == IF p = 0 THEN x ELSE ((x % p) + p) % p
Cube(x, p) == Mod(Mod(x * x, p) * x, p)
Box(s, x, p) == CASE s = "cube" -> Cube(x, p)
                  [] s = "quint" -> Mod(Cube(x, p) * Mod(x * x, p), p)
                  [] s = "inv" -> IF p = 0 THEN x ELSE Inv(x, p)   \* over the integers for 1 and -1 only
RECURSIVE Col(_, _, _, _, _)
Col(q, mds, i, j, p) == IF j > Len(q) THEN 0 ELSE Mod(q[j] * Mod(mds[j][i], p) + Col(q, mds, i, j + 1, p), p)
Kind(c, k) == IF k <= c.rounds[1] THEN "full" ELSE IF k <= c.rounds[1] + c.rounds[2] THEN "partial" ELSE "full"
RECURSIVE Perm(_, _, _, _)
Perm(c, q, k, p) ==
  IF k > c.rounds[1] + c.rounds[2] + c.rounds[3] THEN q
  ELSE LET w == Len(q)
           boxed == [x \in 1..w |-> Kind(c, k) = "full" \/ x = w]
           a == [x \in 1..w |-> Mod(q[x] + c.keys[(k - 1) * w + x], p)]
       IN IF c.sbox = "inv" /\ \E x \in 1..w : boxed[x] /\ a[x] = 0 THEN <<>>
          ELSE LET b == [x \in 1..w |-> IF boxed[x] THEN Box(c.sbox, a[x], p) ELSE a[x]]
               IN Perm(c, [x \in 1..w |-> Col(b, c.mds, x, 1, p)], k + 1, p)
RECURSIVE Mimc(_, _, _, _, _)
Mimc(l, r, keys, k, p) == IF k > Len(keys) THEN l ELSE Mimc(Mod(Cube(Mod(l + keys[k], p), p) + r, p), l, keys, k + 1, p)
Computed(c, p) == IF c.sbox = "mimc" THEN <<Mimc(c.in[1], c.in[2], c.keys, 1, p)>> ELSE Perm(c, c.in, 1, p)
HashHolds(c) ==
  LET q == Computed(c, c.p) IN
  IF c.sbox = "mimc" THEN q[1] = Mod(c.image, c.p)
  ELSE q # <<>> /\ IF c.whole THEN \A x \in DOMAIN q : q[x] = Mod(c.images[x], c.p) ELSE q[2] = Mod(c.image, c.p)

Fits(c) == Len(c.in) = c.f.w
\* a proof commits to the inputs; the image is the verifier's
Want(c) ==
  CASE c.op = "blank" -> "ok"
    [] c.op = "hash" -> IF Fits(c) THEN "ok" ELSE "err"
    [] c.op = "prove" -> IF Fits(c) /\ c.how \in {"rng", "blind"} THEN "done" ELSE "err"
    [] c.op = "pverify" -> IF pf.made /\ c.f = pf.f /\ c.img = pf.in /\ c.e = "none" /\ c.label = "a" /\ c.gens = "std" THEN "ok" ELSE "err"
    [] c.op = "pwit" -> IF c.in = c.img THEN "yes" ELSE "no"
    [] c.op = "opens" -> IF pf.made /\ c.in = pf.in /\ pf.how = "blind" THEN "yes" ELSE "no"
    [] c.op = "perm" -> Computed(c, 0)
    [] OTHER -> "?"
Allowed(c, r) == IF c.op = "pcircuit" THEN r = "ok" /\ (Satisfiable(c) <=> HashHolds(c)) ELSE r = Want(c)
Step(c, r) == /\ ev' = Ev(c, r)
              /\ pf' = CASE c.op = "prove" /\ r = "done" -> [made |-> TRUE, f |-> c.f, in |-> c.in, img |-> c.img, how |-> c.how]
                         [] c.op = "blank" -> NoPf
                         [] OTHER -> pf
=============================================================================
