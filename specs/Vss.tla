-------------------------------- MODULE Vss --------------------------------
(* ursa_sharing::feldman and ::pedersen over a prime-order group (property C16).
   Group elements are vectors over Z_P: Feldman's group has dimension 1 (an element is its discrete
   logarithm); Pedersen's has dimension 2, so that g and h are independent, as the scheme assumes. *)
EXTENDS Kit, Modp
VARIABLES ev
vars == <<>>

\* one-dimensional: sum of comms[i] * x^(i-1)
FeldmanOk(t, g, comms, id, val) ==
  /\ Len(comms) >= t
  /\ id # 0 /\ val \in 1..(P - 1)
  /\ Eval(comms, id) = Mul(g, val)
\* two-dimensional
PedersenOk(t, g, h, comms, id, val, bl) ==
  /\ Len(comms) >= t
  /\ id # 0 /\ val \in 1..(P - 1) /\ bl \in 1..(P - 1)
  /\ \A d \in 1..2 : Eval([i \in DOMAIN comms |-> comms[i][d]], id) = Add(Mul(g[d], val), Mul(h[d], bl))

Verdict(b) == IF b THEN "ok" ELSE "err"
\* interpolation test: shares sh (pairs) lie on one polynomial of degree < t through secret
OnOnePoly(t, sec, sh) ==
  LET xs == <<0>> \o [i \in 1..(t - 1) |-> sh[i][1]]
      ys == <<sec>> \o [i \in 1..(t - 1) |-> sh[i][2]]
  IN \A i \in 1..Len(sh) : sh[i][2] = Interp(xs, ys, sh[i][1])

\* a well-formed encoding is: generators, count, count elements - and nothing else
VerifierBytes(c) == Verdict(c.len = c.head + 4 + c.count * c.size /\ c.count <= c.have)

Allowed(c, r) ==
  CASE c.op = "fverify" -> r = Verdict(FeldmanOk(c.t, c.g, c.comms, c.id, c.val))
    [] c.op = "pverify" -> r = Verdict(PedersenOk(c.t, c.g, c.h, c.comms, c.id, c.val, c.bl))
    \* r = [g, comms, shares]
    [] c.op = "fsplit" ->
         IF c.secret = 0 THEN r = "err"
         ELSE /\ Len(r.sh) = c.n /\ Len(r.comms) = c.t
              /\ \A i \in 1..c.n : r.sh[i][1] = i
              /\ c.g # 0 => r.g = c.g
              /\ OnOnePoly(c.t, c.secret, r.sh)
              /\ r.comms[1] = Mul(r.g, c.secret)
              /\ \A i \in 1..c.n : Eval(r.comms, i) = Mul(r.g, r.sh[i][2])
    [] c.op = "psplit" ->
         IF c.secret = 0 THEN r = "err"
         ELSE /\ Len(r.sh) = c.n /\ Len(r.bsh) = c.n /\ Len(r.comms) = c.t
              /\ \A i \in 1..c.n : r.sh[i][1] = i /\ r.bsh[i][1] = i
              /\ (c.g # <<0, 0>> => r.g = c.g) /\ (c.h # <<0, 0>> => r.h = c.h)
              /\ OnOnePoly(c.t, c.secret, r.sh) /\ OnOnePoly(c.t, r.blinding, r.bsh)
              /\ \A i \in 1..c.n, d \in 1..2 :
                   Eval([k \in 1..c.t |-> r.comms[k][d]], i) = Add(Mul(r.g[d], r.sh[i][2]), Mul(r.h[d], r.bsh[i][2]))
    [] c.op \in {"fbytes", "pbytes"} -> r = VerifierBytes(c)
    [] c.op = "recover" -> r = "same"
    [] c.op = "spread" -> r = "all"
    [] OTHER -> FALSE
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r)
Init == ev = Ev([op |-> "init"], "")
=============================================================================
