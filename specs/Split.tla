-------------------------------- MODULE Split --------------------------------
(* Splitting and rebuilding byte strings, libursa/src/sharing/shamir.rs (property C14).
   Fields: "small" is Z_P of the model, whose numbers are followed exactly; "p257", "m61", "ed", "bls" are other prime
   fields, where a secret is followed as what comes back being the same number or not; "zero", "one" are no fields.
   Shares are <<identifier, value>>. Results are strings ("err" for a refusal, "?" where only the absence of a
   crash is promised), but the results of split, which are the sequence of shares, empty for a refusal. *)
EXTENDS Kit, Modp
VARIABLES pars, dealt, secret, ev
vars == <<pars, dealt, secret>>
Big == 2147483647
Size(f) == CASE f = "zero" -> 0 [] f = "one" -> 1 [] f = "small" -> P [] f = "p257" -> 257 [] OTHER -> Big
\* secrets: "zero", "one", "max" the size less one, "size", "over" beyond it, "mid" something in between, "empty" no byte
SecretOk(s) == s \in {"zero", "one", "mid", "max"}
\* identifiers must be different from each other and from zero in the field
ParamsOk(f, t, n) == n >= t /\ t >= 2 /\ Size(f) >= 2 /\ n < Size(f)

\* --- explicit shares over Z_P
BadShares(sh) ==
  \/ Len(sh) < 2
  \/ \E i \in DOMAIN sh : M(sh[i][1]) = 0
  \/ \E i, j \in DOMAIN sh : i # j /\ M(sh[i][1]) = M(sh[j][1])
At0(sh) == Interp([i \in DOMAIN sh |-> M(sh[i][1])], [i \in DOMAIN sh |-> M(sh[i][2])], 0)
Zeros(sh) == \E i \in DOMAIN sh : M(sh[i][2]) = 0
\* the results a call may have
\* a share of value zero may be refused: the code takes it for no share at all
Comb(sh) == IF BadShares(sh) THEN {"err"} ELSE {ToString(At0(sh))} \cup (IF Zeros(sh) THEN {"err"} ELSE {})

OnOnePoly(t, sec, sh) ==
  LET k == IF Len(sh) < t - 1 THEN Len(sh) ELSE t - 1
      xs == <<0>> \o [i \in 1..k |-> sh[i][1]]
      ys == <<sec>> \o [i \in 1..k |-> sh[i][2]]
  IN \A i \in 1..Len(sh) : sh[i][2] = Interp(xs, ys, sh[i][1])
SplitOk(t, n, sec, r) == /\ Len(r) = n
                         /\ \A i \in 1..n : r[i][1] = i
                         /\ OnOnePoly(t, sec, r)

\* --- split and rebuild at once, by position
Dups(q) == \E i, j \in DOMAIN q : i # j /\ q[i] = q[j]
Round(c) == IF ~ParamsOk(c.f, c.t, c.n) \/ ~SecretOk(c.s) THEN {"nosplit"}
            ELSE IF Len(c.pick) < 2 \/ Dups(c.pick) THEN {"err"}
            \* fewer than the threshold: nothing is promised, but in a large field they never give the secret
            ELSE IF Len(c.pick) < c.t THEN IF Size(c.f) = Big THEN {"other"} ELSE {"?"}
            ELSE IF Size(c.f) = Big THEN {"same"} ELSE {"same", "err"}

RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE M(256 * Num(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)])
\* shares from bytes: the value, big-endian, then one byte of identifier
From(c) == IF c.b = <<>> THEN {"err"} ELSE {ToString(c.b[Len(c.b)]) \o ":" \o ToString(Num(SubSeq(c.b, 1, Len(c.b) - 1)))}
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE a * Power(a, n - 1)
Picked(c) == [i \in DOMAIN c.pick |-> dealt[c.pick[i]]]

Outs(c) ==
  CASE c.op = "combine" -> Comb(c.sh)
    [] c.op = "round" -> Round(c)
    [] c.op = "from" -> From(c)
    [] c.op = "share" -> {"same"}               \* to bytes and back
    \* some of the shares last dealt, chosen by position
    [] c.op = "recover" -> IF Len(c.pick) < 2 \/ Dups(c.pick) THEN {"err"}
                           ELSE LET sh == Picked(c) IN
                                IF Len(sh) < pars[1] THEN Comb(sh)
                                ELSE {ToString(secret)} \cup (IF Zeros(sh) THEN {"err"} ELSE {})
    \* number of different lists of t-1 shares among many dealings of one secret: they hide it
    [] c.op = "spread" -> {ToString(Power(P, c.t - 1))}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) ==
  IF c.op = "split" THEN IF ~ParamsOk("small", c.t, c.n) \/ c.secret >= P THEN r = <<>> ELSE SplitOk(c.t, c.n, c.secret, r)
  ELSE "?" \in Outs(c) \/ r \in Outs(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ pars' = IF c.op = "split" /\ r # <<>> THEN <<c.t, c.n>> ELSE pars
  /\ dealt' = IF c.op = "split" /\ r # <<>> THEN r ELSE dealt
  /\ secret' = IF c.op = "split" /\ r # <<>> THEN c.secret ELSE secret
Init == pars = <<>> /\ dealt = <<>> /\ secret = 0 /\ ev = Ev([op |-> "init"], "")
=============================================================================
