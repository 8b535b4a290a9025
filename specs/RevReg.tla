------------------------------ MODULE RevReg ------------------------------
(* A revocation registry, its deltas, one holder's witness, and presentations with a proof of
   non-revocation (properties C05, C06).

   The accumulator of the real registry is the sum of tails g'^(gamma^k). It is represented by the set of
   the exponents k, and a pairing multiplies by shifting exponents; so the equation the verifier checks,
   e(g_i, acc) = z * e(g, omega), reads {k + i : k in Acc} = {N+1} u Omega.

   hist is the sequence of the live sets the registry has gone through, newest last; version 0 is hist[1].
   me is the holder's index, wit the live indices, other than me, that its witness is made for ({0}: no
   witness yet). *)
EXTENDS Kit
CONSTANTS N,       \* capacity
          ByDef    \* issuance by default
VARIABLES hist, me, wit, ev
vars == <<hist, me, wit>>

Idx == 1..N
V(a) == hist[a + 1]
Cur == hist[Len(hist)]
Versions == 0..(Len(hist) - 1)

Acc(S) == {N + 1 - j : j \in S}
Omega(i, S) == {N + 1 - j + i : j \in S}
Shift(S, i) == {k + i : k \in S}
Has == wit # {0}
\* the credential of index i, with me's witness, against the accumulator of r
Live(i, r) == Has /\ Shift(Acc(r), i) = {N + 1} \cup Omega(me, wit)

RECURSIVE Txt(_)
Txt(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o Txt(Tail(q))
Str(S) == Txt(Sorted(S))
\* a delta as text: previous accumulator > accumulator + issued - revoked
DeltaStr(p, c, i, r) == p \o ">" \o Str(c) \o "+" \o Str(i) \o "-" \o Str(r)

InRange(S) == S \subseteq Idx
Set(q) == Rng(q)
-------------------------------------------------------------------------------
\* the next live set and the result of a call that changes the registry. fail: the tails source fails at
\* its fail-th access (0: never)
Bad(c) ==
  CASE c.op = "update" -> ~InRange(Set(c.iss)) \/ ~InRange(Set(c.rev)) \/ c.fail \in 1..(Cardinality(Set(c.iss)) + Cardinality(Set(c.rev)))
    [] c.op = "issue" -> c.i \notin Idx \/ (~ByDef /\ c.fail = 1)
    [] OTHER -> c.i \notin Idx \/ c.fail = 1
Adds(c) == CASE c.op = "update" -> Set(c.iss)
             [] c.op = "issue" -> IF ByDef THEN {} ELSE {c.i}
             [] c.op = "recover" -> {c.i}
             [] OTHER -> {}
Dels(c) == CASE c.op = "update" -> Set(c.rev)
             [] c.op = "revoke" -> {c.i}
             [] OTHER -> {}
\* calls outside this are the issuer's own mistakes, which a registry cannot see: it holds only the accumulator
Sensible(c) == Bad(c) \/ (Adds(c) \cap Cur = {} /\ Dels(c) \subseteq Cur)
NextLive(c) == (Cur \cup Adds(c)) \ Dels(c)
RegRes(c) ==
  IF Bad(c) THEN "err:" \o Str(Cur)
  ELSE IF c.op = "issue" /\ ByDef THEN "ok:" \o Str(Cur)
  ELSE "ok:" \o Str(NextLive(c)) \o "|" \o DeltaStr(Str(Cur), NextLive(c), Adds(c), Dels(c))
RegOps == {"issue", "revoke", "recover", "update"}
-------------------------------------------------------------------------------
\* the delta from version a to b: the net change, however it is put together
DIss(a, b) == V(b) \ V(a)
DRev(a, b) == V(a) \ V(b)
DeltaRes(a, b, how) == DeltaStr(IF how = "first" THEN "none" ELSE Str(V(a)), V(b), DIss(a, b), DRev(a, b))
\* merging the delta from a to b with that from c to d
MergeRes(c) == IF V(c.b) # V(c.c) THEN "err:" \o DeltaRes(c.a, c.b, "")
               ELSE "ok:" \o DeltaStr(Str(V(c.a)), V(c.d), V(c.d) \ V(c.a), V(c.a) \ V(c.d))
-------------------------------------------------------------------------------
Ask(v) == v.reg # "none"
\* p: what the prover uses (credential, registry version a, whether it proves non-revocation); v: what the verifier has
Accept(c) ==
  LET p == c.p  v == c.v IN
  /\ p.prove = Ask(v)
  /\ Ask(v) => /\ v.reg = "same" /\ v.key = "same"
               /\ V(p.a) = V(v.b)
               /\ Live(p.i, V(v.b))
               /\ p.mix = "no"      \* both parts are of one credential
Want(c) ==
  CASE c.op \in RegOps -> RegRes(c)
    [] c.op = "delta" -> DeltaRes(c.a, c.b, c.how)
    [] c.op = "merge" -> MergeRes(c)
    [] c.op = "witness" -> IF c.i \notin Idx \/ c.fail \in 1..Cardinality(V(c.b) \ {c.i}) THEN "err" ELSE "w:" \o Str(V(c.b) \ {c.i})
    [] c.op = "wupdate" -> IF c.i \notin Idx \/ c.fail \in 1..Cardinality((DIss(c.a, c.b) \cup DRev(c.a, c.b)) \ {c.i}) THEN "err:" \o Str(wit) ELSE "w:" \o Str(V(c.b) \ {me})
    [] c.op = "store" -> IF Live(me, V(c.b)) THEN "ok" ELSE "err"
    [] c.op = "present" -> IF Accept(c) THEN "yes" ELSE "no"
Ok(c, r) ==
  CASE c.op = "witness" -> r # "err" /\ c.i = me
    [] OTHER -> TRUE
Allowed(c, r) == r = Want(c)
\* what a driver may ask
Legal(c) ==
  CASE c.op \in RegOps -> Sensible(c)
    [] c.op = "wupdate" -> Has /\ V(c.a) \ {me} = wit
    [] c.op = "store" -> Has
    [] OTHER -> TRUE
Step(c, r) ==
  /\ Legal(c) /\ Allowed(c, r) /\ ev' = Ev(c, r)
  /\ hist' = IF c.op \in RegOps /\ ~Bad(c) /\ ~(c.op = "issue" /\ ByDef) THEN Append(hist, NextLive(c)) ELSE hist
  /\ wit' = IF c.op = "witness" /\ Ok(c, r) THEN V(c.b) \ {me}
            ELSE IF c.op = "wupdate" /\ r = "w:" \o Str(V(c.b) \ {me}) /\ c.i = me THEN V(c.b) \ {me} ELSE wit
  /\ me' = me
Init == /\ hist = << IF ByDef THEN Idx ELSE {} >>
        /\ me \in Idx /\ wit = {0}
        /\ ev = Ev([op |-> "init"], "")
=============================================================================
