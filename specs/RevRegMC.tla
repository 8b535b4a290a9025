----------------------------- MODULE RevRegMC -----------------------------
EXTENDS RevReg
CONSTANTS K,     \* registry changes in a history
          Fam    \* "C05": presentations; "C06": registry, deltas, witnesses
Do(c) == Legal(c) /\ Step(c, Want(c))
Room == Len(hist) <= K
Out == {0, N + 1}
Reg == \/ \E i \in Idx \cup Out, f \in {0, 1}, o \in {"issue", "revoke", "recover"} :
            (f = 0 \/ i = me) /\ (Room \/ i \in Out \/ f = 1 \/ (o = "issue" /\ ByDef)) /\ Do([op |-> o, i |-> i, fail |-> f])
       \/ \E A \in SUBSET (Idx \ Cur), B \in SUBSET Cur, x \in {0, N + 1, -1}, y \in {"i", "r"}, f \in {0, 1, 2, N} :
            /\ x = -1 => y = "i"
            /\ f # 0 => x = -1
            /\ x # -1 => Cardinality(A) + Cardinality(B) <= 1
            /\ Room \/ x # -1 \/ (f \in 1..(Cardinality(A) + Cardinality(B)))
            /\ f = 0 \/ f <= Cardinality(A) + Cardinality(B)
            /\ Do([op |-> "update", iss |-> Tup(A \cup (IF x # -1 /\ y = "i" THEN {x} ELSE {})), rev |-> Tup(B \cup (IF x # -1 /\ y = "r" THEN {x} ELSE {})), fail |-> f])
Delta == \E a, b \in Versions, how \in {"left", "right", "direct", "first"} : a <= b /\ (how = "first" => a = 0) /\ Do([op |-> "delta", a |-> a, b |-> b, how |-> how])
Merge == \E a, b, x, d \in Versions : a <= b /\ x <= d /\ (V(b) # V(x) \/ b = x) /\ Do([op |-> "merge", a |-> a, b |-> b, c |-> x, d |-> d])
Wit == \/ \E i \in Idx \cup Out, b \in Versions, how \in {"left", "right", "first"}, f \in {0, 1, 2} :
            /\ f # 0 => how = "left" /\ i = me
            /\ i # me => how = "left"
            /\ Do([op |-> "witness", i |-> i, b |-> b, how |-> how, fail |-> f])
       \/ \E i \in {me} \cup Out, a, b \in Versions, how \in {"left", "right", "direct"}, f \in {0, 1, 2} :
            /\ a <= b /\ (f # 0 => how = "left" /\ i = me) /\ (i # me => how = "left")
            /\ Do([op |-> "wupdate", i |-> i, a |-> a, b |-> b, how |-> how, fail |-> f])
Store == \E b \in Versions : Do([op |-> "store", b |-> b])
Present == \E i \in Idx, a, b \in Versions, v \in {"same", "other", "otherkey", "none"}, k \in {"same", "other"}, pr \in BOOLEAN, mix \in {"no", "yes"} :
  /\ v # "same" => k = "same" /\ i = me /\ a = b
  /\ k # "same" => i = me /\ a = b
  /\ mix = "yes" => i = me /\ a = b /\ v = "same" /\ k = "same" /\ pr
  /\ ~pr => i = me /\ a = b
  /\ i # me => a = b
  /\ Do([op |-> "present", p |-> [i |-> i, a |-> a, prove |-> pr, mix |-> mix], v |-> [reg |-> v, key |-> k, b |-> b]])
Next == IF Fam = "C06" THEN (~Has /\ (Reg \/ Delta \/ Merge)) \/ Wit ELSE
        \/ (Room /\ \E A \in SUBSET (Idx \ Cur), B \in SUBSET Cur : A \cup B # {} /\ Do([op |-> "update", iss |-> Tup(A), rev |-> Tup(B), fail |-> 0]))
        \/ \E b \in Versions : Do([op |-> "witness", i |-> me, b |-> b, how |-> "left", fail |-> 0])
        \/ Store \/ Present
\* C05: a presentation convinces only if the index is live in the verifier's registry, and then with any witness brought up to date
Sound == LET p == ev.c.p  v == ev.c.v IN (ev.c.op = "present" /\ ev.r = "yes" /\ v.reg = "same") => p.i \in V(v.b) /\ p.mix = "no"
Emit == Assert(Sound', ev') /\ EmitEdge(vars, ev', vars')
--------------------------------------------------------------------------
Complete == (Has /\ me \in Cur /\ wit = Cur \ {me}) => Live(me, Cur)
\* C06: the accumulator is the sum over the live indices, never using the tail N+1; deltas compose
NoForbidden == N + 1 \notin Omega(me, wit \cap Idx) /\ \A S \in {V(a) : a \in Versions} : Acc(S) \subseteq Idx
Compose == \A a, b, c \in Versions : a <= b /\ b <= c =>
  /\ (V(a) \cup DIss(a, c)) \ DRev(a, c) = V(c)
  /\ DIss(a, c) = (DIss(a, b) \ DRev(b, c)) \cup (DIss(b, c) \ DRev(a, b))
=============================================================================
