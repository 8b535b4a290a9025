------------------------------ MODULE BlsBnMC ------------------------------
EXTENDS BlsBn
CONSTANTS NSig, NKey, NMsg, Pos
vars == <<made>>
Ks == 0..Neg
Do(c) == Step(c, Want(c))
One == {c \in [op : {"verify"}, i : 0..Len(made), m : 0..NMsg, k : Ks, gk : 1..2, g : 1..2] :
         /\ Len(made) <= 1
         /\ c.i = 0 => c.m = 0
         /\ c.m = 0 \/ c.i # 0 }
Kinds == {"sk", "vk", "gen", "sig", "multi", "pop"}
Edits == {"none", "short", "short1", "empty", "long", "long1", "zero", "ff"}
Next == \/ Len(made) < NSig /\ \E k \in Ks, m \in 1..NMsg : Do([op |-> "sign", k |-> k, m |-> m])
        \/ \E c \in One : Do(c)
        \/ \E ks \in SeqsOf(Ks, 0, NKey), m \in 1..NMsg : Do([op |-> "multi", ks |-> ks, m |-> m, gk |-> 1, g |-> 1])
        \/ \E ks \in SeqsOf(Ks, 0, 2), gk, g \in 1..2 : (gk # 1 \/ g # 1) /\ Do([op |-> "multi", ks |-> ks, m |-> 1, gk |-> gk, g |-> g])
        \/ made = <<>> /\ \E k0, k \in Ks, g0, gk, g \in 1..2, as \in {"pop", "sig"} : Do([op |-> "pop", k0 |-> k0, g0 |-> g0, k |-> k, gk |-> gk, g |-> g, as |-> as])
        \/ made = <<>> /\ \E d \in Kinds : \/ \E e \in Edits : Do([op |-> "dec", kind |-> d, edit |-> e, pos |-> 0])
                                           \/ \E p \in 0..Pos : Do([op |-> "dec", kind |-> d, edit |-> "flip", pos |-> p])
        \/ made = <<>> /\ \E n \in {0, 1, 31, 32, 33, 64} : Do([op |-> "seed", len |-> n])
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* without keys related to each other, an aggregate verifies exactly for one signature of each listed key, in any order
Plain(ks) == \A i \in DOMAIN ks : ks[i] \in Bases
Same(q, ks) == Len(q) = Len(ks) /\ \A k \in Bases : Cardinality({i \in DOMAIN q : q[i].k = k}) = Cardinality({i \in DOMAIN ks : ks[i] = k})
Sound == ev.c.op = "multi" /\ Plain(ev.c.ks) /\ (\A i \in DOMAIN made : made[i].k \in Bases) =>
           (ev.r = "yes" <=> ev.c.ks # <<>> /\ ev.c.gk = ev.c.g /\ Msgs(made) = {ev.c.m} /\ Same(made, ev.c.ks))
\* the order of the list does not matter
SumsOf == ev.c.op = "multi" /\ ev.r = "yes" => ev.c.ks # <<>>
EmitS == Assert(Sound', ev') /\ Assert(SumsOf', ev') /\ Emit
=============================================================================
