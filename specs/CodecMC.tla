------------------------------- MODULE CodecMC -------------------------------
EXTENDS Codec
CONSTANTS Of  \* parts in which the variants of a damage are tried
Do(c) == Step(c, Want(c))
Damages(f) == IF f = "json" THEN {"cut", "junk", "space", "order", "digit", "gone", "null", "type", "elem"} ELSE {"cut", "junk", "flip"}
Sends == \E x \in Kinds, n \in 1..2 : (held = None \/ (held[1] = x[1] /\ held[2] = x[2])) /\ Do([op |-> "send", k |-> x[1], f |-> x[2], n |-> n])
Again == held # None /\ Do([op |-> "again", k |-> held[1], f |-> held[2]])
Hurt == held = None /\ \E x \in Kinds, n \in 1..2 : \E d \in Damages(x[2]) : \E i \in 0..(IF d \in Harmless THEN 1 ELSE Of) - 1 :
          Do([op |-> "damage", k |-> x[1], f |-> x[2], n |-> n, d |-> d, i |-> i, of |-> IF d \in Harmless THEN 1 ELSE Of])
Foreign == held = None /\ \E x \in Kinds, y \in Kinds : x[2] = y[2] /\ x[1] # y[1] /\ Do([op |-> "foreign", k |-> x[1], f |-> x[2], k2 |-> y[1], f2 |-> y[2], n |-> 1])
Next == Sends \/ Again \/ Hurt \/ Foreign
Emit == EmitEdge(vars, ev', vars')
View == vars
=============================================================================
