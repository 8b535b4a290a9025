------------------------------- MODULE Codec -------------------------------
(* What one party writes the other reads (property C29). Two different objects, 1 and 2, of every kind in every form it
   is exchanged in; the reader's view of the last one it read; and what may become of an encoding on the way. *)
EXTENDS Kit
CONSTANTS Jsons,  \* the kinds exchanged as JSON
          Bytes,  \* the kinds exchanged as bytes
          Fixed   \* those of them of which every encoding is equally long
Kinds == (Jsons \X {"json"}) \cup (Bytes \X {"bytes"})
VARIABLES held,   \* the last object read: kind, form, which of the two; 0: none
          ev
vars == <<held>>
None == <<"", "", 0>>

\* damages of the text of JSON which leave the same document
Harmless == {"space", "order"}
\* damages after which there is no document, or none of the right type
Fatal == {"cut", "junk", "type"}
\* every variant of a damage was refused, or read as something else, or some of each
Lost == {"err", "other", "err,other"}

(* send      object n is written and read
   again     the object read last is written and read again
   damage    every variant of damage d (those numbered i modulo of) is done to the encoding of object n
   garble    a random damage of it
   foreign   the encoding of something else is read (some kinds look the same) *)
Outs(c) ==
  CASE c.op = "send" -> {ToString(c.n)}
    [] c.op = "again" -> {ToString(held[3])}
    [] c.op = "damage" /\ c.d \in Harmless -> {ToString(c.n)}
    [] c.op = "damage" /\ c.d \in Fatal /\ (c.f = "json" \/ c.k \in Fixed) -> {"err", "none"}
    [] c.op = "damage" -> Lost \cup {"none"}
    \* not a document; one with other members; one with other values
    [] c.op = "garble" /\ c.shape = "none" -> {"err"}
    [] c.op = "garble" /\ c.shape = "other" -> Lost \cup {ToString(c.n)}
    [] c.op = "garble" -> Lost
    [] c.op = "foreign" -> {"not", "mine"}
    [] c.op = "new" -> {"ok"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN CHOOSE x \in o : TRUE ELSE [any |-> Tup(o)]
Allowed(c, r) == r \in Outs(c)
Init == held = None /\ ev = Ev([op |-> "new"], "ok")
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ held' = IF c.op = "send" THEN <<c.k, c.f, c.n>> ELSE held
\* the reader holds one of the two objects of a kind that is exchanged
HoldsOne == held = None \/ (<<held[1], held[2]>> \in Kinds /\ held[3] \in {1, 2})
=============================================================================
