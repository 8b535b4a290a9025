-------------------------------- MODULE Kit --------------------------------
(* What every specification shares: emission of the state graph for replay, and small helpers. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

\* Used in an ACTION_CONSTRAINT: writes one transition of the graph. Always TRUE.
EmitEdge(s, ev, t) == PrintT("@@" \o ToJson([s |-> s, e |-> ev, t |-> t]))

Rng(q) == {q[i] : i \in DOMAIN q}
\* all sequences over S of length in lo..hi
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
NoDup(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* the elements of a finite set of integers in ascending order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* a finite set as a sequence, in some order
RECURSIVE Tup(_)
Tup(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Tup(S \ {x})
\* call and result
Ev(c, r) == [c |-> c, r |-> r]
=============================================================================
