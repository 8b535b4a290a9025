----------------------------- MODULE ClShowMC -----------------------------
EXTENDS ClShow
CONSTANTS Fam, Deep
S3 == <<"age", "height", "name">>
S2 == <<"age", "status">>
C1 == [k |-> 1, ms |-> 1, at |-> [age |-> 28, height |-> 175, name |-> 5]]
C2 == [k |-> 2, ms |-> 1, at |-> [age |-> 28, height |-> 60, name |-> 5]]
C3 == [k |-> 3, ms |-> 1, at |-> [age |-> 51, status |-> 7]]
Sub(c, key, sch, rev, preds) == [cred |-> c, key |-> key, schema |-> sch, rev |-> rev, preds |-> preds]
W(key, sch, rev, preds) == [key |-> key, schema |-> sch, rev |-> rev, preds |-> preds]
P(subs, common, n) == [subs |-> subs, common |-> common, nonce |-> n]
Pr(p, v) == [op |-> "present", p |-> p, v |-> v]
Q(a, t, v) == [a |-> a, t |-> t, v |-> v]
Perm(s) == {"age", "height", "name"} \cap s
Lists(S) == {Tup(T) : T \in SUBSET S}

------------------------------------------------------------------------------
\* C02: one sub proof; keys, nonces, schemas, revealed sets, forged values
KeyCalls(S(_)) == \E c \in {C1, C2, C3}, k, w \in 1..3, n, m \in 1..2, rev \in {<<>>, <<"age">>} :
   LET sch == IF c.k = 3 THEN S2 ELSE S3 IN
   S(Pr(P(<<Sub(c, k, sch, rev, <<>>)>>, <<>>, n), P(<<W(w, IF w = 3 THEN S2 ELSE S3, rev, <<>>)>>, <<>>, m)))
RevCalls(S(_)) == \E r, w \in SUBSET {"age", "height", "name"}, q \in {{}, {"age"}, {"name"}} :
   LET ps == IF q = {} THEN <<>> ELSE <<Q(CHOOSE a \in q : TRUE, "GE", 5)>> IN
   (Deep \/ q = {}) /\ S(Pr(P(<<Sub(C1, 1, S3, Tup(r), ps)>>, <<>>, 1), P(<<W(1, S3, Tup(w), ps)>>, <<>>, 1)))
SchCalls(S(_)) == \E s, w \in {S3, <<"age", "height">>, <<"age", "height", "name", "sex">>, <<"height", "age", "name">>, S2}, rev \in {<<>>, <<"age">>, <<"name">>, <<"sex">>} :
   S(Pr(P(<<Sub(C1, 1, s, rev, <<>>)>>, <<>>, 1), P(<<W(1, w, rev, <<>>)>>, <<>>, 1)))
ForgeCalls(S(_)) == \E how \in {"values", "e1"}, a \in {28, 29}, ms \in 1..2, h \in {175, 176}, rev \in {<<>>, <<"age">>, <<"age", "height">>, S3}, ps \in {<<>>, <<Q("name", "GE", 5)>>} :
   LET s == [cred |-> C1, key |-> 1, schema |-> S3, rev |-> rev, preds |-> ps, forge |-> how,
             claim |-> [ms |-> ms, at |-> [age |-> a, height |-> h, name |-> 5]]] IN
   S(Pr(P(<<s>>, <<>>, 1), P(<<W(1, S3, rev, ps)>>, <<>>, 1)))
RevealCalls(S(_)) == \E rev \in {<<"age">>, <<"age", "height">>, S3}, a \in {"age", "height", "name"}, v \in {28, 29, 175, 5, 0, -28} :
   S([op |-> "present", p |-> P(<<Sub(C1, 1, S3, rev, <<>>)>>, <<>>, 1), v |-> P(<<W(1, S3, rev, <<>>)>>, <<>>, 1),
      moves |-> <<[m |-> "reveal", s |-> 1, a |-> a, v |-> v]>>])
\* two sub proofs in either order
OrderCalls(S(_)) == \E a, b, x, y \in {C1, C2, C3}, r \in {<<>>, <<"age">>} :
   LET sch(c) == IF c.k = 3 THEN S2 ELSE S3 IN
   S(Pr(P(<<Sub(a, a.k, sch(a), r, <<>>), Sub(b, b.k, sch(b), <<>>, <<>>)>>, <<>>, 1),
        P(<<W(x.k, sch(x), r, <<>>), W(y.k, sch(y), <<>>, <<>>)>>, <<>>, 1)))

\* C03: predicates
Lo == -2147483647 - 1
Hi == 2147483647
Ends == {Lo, Lo + 1, -19, -1, 0, 1, 18, Hi - 1, Hi}
PredCalls(S(_)) == \E x \in Ends \cup (IF Deep THEN {-18, -2, 2, 17, 19, 107, -107, 2147395600, -2147395600} ELSE {}),
                     t \in {"GE", "GT", "LE", "LT", "EQ"},
                     v \in Ends \cup (IF Deep THEN {-20, -18, 2, 17, 19} ELSE {}) :
   LET c == [C1 EXCEPT !.at.age = x]
       s == Q("age", t, v) IN
   S(Pr(P(<<Sub(c, 1, S3, <<>>, <<s>>)>>, <<>>, 1), P(<<W(1, S3, <<>>, <<s>>)>>, <<>>, 1)))
Pool == {Q("age", "GE", 18), Q("age", "GE", 28), Q("age", "LE", 28), Q("age", "GT", 28), Q("height", "LT", 176), Q("height", "GE", 18), Q("name", "GT", 4)}
\* what the holder proves and what is asked may differ
TwoCalls(S(_)) == \E a, b \in {T \in SUBSET Pool : Cardinality(T) <= 2} :
   /\ Deep \/ (Cardinality(a) < 2 \/ Cardinality(b) < 2 \/ a = b)
   /\ S(Pr(P(<<Sub(C1, 1, S3, <<>>, Tup(a))>>, <<>>, 1), P(<<W(1, S3, <<>>, Tup(b))>>, <<>>, 1)))
\* a predicate proof made for one attribute presented as one for another
LabelCalls(S(_)) == \E t \in {"GE", "GT", "LE", "LT"}, a, b \in {"age", "height", "name"}, v \in {4, 18, 30, 176}, rev \in {<<>>, <<"name">>} :
   S([op |-> "present", p |-> P(<<Sub(C1, 1, S3, rev, <<Q(a, t, v)>>)>>, <<>>, 1),
      v |-> P(<<W(1, S3, rev, <<Q(b, t, v)>>)>>, <<>>, 1), moves |-> <<[m |-> "relabel", s |-> 1, i |-> 1, a |-> b]>>])
ValueCalls(S(_)) == \E t \in {"GE", "GT", "LE", "LT"}, v, w \in {17, 18, 28, 29, 30} :
   S([op |-> "present", p |-> P(<<Sub(C1, 1, S3, <<>>, <<Q("age", t, v)>>)>>, <<>>, 1),
      v |-> P(<<W(1, S3, <<>>, <<Q("age", t, w)>>)>>, <<>>, 1), moves |-> <<[m |-> "revalue", s |-> 1, i |-> 1, v |-> w]>>])

\* C04: common attributes over two or three sub proofs
Com == {{}, {"master_secret"}, {"name"}, {"master_secret", "age"}, {"name", "age"}}
ComCalls(S(_)) == \E pc, vc \in Com, ms \in 1..2, nm \in 5..6, ag \in {28, 30}, r1 \in {<<>>, <<"name">>} :
   LET d == [k |-> 2, ms |-> ms, at |-> [age |-> ag, height |-> 60, name |-> nm]] IN
   S(Pr(P(<<Sub(C1, 1, S3, r1, <<>>), Sub(d, 2, S3, <<>>, <<>>)>>, Tup(pc), 1),
        P(<<W(1, S3, r1, <<>>), W(2, S3, <<>>, <<>>)>>, Tup(vc), 1)))
ThreeCalls(S(_)) == \E pc, vc \in {{}, {"master_secret"}, {"age", "master_secret"}, {"name"}}, m2, m3 \in 1..2, a2, a3 \in {28, 30} :
   LET d == [k |-> 2, ms |-> m2, at |-> [age |-> a2, height |-> 60, name |-> 5]]
       e == [k |-> 3, ms |-> m3, at |-> [age |-> a3, status |-> 5]] IN
   S(Pr(P(<<Sub(C1, 1, S3, <<>>, <<>>), Sub(d, 2, S3, <<"name">>, <<>>), Sub(e, 3, S2, <<>>, <<>>)>>, Tup(pc), 1),
        P(<<W(1, S3, <<>>, <<>>), W(2, S3, <<"name">>, <<>>), W(3, S2, <<>>, <<>>)>>, Tup(vc), 1)))
\* the same key twice: sub proofs exchanged, repeated, left out; and a holder who supplies fewer or more
MoveCalls(S(_)) == \E m \in {"swap", "dup", "drop", "none"}, i, j \in 1..2, vc \in {<<>>, <<"master_secret">>}, k \in 1..2, ag \in {28, 30}, n \in 1..3 :
   LET d == [k |-> k, ms |-> 1, at |-> [age |-> ag, height |-> 60, name |-> 5]]
       w == <<W(1, S3, <<>>, <<>>), W(k, S3, <<>>, <<>>), W(1, S3, <<>>, <<>>)>> IN
   S([op |-> "present", p |-> P(<<Sub(C1, 1, S3, <<>>, <<>>), Sub(d, k, S3, <<>>, <<>>)>>, vc, 1), v |-> P(SubSeq(w, 1, n), vc, 1),
      moves |-> IF m = "none" THEN <<>> ELSE <<[m |-> m, i |-> i, j |-> j]>>])

Do(c) == Step(c, Want(c))
Next == ev.c.op = "init" /\
   CASE Fam = "C02" -> KeyCalls(Do) \/ RevCalls(Do) \/ SchCalls(Do) \/ ForgeCalls(Do) \/ RevealCalls(Do) \/ OrderCalls(Do)
     [] Fam = "C03" -> PredCalls(Do) \/ TwoCalls(Do) \/ LabelCalls(Do) \/ ValueCalls(Do)
     [] OTHER -> ComCalls(Do) \/ ThreeCalls(Do) \/ MoveCalls(Do)
Emit == EmitEdge(<<>>, ev', <<>>)
------------------------------------------------------------------------------
\* the properties, stated apart from Accept
Yes == ev.c.op = "present" /\ ev.r = "yes"
Sound ==
  Yes => /\ ev.c.p.nonce = ev.c.v.nonce
         /\ Len(ev.c.p.subs) = Len(ev.c.v.subs)
         /\ \A i \in DOMAIN ev.c.v.subs :
              LET w == ev.c.v.subs[i]  s == ev.c.p.subs[i] IN
              /\ s.cred.k = w.key /\ (Forged(s) => s.forge # "e1" /\ s.claim.at = s.cred.at)
              /\ \A q \in Rng(w.preds) : Holds(q, s.cred.at[q.a])
         /\ Len(ev.c.v.subs) > 1 => \A a \in Rng(ev.c.v.common), i, j \in DOMAIN ev.c.v.subs :
              IF a = "master_secret" THEN ev.c.p.subs[i].cred.ms = ev.c.p.subs[j].cred.ms
              ELSE ev.c.p.subs[i].cred.at[a] = ev.c.p.subs[j].cred.at[a]
=============================================================================
