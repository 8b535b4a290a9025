------------------------------ MODULE ClTamper ------------------------------
(* A presentation as the verifier receives it, number by number (property C07). Every number sits in a
   slot, named by its place in the JSON form; what somebody may do to it is an edit. The verification
   equations are linear relations, over bases nobody knows relations of, between the numbers of one
   presentation: they hold for the numbers the holder computed, and for no others. The values are
   symbolic: <<source slot, factor, offset>>. *)
EXTENDS Kit
VARIABLES ev

Digits4 == {"0", "1", "2", "3"}
Digits5 == Digits4 \cup {"DELTA"}
Pfx(p, S) == {p \o x : x \in S}
Sub(i) == "/proofs/" \o i
Eq(i) == Sub(i) \o "/primary_proof/eq_proof/"
Ge(i, k) == Sub(i) \o "/primary_proof/ge_proofs/" \o k
Nr(i) == Sub(i) \o "/non_revoc_proof/"
CList == "/aggregated_proof/c_list"
GeDec(i, k) == Pfx(Ge(i, k), Pfx("/u/", Digits4) \cup Pfx("/r/", Digits5) \cup Pfx("/t/", Digits5) \cup {"/mj", "/alpha"})
\* the presentations which are edited: sub proofs with hidden and revealed attributes and predicates
\*   B1: one sub proof, two predicates;  B2: two sub proofs tied by a common attribute, one predicate;
\*   B3: one sub proof with non-revocation, one predicate
Shape == [ B1 |-> << [hid |-> {"age", "height", "master_secret"}, rev |-> {"name"}, ge |-> <<"age", "height">>, nr |-> FALSE] >>,
           B2 |-> << [hid |-> {"age", "height", "name", "master_secret"}, rev |-> {}, ge |-> <<"height">>, nr |-> FALSE],
                     [hid |-> {"status", "master_secret"}, rev |-> {"age"}, ge |-> <<>>, nr |-> FALSE] >>,
           B3 |-> << [hid |-> {"height", "age", "master_secret"}, rev |-> {"name"}, ge |-> <<"age">>, nr |-> TRUE] >> ]
Bases == DOMAIN Shape
Is(b) == 1..Len(Shape[b])
Str(i) == ToString(i - 1)
DecC(b) == UNION {Pfx(Eq(Str(i)), {"a_prime", "e", "v", "m2"} \cup Pfx("m/", Shape[b][i].hid) \cup Pfx("revealed_attrs/", Shape[b][i].rev))
                 \cup UNION {GeDec(Str(i), Str(k)) : k \in DOMAIN Shape[b][i].ge} : i \in Is(b)}
          \cup {"/aggregated_proof/c_hash"}
DecF == [b \in Bases |-> DecC(b)]
Dec(b) == DecF[b]
HexC(b) == UNION {IF Shape[b][i].nr THEN Pfx(Nr(Str(i)) \o "x_list/", {"rho", "r", "r_prime", "r_prime_prime", "r_prime_prime_prime",
             "o", "o_prime", "m", "m_prime", "t", "t_prime", "m2", "s", "c"}) ELSE {} : i \in Is(b)}
HexF == [b \in Bases |-> HexC(b)]
Hex(b) == HexF[b]
G1C(b) == UNION {IF Shape[b][i].nr THEN Pfx(Nr(Str(i)) \o "c_list/", {"e", "d", "a", "g"}) ELSE {} : i \in Is(b)}
G1F == [b \in Bases |-> G1C(b)]
G1(b) == G1F[b]
G2C(b) == UNION {IF Shape[b][i].nr THEN Pfx(Nr(Str(i)) \o "c_list/", {"w", "s", "u"}) ELSE {} : i \in Is(b)}
G2F == [b \in Bases |-> G2C(b)]
G2(b) == G2F[b]
Num32C(b) == UNION {{Ge(Str(i), Str(k)) \o "/predicate/value" : k \in DOMAIN Shape[b][i].ge} : i \in Is(b)}
Num32F == [b \in Bases |-> Num32C(b)]
Num32(b) == Num32F[b]
TextC(b) == UNION {Pfx(Ge("0", Str(k)), {"/predicate/p_type", "/predicate/attr_name"}) : k \in DOMAIN Shape[b][1].ge}
TextF == [b \in Bases |-> TextC(b)]
Text(b) == TextF[b]
\* the elements hashed: one for a', five T for each predicate, seven C for a non-revocation proof
NGe(b, i) == Len(Shape[b][i].ge)
NSub(b, i) == 1 + 5 * NGe(b, i) + (IF Shape[b][i].nr THEN 7 ELSE 0)
NList(b) == IF Len(Shape[b]) = 1 THEN NSub(b, 1) ELSE NSub(b, 1) + NSub(b, 2)
LstC(b) == {CList \o "/" \o ToString(k - 1) : k \in 1..NList(b)}
LstF == [b \in Bases |-> LstC(b)]
Lst(b) == LstF[b]
SlotsC(b) == Dec(b) \cup Hex(b) \cup G1(b) \cup G2(b) \cup Num32(b) \cup Text(b) \cup Lst(b)
SlotsF == [b \in Bases |-> SlotsC(b)]
Slots(b) == SlotsF[b]
KindC(b, s) == CASE s \in Dec(b) -> "dec" [] s \in Hex(b) -> "hex" [] s \in G1(b) -> "g1" [] s \in G2(b) -> "g2"
                [] s \in Num32(b) -> "int" [] s \in Text(b) -> "text" [] OTHER -> "bytes"
KindF == [b \in Bases |-> [s \in Slots(b) |-> KindC(b, s)]]
Kind(b, s) == KindF[b][s]
\* parts that can be taken out, repeated or exchanged
Elements(b) == UNION {Pfx(Sub(Str(i)), {""}) \cup {Ge(Str(i), Str(k)) : k \in DOMAIN Shape[b][i].ge} : i \in Is(b)}
Boxes(b) == {"/proofs", CList, "/aggregated_proof"} \cup UNION {Pfx(Sub(Str(i)), {"/primary_proof", "/primary_proof/eq_proof", "/primary_proof/ge_proofs",
               "/primary_proof/eq_proof/m", "/primary_proof/eq_proof/revealed_attrs"} \cup (IF Shape[b][i].nr THEN {"/non_revoc_proof", "/non_revoc_proof/c_list", "/non_revoc_proof/x_list"} ELSE {})) \cup
             UNION {Pfx(Ge(Str(i), Str(k)), {"/u", "/r", "/t", "/predicate"}) : k \in DOMAIN Shape[b][i].ge} : i \in Is(b)}
Maps(b) == UNION {Pfx(Sub(Str(i)), {"/primary_proof/eq_proof/m", "/primary_proof/eq_proof"}) \cup
             UNION {Pfx(Ge(Str(i), Str(k)), {"/u", "/r", "/t"}) : k \in DOMAIN Shape[b][i].ge} : i \in Is(b)}
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
------------------------------------------------------------------------------
\* responses which are equal in every honest presentation: the one for an attribute and the one for the
\* number its predicate is about; those for a common attribute
MjOf(b, s) == {<<i, k>> \in {1, 2} \X {1, 2} : i \in Is(b) /\ k \in DOMAIN Shape[b][i].ge /\ s = Ge(Str(i), Str(k)) \o "/mj"}
ClassC(b, s) == IF MjOf(b, s) # {} THEN LET x == CHOOSE x \in MjOf(b, s) : TRUE IN Eq(Str(x[1])) \o "m/" \o Shape[b][x[1]].ge[x[2]]
               ELSE IF s = Eq("1") \o "m/master_secret" THEN Eq("0") \o "m/master_secret"
               ELSE s
ClassF == [b \in Bases |-> [s \in Slots(b) |-> ClassC(b, s)]]
Class(b, s) == ClassF[b][s]
OrigF == [b \in Bases |-> [s \in Slots(b) |-> <<s, 1, 0>>]]
Orig(b) == OrigF[b]
Broken == <<"broken", 1, 0>>
\* one edit
Apply(b, f, e) ==
  CASE e.how = "inc" -> [f EXCEPT ![e.s] = <<@[1], @[2], @[3] + 1>>]
    [] e.how = "dec" -> [f EXCEPT ![e.s] = <<@[1], @[2], @[3] - 1>>]
    [] e.how = "neg" -> [f EXCEPT ![e.s] = <<@[1], -@[2], -@[3]>>]
    [] e.how = "zero" -> [f EXCEPT ![e.s] = <<"zero", 1, 0>>]
    [] e.how = "copy" -> [f EXCEPT ![e.s] = f[e.o]]
    [] e.how = "swap" -> [f EXCEPT ![e.s] = f[e.o], ![e.o] = f[e.s]]
    \* the same slot of another presentation of the same credentials to the same request
    [] e.how = "other" -> IF Kind(b, e.s) \in {"int", "text"} \/ \E i \in Is(b), a \in {"name", "age"} : e.s = Eq(Str(i)) \o "revealed_attrs/" \o a THEN f
                          ELSE [f EXCEPT ![e.s] = <<"other", 1, 0>>]
    \* text that is no such number, another type, nothing; a number far too large, plus the modulus
    [] e.how \in {"word", "empty", "type", "null", "del", "huge", "plusn", "long", "short"} -> [f EXCEPT ![e.s] = Broken]
    [] OTHER -> f
\* edits of the structure never leave a presentation of this shape
Structural(e) == e.how \in {"remove", "repeat", "clear", "nullify", "push"}
Extra(e) == e.how = "extra"
Swapped(e) == e.how = "exchange"
RECURSIVE Fold(_, _, _)
Fold(b, f, es) == IF es = <<>> THEN f ELSE Fold(b, Apply(b, f, Head(es)), Tail(es))
Intact(b, f) == \A s \in Slots(b) : f[s] = <<f[s][1], 1, 0>> /\ f[s][1] \in Slots(b) /\ Class(b, f[s][1]) = Class(b, s)
\* exchanging two parts twice restores them
Even(es) == \A x \in {es[i] : i \in DOMAIN es} : Swapped(x) => Cardinality({i \in DOMAIN es : es[i] = x}) % 2 = 0
Want(c) ==
  CASE \E i \in DOMAIN c.edits : Structural(c.edits[i]) -> "no"
    [] ~Even(c.edits) -> "no"
    [] ~Intact(c.b, Fold(c.b, Orig(c.b), c.edits)) -> "no"
    \* entries which nothing asks for: the verifier may overlook them
    [] \E i \in DOMAIN c.edits : Extra(c.edits[i]) -> "?"
    [] OTHER -> "yes"
\* a random change of the text: c.same says that it left every value as it was
WantGarble(c) == IF c.same THEN "?" ELSE "no"
Wanted(c) == CASE c.op = "tamper" -> Want(c)
               \* the slots above are all the values there are
               [] c.op = "census" -> ToString(Cardinality(Slots(c.b)))
               [] OTHER -> WantGarble(c)
Allowed(c, r) == r = Wanted(c) \/ (Wanted(c) = "?" /\ r \in {"yes", "no"})
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r)
Init == ev = Ev([op |-> "init"], "")
=============================================================================
