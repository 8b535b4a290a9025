---------------------------- MODULE ClTamperMC ----------------------------
EXTENDS ClTamper
CONSTANTS Deep
T(b, es) == [op |-> "tamper", b |-> b, edits |-> es]
One(s, how) == [s |-> s, how |-> how]
Two(s, how, o) == [s |-> s, how |-> how, o |-> o]
Numeric(b) == Dec(b) \cup Hex(b)
Num == {"inc", "dec", "neg", "zero"}
Bad == {"word", "empty", "type", "null", "del", "long", "short", "other"}
\* every slot, every edit of it
Singles(S(_)) == \E b \in Bases :
   \/ \E s \in Dec(b), h \in Num \cup Bad \cup {"huge", "plusn"} : S(T(b, <<One(s, h)>>))
   \/ \E s \in Hex(b), h \in {"inc", "dec", "zero"} \cup Bad : S(T(b, <<One(s, h)>>))
   \/ \E s \in G1(b) \cup G2(b), h \in {"inc", "neg", "zero"} \cup Bad : S(T(b, <<One(s, h)>>))
   \/ \E s \in Num32(b), h \in {"inc", "dec", "huge", "word", "null", "del"} : S(T(b, <<One(s, h)>>))
   \/ \E s \in Text(b), h \in Bad : S(T(b, <<One(s, h)>>))
   \/ \E s \in Lst(b), h \in {"inc", "zero", "empty", "type", "null", "long", "short", "other"} : S(T(b, <<One(s, h)>>))
   \/ \E s \in Elements(b), h \in {"remove", "repeat", "nullify"} : S(T(b, <<One(s, h)>>))
   \/ \E s \in Boxes(b), h \in {"remove", "clear", "nullify", "word", "type"} : S(T(b, <<[s |-> s, how |-> IF h \in {"word", "type"} THEN "nullify" ELSE h]>>))
   \/ \E s \in Pfx(CList \o "/", {"0"}), h \in {"remove", "repeat"} : S(T(b, <<One(s, h)>>))
   \/ \E s \in Maps(b) : S(T(b, <<One(s, "extra")>>))
   \/ \E s \in {"/proofs", CList} \cup {Sub(Str(i)) \o "/primary_proof/eq_proof/revealed_attrs" : i \in Is(b)}, h \in {"push"} : S(T(b, <<One(s, h)>>))
   \/ S(T(b, <<>>))
Exch(b) == IF b = "B1" THEN {<<Ge("0", "0"), Ge("0", "1")>>} ELSE IF b = "B2" THEN {<<Sub("0"), Sub("1")>>} ELSE {}
Exchanges(S(_)) == \E b \in Bases : \E x \in Exch(b), n \in 1..2 : S(T(b, [i \in 1..n |-> Two(x[1], "exchange", x[2])]))
\* two slots: one put in place of the other, or exchanged
SameKind(b, s, o) == Kind(b, s) = Kind(b, o)
Copies(S(_)) == \E b \in Bases, h \in {"copy", "swap"} : \E s, o \in Slots(b) :
   s # o /\ SameKind(b, s, o) /\ S(T(b, <<Two(s, h, o)>>))
\* two edits of numbers; the second may undo the first or make up for it in a slot tied to it
Near(b, s, o) == \/ s = o \/ Class(b, s) = Class(b, o) \/ Deep
                 \/ <<s, o>> \in {<<Eq(x) \o "e", Eq(x) \o "v">> : x \in {"0", "1"}} \cup {<<Eq("0") \o p, Eq("1") \o p>> : p \in {"e", "v", "m2", "a_prime"}}
                                  \cup {<<Eq(x) \o "m2", Nr(x) \o "x_list/m2">> : x \in {"0"}}
Pairs(S(_)) == \E b \in Bases, g, h \in {"inc", "dec", "neg"} : \E s, o \in Numeric(b) :
   /\ Near(b, s, o)
   /\ (s \in Hex(b) => g # "neg") /\ (o \in Hex(b) => h # "neg")
   /\ S(T(b, <<One(s, g), One(o, h)>>))
SwapBack(S(_)) == \E b \in Bases : \E s, o, t \in {x \in Dec(b) : Prefix(Eq("0"), x)} :
   s # o /\ s # t /\ o # t /\ (Deep \/ Class(b, s) # s) /\ S(T(b, <<Two(s, "swap", o), Two(o, "swap", t), Two(t, "swap", s)>>))
Cmts(S(_)) == \E b \in Bases : \E s \in Maps(b), q \in Dec(b) : Deep /\ S(T(b, <<One(s, "extra"), One(q, "inc")>>))
Do(c) == Step(c, Wanted(c))
Next == ev.c.op = "init" /\ (Singles(Do) \/ Exchanges(Do) \/ Copies(Do) \/ Pairs(Do) \/ SwapBack(Do) \/ Cmts(Do))
Emit == EmitEdge(<<>>, ev', <<>>)
------------------------------------------------------------------------------
\* accepted presentations carry the honest numbers, up to slots that hold the same number
Sound == ev.c.op = "tamper" /\ ev.r = "yes" =>
  LET f == Fold(ev.c.b, Orig(ev.c.b), ev.c.edits) IN \A s \in Slots(ev.c.b) : f[s][3] = 0 /\ f[s][2] = 1
\* nothing done, nothing refused
Complete == ev.c.op = "tamper" /\ ev.c.edits = <<>> => ev.r = "yes"
=============================================================================
