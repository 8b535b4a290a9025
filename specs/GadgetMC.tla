------------------------------ MODULE GadgetMC ------------------------------
EXTENDS Gadget
CONSTANTS Wide
Do(c) == Step(c, Want(c))
n(i) == <<-1, i>>
St(kind, lo, hi, bits, set) == [kind |-> kind, lo |-> lo, hi |-> hi, bits |-> bits, set |-> set]
Bound(lo, hi, bits) == St("bound", lo, hi, bits, <<>>)
Of(kind, set) == St(kind, n(0), n(0), 0, set)
P(st, v, how) == Do([op |-> "prove", st |-> st, v |-> v, how |-> how])
K == IF Wide THEN 5 ELSE 3
Small == {n(i) : i \in 0..K}
Near(k) == {<<k, o>> : o \in -1..1}
\* ends of what 64 bits hold, and of the limbs inside
Ends == {n(0), n(1), <<58, -1>>, <<58, 0>>, <<63, -1>>, <<63, 0>>, <<64, -2>>, <<64, -1>>}
FewEnds == {n(0), <<58, 0>>, <<63, 0>>, <<64, -1>>}
Lows == {n(0), n(1), n(2), n(3)}
Sets(kind) == {<<>>, <<n(0)>>, <<n(1)>>, <<n(1), n(2)>>, <<n(2), n(1)>>, <<n(1), n(1)>>, <<n(0), n(3), n(1)>>, <<n(2), n(2), n(1), n(2)>>, <<<<63, 0>>, <<64, -1>>>>, <<<<58, 0>>, n(0), <<58, 0>>>>}
              \cup (IF kind = "alt" THEN {} ELSE {<<n(-1)>>, <<n(-1), n(1)>>, <<n(2), n(-2)>>})
              \cup (IF Wide THEN [1..2 -> Small] \cup [1..3 -> {n(0), n(1), n(2)}] ELSE {})
Vals(kind) == Lows \cup {<<63, 0>>, <<64, -1>>, <<58, 0>>} \cup (IF kind = "alt" THEN {} ELSE {n(-1), n(-2)})
Hows == {"rng", "blind", "f1", "f2", "f3"}
ProveBound ==
  \/ \E lo, hi, v \in Small, bits \in 1..3, how \in (IF Wide THEN Hows ELSE {"rng"}) : P(Bound(lo, hi, bits), v, how)
  \/ \E lo, hi, v \in Small, how \in {"f1", "f2", "f3"} : ((~(Le(lo, v) /\ Le(v, hi))) /\ P(Bound(lo, hi, 2), v, how))
  \/ \E lo \in {n(2), <<32, -1>>, <<31, 0>>}, bits \in {1, 2, 8} : \E d \in -1..3, h \in 0..2 : P(Bound(lo, <<lo[1], lo[2] + h>>, bits), <<lo[1], lo[2] + d>>, "blind")
  \/ \E lo, hi, v \in (IF Wide THEN Ends ELSE FewEnds) : ((Wide \/ lo \in {n(0), <<63, 0>>}) /\ P(Bound(lo, hi, 64), v, "rng"))
  \/ \E bits \in {65, 255, 256} : P(Bound(n(3), n(5), bits), n(2), "f1") \/ P(Bound(n(3), n(5), bits), n(4), "rng")
  \/ \E bits \in {0} : P(Bound(n(3), n(3), bits), n(3), "rng") \/ P(Bound(n(3), n(4), bits), n(3), "rng")
ProveRest ==
  \/ \E v \in Vals("nonzero"), how \in Hows : P(Of("nonzero", <<>>), v, how)
  \/ \E kind \in {"member", "alt", "nonmember"} : \E set \in Sets(kind), v \in Vals(kind) : \E how \in {"rng", "f1", "f2", "f3"} :
       ((Wide \/ how = "rng" \/ ~Holds(Of(kind, set), v)) /\ P(Of(kind, set), v, how))
  \/ \E kind \in {"member", "alt", "nonmember"}, v \in {n(1), n(2), n(3)} : P(Of(kind, <<n(1), n(2)>>), v, "blind")
  \/ \E v \in Small, set \in {<<>>, <<n(1)>>, <<n(0), n(2)>>} : P(St("pair", n(1), n(3), 2, set), v, "blind")
  \/ \E st \in {Bound(n(1), n(3), 2), Of("nonzero", <<>>), Of("member", <<n(1), n(2)>>), Of("alt", <<n(1), n(2)>>), Of("nonmember", <<n(0), n(2)>>)} : P(st, n(1), "neither")
Prove == pf = NoPf /\ (ProveBound \/ ProveRest)
V(st, e, label, gens, via) == Do([op |-> "verify", st |-> st, e |-> e, label |-> label, gens |-> gens, via |-> via])
\* statements near the one proved
Shift(x, d) == <<x[1], x[2] + d>>
Others(st) ==
  (IF st.kind \in {"bound", "pair"} THEN {[st EXCEPT !.lo = Shift(st.lo, 1)], [st EXCEPT !.hi = Shift(st.hi, 1)], [st EXCEPT !.lo = n(0)], [st EXCEPT !.bits = st.bits + 1], [st EXCEPT !.bits = 1], [st EXCEPT !.lo = st.hi, !.hi = st.lo],
                                             [st EXCEPT !.bits = 0], [st EXCEPT !.bits = 70]} ELSE {})
  \cup (IF st.kind \in {"member", "alt", "nonmember", "pair"}
        THEN {[st EXCEPT !.set = Append(st.set, n(7))], [st EXCEPT !.set = <<>>], [st EXCEPT !.set = [i \in DOMAIN st.set |-> st.set[Len(st.set) + 1 - i]]]}
             \cup {[st EXCEPT !.set[i] = n(7)] : i \in DOMAIN st.set} \cup {[st EXCEPT !.set = SubSeq(st.set, 1, Len(st.set) - 1)] : i \in DOMAIN st.set} ELSE {})
Detail == pf.how = "blind" \/ (pf.how = "rng" /\ pf.st.kind # "bound" /\ Len(pf.st.set) \in {0, 2, 3} /\ pf.v \in {n(0), n(1)})
Edits == {"drop", "extra", "empty", "other", "reblind", "last"} \cup (IF pf.st.kind \in {"bound", "nonzero", "pair"} \/ Len(pf.st.set) > 0 THEN {"swap"} ELSE {}) \cup (IF pf.st.kind = "pair" THEN {"order"} ELSE {})
Verify == pf # NoPf /\
  \/ V(pf.st, "none", "a", "std", "mem")
  \/ Detail /\ \/ V(pf.st, "none", "a", "std", "json")
               \/ \E e \in Edits : V(pf.st, e, "a", "std", "mem")
               \/ V(pf.st, "none", "b", "std", "mem")
               \/ \E g \in {"g", "h", "G", "H"} : V(pf.st, "none", "a", g, "mem")
               \/ \E st \in Others(pf.st) : V(st, "none", "a", "std", "mem")
               \/ Do([op |-> "opens"])
Next == Prove \/ Verify
Emit == EmitEdge(vars, ev', vars')
View == vars
Sound == (ev.c.op = "verify" /\ ev.r = "ok") => Holds(pf.st, pf.v) /\ ev.c.st = pf.st
Complete == (ev.c.op = "verify" /\ ev.c.e = "none" /\ ev.c.st = pf.st /\ ev.c.label = "a" /\ ev.c.gens = "std" /\ Honest(pf.how) /\ Holds(pf.st, pf.v)) => ev.r = "ok"
=============================================================================
