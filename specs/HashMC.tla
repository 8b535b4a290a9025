------------------------------- MODULE HashMC -------------------------------
EXTENDS Hash
CONSTANTS Wide
Do(c) == Step(c, Want(c))
F(w, s, r) == [w |-> w, sbox |-> s, rounds |-> r]
Few == <<1, 1, 1>>
Boxes == {"cube", "inv", "quint"}
Fs == {F(w, s, Few) : w \in {2, 4, 8}, s \in Boxes} \cup {F(2, s, <<0, 2, 1>>) : s \in Boxes} \cup {F(2, "mimc", <<r, 0, 0>>) : r \in {1, 2, 8}}
Full == {F(2, "quint", <<4, 55, 4>>), F(2, "cube", <<4, 55, 4>>), F(2, "inv", <<4, 55, 4>>), F(2, "mimc", <<80, 0, 0>>)} \cup (IF Wide THEN {F(4, "cube", <<4, 56, 4>>)} ELSE {})
Base(w) == [x \in 1..w |-> x - 1]
Ins(w) == {Base(w), [Base(w) EXCEPT ![1] = -1], [Base(w) EXCEPT ![w] = 77], [x \in 1..w |-> w - x], [x \in 1..w |-> 0]}
          \cup (IF Wide THEN {[Base(w) EXCEPT ![x] = @ + 1] : x \in 1..w} ELSE {})
P(f, in, img, how) == Do([op |-> "prove", f |-> f, in |-> in, img |-> img, how |-> how])
Prove == pf = NoPf /\
  \/ \E f \in Fs : \E in \in Ins(f.w), img \in {Base(f.w), [Base(f.w) EXCEPT ![f.w] = 77]} : P(f, in, img, IF in = img THEN "blind" ELSE "rng")
  \/ \E f \in Full : P(f, Base(f.w), Base(f.w), "rng") \/ (Wide /\ P(f, [Base(f.w) EXCEPT ![1] = 5], Base(f.w), "rng"))
  \/ \E f \in Fs, how \in {"neither", "short", "few"} : P(f, Base(f.w), Base(f.w), how)
  \/ \E f \in Fs : \E n \in {f.w - 1, f.w + 1} : P(f, Base(n), Base(f.w), "rng")
Hashes == pf = NoPf /\
  \/ \E f \in Fs : (f.sbox # "mimc" /\ \E n \in {f.w - 1, f.w, f.w + 1, 0} : Do([op |-> "hash", f |-> f, in |-> Base(n)]))
  \/ \E f \in Fs \cup Full, odd \in BOOLEAN : \E in, img \in Ins(f.w) : Do([op |-> "pwit", f |-> f, in |-> in, img |-> img, odd |-> odd])
V(f, img, e, label, gens) == Do([op |-> "pverify", f |-> f, img |-> img, e |-> e, label |-> label, gens |-> gens])
Edits == {"drop", "extra", "empty", "other", "reblind", "last", "swap"}
Detail == pf.made /\ pf.in = pf.img /\ pf.how = "blind" /\ (Wide \/ pf.in = Base(pf.f.w))
Verify == pf.made /\
  \/ V(pf.f, pf.img, "none", "a", "std")
  \/ Detail /\ \/ \E e \in Edits : V(pf.f, pf.img, e, "a", "std")
               \/ V(pf.f, pf.img, "none", "b", "std")
               \/ \E g \in {"g", "h", "G", "H", "few"} : V(pf.f, pf.img, "none", "a", g)
               \/ \E img \in Ins(pf.f.w) : V(pf.f, img, "none", "a", "std")
               \/ \E f \in Fs : (f # pf.f /\ V(f, IF f.w = pf.f.w THEN pf.img ELSE Base(f.w), "none", "a", "std"))
  \/ \E in \in Ins(pf.f.w) : Do([op |-> "opens", in |-> in])
Next == Prove \/ Hashes \/ Verify
Emit == EmitEdge(vars, ev', vars')
View == vars
Sound == (ev.c.op = "pverify" /\ ev.r = "ok") => ev.c.img = pf.in
=============================================================================
