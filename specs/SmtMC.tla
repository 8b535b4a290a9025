------------------------------- MODULE SmtMC -------------------------------
EXTENDS Smt
CONSTANTS Wide, Zk
VARIABLE n    \* updates made
mcvars == <<t, m, roots, path, z, n>>
MInit == Init /\ n = 0
Do(c) == Step(c, Want(c))
U == UNCHANGED n
\* shapes of trees
Shapes == IF Zk THEN {<<4, 0>>, <<4, 1>>, <<4, 2>>, <<8, 1>>} \cup (IF Wide THEN {<<4, 3>>, <<8, 0>>, <<8, 2>>} ELSE {})
          ELSE {<<4, 0>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<8, 1>>, <<8, 2>>} \cup (IF Wide THEN {<<4, 5>>, <<8, 0>>, <<8, 3>>} ELSE {})
Top == t.ar - 1
\* indices: sharing all but one digit of the path, at both ends, and one beyond the capacity
Idx == CASE t.d = 0 -> {<<>>, <<1>>}
         [] t.d = 1 -> {<<0>>, <<1>>, <<Top>>, <<1, 1>>}
         [] OTHER -> {Zeros(t.d), Zeros(t.d - 1) \o <<2>>, <<Top>> \o Zeros(t.d - 1), <<1, Top>> \o Zeros(t.d - 1)}
                     \cup (IF Wide THEN {Zeros(t.d - 2) \o <<1, 0>>, [x \in 1..t.d |-> Top]} ELSE {})
Vals == {0, 1, 2}
MaxN == IF Zk THEN (IF Wide THEN 2 ELSE 1) ELSE IF Wide THEN 3 ELSE 2
New == \/ t = NoTree /\ \E s \in Shapes, h \in {"toy"} \cup (IF Wide THEN {"pos"} ELSE {}) : Do([op |-> "new", ar |-> s[1], d |-> s[2], h |-> h, keep |-> FALSE]) /\ n' = 0
       \/ t = NoTree /\ \E s \in {<<4, 2>>, <<8, 1>>} : (Do([op |-> "new", ar |-> s[1], d |-> s[2], h |-> "pos", keep |-> FALSE]) /\ n' = 0)
       \* another tree in the same database, of the same or another depth
       \/ ~Zk /\ n = 1 /\ t.d \in 1..2 /\ \E d \in {t.d, 3 - t.d} : (Do([op |-> "new", ar |-> t.ar, d |-> d, h |-> t.h, keep |-> TRUE]) /\ n' = 2)
Update == t # NoTree /\ n < MaxN /\ path = <<>> /\ \E i \in Idx, v \in Vals :
            ((Zk => v = 1 /\ i # <<1, 1>>) /\ (n = 0 => v = 1) /\ (n = 1 /\ ~Wide => v # 1) /\ Do([op |-> "update", i |-> i, v |-> v]) /\ n' = n + 1)
Roots == {k \in DOMAIN roots : roots[k][1] = t.d} \cup {0}
Get == t # NoTree /\ path = <<>> /\ ~Zk /\ U /\
  \/ \E i \in Idx, k \in Roots : Do([op |-> "get", i |-> i, k |-> k])
  \/ t.d > 0 /\ Do([op |-> "get", i |-> Zeros(t.d), k |-> -1])
Path == t # NoTree /\ path = <<>> /\ (Zk \/ n >= 1) /\ U /\ \E i \in Idx, k \in (IF Zk THEN {0} ELSE {0, 1} \cap Roots) : Do([op |-> "path", i |-> i, k |-> k])
E0(x, l) == [n |-> x, l |-> l]
Edits == {E0(x, 0) : x \in {"none", "short", "front", "long", "empty", "swapl"}}
           \cup {E0(x, l) : x \in {"rev", "alien", "zero"}, l \in 1..t.d}
Reading == path # <<>> \/ t.d = 0
Verify == t # NoTree /\ Reading /\ ~Zk /\ U /\
  \/ \E i \in Idx, v \in Vals, k \in Roots \cup {-1} : Do([op |-> "verify", e |-> E0("none", 0), i |-> i, v |-> v, k |-> k])
  \/ \E e \in Edits, i \in Idx : Do([op |-> "verify", e |-> e, i |-> i, v |-> ValIn(m, Eff(i, t.d)), k |-> 0])
Wit == t # NoTree /\ Reading /\ Zk /\ U /\ z = NoProof /\
  \/ \E i \in Idx, v \in {0, 1, 2}, hide \in BOOLEAN, k \in {0, 1} : Do([op |-> "wit", e |-> E0("none", 0), i |-> i, v |-> v, k |-> k, hide |-> hide])
  \/ \E e \in Edits, i \in Idx, v \in {0, 1} : Do([op |-> "wit", e |-> e, i |-> i, v |-> v, k |-> 0, hide |-> TRUE])
ZkProve == t # NoTree /\ Reading /\ Zk /\ z = NoProof /\ U /\
  \/ \E i \in Idx, v \in {0, 1}, hide \in BOOLEAN : Do([op |-> "zk", e |-> E0("none", 0), i |-> i, v |-> v, k |-> 0, hide |-> hide, how |-> "blind"])
  \/ \E e \in Edits : Do([op |-> "zk", e |-> e, i |-> Zeros(t.d), v |-> 0, k |-> 0, hide |-> FALSE, how |-> "rng"])
  \/ \E how \in {"neither", "short", "few"}, hide \in BOOLEAN : Do([op |-> "zk", e |-> E0("none", 0), i |-> Zeros(t.d), v |-> 0, k |-> 0, hide |-> hide, how |-> how])
V(hide, v, k, d, e, label, gens) == Do([op |-> "zkv", hide |-> hide, v |-> v, k |-> k, d |-> d, e |-> e, label |-> label, gens |-> gens])
ZkVerify == z.made /\ U /\
  \/ V(z.hide, z.v, 0, t.d, "none", "a", "std")
  \/ Holds(z.v, NodeAt(0)) /\
            (  \/ V(~z.hide, z.v, 0, t.d, "none", "a", "std")
               \/ \E v \in Vals, k \in {0, 1} : V(z.hide, v, k, t.d, "none", "a", "std")
               \/ \E d \in {t.d - 1, t.d + 1} : (d >= 0 /\ V(z.hide, z.v, 0, d, "none", "a", "std"))
               \/ \E e \in {"drop", "extra", "empty", "other", "reblind", "last", "swap"} : V(z.hide, z.v, 0, t.d, e, "a", "std")
               \/ V(z.hide, z.v, 0, t.d, "none", "b", "std")
               \/ t.d > 0 /\ \E g \in {"g", "h", "G", "H", "few"} : V(z.hide, z.v, 0, t.d, "none", "a", g))
Next == New \/ Update \/ Get \/ Path \/ Verify \/ Wit \/ ZkProve \/ ZkVerify
Emit == EmitEdge(mcvars, ev', mcvars')
View == mcvars
\* a path proves nothing but what its root holds
Sound == (ev.c.op = "verify" /\ ev.r = "yes") => NodeAt(ev.c.k)[1] = t.d /\ ValIn(NodeAt(ev.c.k)[2], Eff(ev.c.i, t.d)) = ev.c.v
\* the node of the map as it is now is among the roots, and equal maps share one
OneRoot == t # NoTree => Root(t.d, m) \in Rng(roots) /\ NoDup(roots)
ZkSound == (ev.c.op = "zkv" /\ ev.r = "ok") => ValIn(NodeAt(ev.c.k)[2], Eff(z.i, t.d)) = (IF z.hide THEN z.v ELSE ev.c.v)
=============================================================================
