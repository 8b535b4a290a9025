------------------------------- MODULE CircMC -------------------------------
EXTENDS Circ
CONSTANTS MaxOps, Wide
Do(c) == Step(c, Want(c))
ci == Circ(prog)
t(v, k) == <<v[1], v[2], k>>
k0(x) == <<0, 0, x>>
NumOf(ops) == Cardinality({i \in DOMAIN prog : prog[i].op \in ops})
Vs == {<<4, i>> : i \in 0..(Len(ci.v) - 1)}
Gs == {<<s, i>> : s \in 1..3, i \in 0..(N(ci) - 1)}
All == Vs \cup Gs
Vl(v) == Val(ci, v[1], v[2])
Ops == {<<t(v, 1)>> : v \in Vs} \cup {<<t(v, 1)>> : v \in {g \in Gs : g[1] = 3}} \cup {<<t(v, 2), k0(-1)>> : v \in Vs} \cup (IF Wide THEN {<<>>, <<k0(2)>>} ELSE {})
Cons ==
  {<<>>} \cup {<<k0(1)>>}
  \cup {<<t(v, 1), k0(-Vl(v))>> : v \in All} \cup {<<t(v, 2), k0(1), t(v, 1)>> : v \in Vs}
  \cup {<<t(v, 1), t(w, -1)>> : v \in (IF Wide THEN All ELSE Vs), w \in All}
Rands ==
  {[f |-> "noop", nest |-> FALSE], [f |-> "ralloc", x |-> 2, k |-> 2, nest |-> FALSE], [f |-> "ralloc", x |-> 2, k |-> 3, nest |-> TRUE]}
  \cup {[f |-> "shuf", a |-> a, b |-> b, c |-> b, d |-> a, nest |-> FALSE] : a \in Vs, b \in All}
  \cup {[f |-> "shuf", a |-> a, b |-> b, c |-> x, d |-> b, nest |-> TRUE] : a \in Vs, b \in Vs, x \in Gs}
  \cup UNION {{[f |-> "rcon", p |-> <<t(a, 1), k0(-Vl(a))>>, q |-> q, nest |-> FALSE] : q \in {<<>>, <<k0(1)>>} \cup {<<t(b, 1), t(a, -1)>> : b \in Gs}} : a \in Vs}
Go == Len(prog) < MaxOps
Bld == ph = "build" /\
  \/ Go /\ (\/ (NumOf({"commit"}) < 2 /\ \E x \in {0, 3}, bl \in {"rand", "zero"} : ((x = 3 \/ Wide \/ Len(prog) = 0) /\ (bl = "rand" \/ Len(prog) = 0) /\ Do([op |-> "commit", x |-> x, bl |-> bl])))
            \/ (N(ci) < (IF Wide THEN 3 ELSE 2) /\ \E a, b \in Ops : Do([op |-> "mul", a |-> a, b |-> b]))
            \/ (N(ci) < 2 /\ \E o \in {"alloc", "single"} : Do([op |-> o, x |-> 2]))
            \/ (N(ci) < 2 /\ Do([op |-> "allocm", x |-> 3, y |-> 2]))
            \/ (NumOf({"con"}) < (IF Wide THEN 2 ELSE 1) /\ \E q \in Cons : Do([op |-> "con", q |-> q]))
            \/ (NumOf({"rand"}) < (IF Wide THEN 2 ELSE 1) /\ \E f \in Rands : Do([op |-> "rand", f |-> f])))
  \/ Do([op |-> "prove", gens |-> "std"])
  \/ Len(prog) \in 1..2 /\ (\/ Do([op |-> "count"]) \/ \E q \in Cons : Do([op |-> "eval", q |-> q])
                             \/ \E w \in {"alloc", "allocm", "single"} : Do([op |-> "blank", w |-> w])
                             \/ \E g \in {"Gshort", "Hshort"} : Do([op |-> "prove", gens |-> g])
                             \/ Do([op |-> "prove", gens |-> "exact"]))
V(e, com, tw, label, gens, via) == Do([op |-> "verify", e |-> e, com |-> com, t |-> tw, label |-> label, gens |-> gens, via |-> via])
E0 == [k |-> "none", i |-> 0, o |-> [op |-> "none"]]
Ed(k, i, o) == [k |-> k, i |-> i, o |-> o]
None == [op |-> "none"]
Other(o) ==
  CASE o.op = "con" -> {[o EXCEPT !.q = Append(@, k0(1))], [o EXCEPT !.q = @ \o <<k0(2), k0(-2)>>]}
                       \cup (IF Len(ci.v) > 0 THEN {[o EXCEPT !.q = Append(@, <<4, 0, 1>>)]} ELSE {})
                       \cup (IF o.q # <<>> THEN {[o EXCEPT !.q[1] = <<@[1], @[2], @[3] + 1>>], [o EXCEPT !.q = Tail(@)]} ELSE {})
    [] o.op = "mul" -> {[o EXCEPT !.a = Append(@, k0(1))], [o EXCEPT !.a = o.b, !.b = o.a]}
    [] o.op = "rand" /\ o.f.f = "ralloc" -> {[o EXCEPT !.f.k = 2], [o EXCEPT !.f.k = 3], [o EXCEPT !.f.nest = ~@]}
    [] o.op = "rand" /\ o.f.f = "rcon" -> {[o EXCEPT !.f.p = Append(@, k0(1))], [o EXCEPT !.f.q = Append(@, k0(-1))], [o EXCEPT !.f.nest = ~@]}
    [] o.op = "rand" /\ o.f.f = "shuf" -> {[o EXCEPT !.f.a = o.f.b, !.f.b = o.f.a], [o EXCEPT !.f.c = o.f.d]}
    [] OTHER -> {}
Edits ==
  {Ed("drop", i, None) : i \in {j \in DOMAIN prog : prog[j].op \in {"con", "rand"}}}
  \cup UNION {{Ed("put", i, o) : o \in Other(prog[i])} : i \in DOMAIN prog}
  \cup {Ed("add", 0, o) : o \in {[op |-> "con", q |-> <<>>], [op |-> "con", q |-> <<k0(1)>>], [op |-> "con", q |-> <<k0(1), k0(-1)>>], [op |-> "allocm", x |-> 0, y |-> 0], [op |-> "rand", f |-> [f |-> "noop", nest |-> FALSE]]}
                                   \cup {[op |-> "con", q |-> <<t(v, 1)>>] : v \in Vs}}
  \cup {Ed("swap", i, None) : i \in {j \in DOMAIN prog : j < Len(prog) /\ prog[j].op \in {"con", "rand"} /\ prog[j + 1].op \in {"con", "rand", "commit"}}}
Tweaks == {"A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6", "t_x", "t_x_blinding", "e_blinding", "a", "b",
           "cutL", "cutR", "cutLR", "addL", "addR", "addLR", "neg"}
          \cup (IF Padded(ci) > 1 THEN {"L", "R", "swapLR"} ELSE {})
Cut(tw) == (tw \in {"cutL", "cutR", "cutLR"}) => Padded(ci) > 1
\* one circuit of each makeup in full detail
Detail == /\ \A i \in DOMAIN prog : IF prog[i].op = "commit" THEN prog[i].x = 3 \/ Len(prog) = 1 ELSE TRUE
          /\ IF Len(prog) < 2 THEN TRUE ELSE NumOf({"commit"}) > 0
          /\ IF Len(prog) < 3 THEN TRUE ELSE prog[1].op = "commit" /\ prog[1].bl = "rand" /\ prog[Len(prog)].op # "commit" /\ Satisfies(ci, ci)
Ver == ph = "proved" /\
  \/ V(E0, "none", "none", "a", "std", "mem")
  \/ \E e \in Edits : V(e, "none", "none", "a", "std", "mem")
  \/ Detail /\
     \/ V(E0, "none", "none", "a", "std", "json")
     \/ V(E0, "none", "none", "b", "std", "mem")
     \/ \E g \in {"g", "h", "G", "H", "Glast", "Hlast", "beyond", "exact", "Gshort", "Hshort"} : V(E0, "none", "none", "a", g, "mem")
     \/ \E tw \in {x \in Tweaks : Cut(x)} : V(E0, "none", tw, "a", "std", "json")
     \/ \E com \in {"reblind", "extra"} \cup (IF Len(ci.v) > 1 THEN {"swap"} ELSE {}) : ((com = "extra" \/ Len(ci.v) > 0) /\ V(E0, com, "none", "a", "std", "mem"))
     \/ Do([op |-> "fresh"])
Ipp == prog = <<>> /\ ph = "build" /\ \E n \in {1, 2, 4, 8}, f \in {"one", "rand"}, z \in BOOLEAN :
  \E tw \in {"none", "P", "u", "a", "b", "label", "G", "H", "Gf", "Hf", "n", "short", "long", "cutL", "cutR", "addL", "addLR"} \cup (IF n > 1 THEN {"L", "R", "swapLR"} ELSE {}) :
    (IF n = 1 /\ tw \in {"cutL", "cutR", "label"} THEN FALSE ELSE IF z THEN tw \in {"none", "P", "u", "n", "label", "G", "a"} ELSE TRUE) /\ (Do([op |-> "ipp", n |-> n, f |-> f, z |-> z, t |-> tw]))
Next == Bld \/ Ver \/ Ipp
Emit == EmitEdge(vars, ev', vars')
View == vars
Sound == (ev.c.op = "verify" /\ ev.r = "ok") => ev.c.t = "none" /\ ev.c.com = "none" /\ Satisfies(ci, Circ(Edit(prog, ev.c.e)))
Complete == (ev.c.op = "verify" /\ ev.c.e.k = "none" /\ ev.c.t = "none" /\ ev.c.com = "none" /\ ev.c.label = "a" /\ ev.c.gens = "std" /\ Satisfies(ci, ci)) => ev.r = "ok"
=============================================================================
