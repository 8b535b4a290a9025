-------------------------------- MODULE Circ --------------------------------
(* Constraint-system proofs of bulletproofs_amcl (property C25). A program is the sequence of calls by which prover and
   verifier build a circuit: commitments, multiplications, allocated wires, linear constraints, and randomized
   constraints that are built in a second phase from challenges. A term is <<sort, index, coefficient>>, sort 0 the
   constant, 1 left, 2 right, 3 output wire, 4 committed value; indices from 0. *)
EXTENDS Kit
VARIABLES prog,   \* what the prover called
          ph,     \* "build", or "proved" when there is a proof
          ev
vars == <<prog, ph>>
Init == prog = <<>> /\ ph = "build" /\ ev = Ev([op |-> "init"], "")

Empty == [v |-> <<>>, zb |-> {}, l |-> <<>>, r |-> <<>>, o |-> <<>>, cons |-> <<>>, pend |-> -1, rand |-> <<>>]
One == 0
Val(ci, s, i) == CASE s = 0 -> 1 [] s = 1 -> ci.l[i + 1] [] s = 2 -> ci.r[i + 1] [] s = 3 -> ci.o[i + 1] [] s = 4 -> ci.v[i + 1]
RECURSIVE Eval(_, _)
Eval(ci, q) == IF q = <<>> THEN 0 ELSE Head(q)[3] * Val(ci, Head(q)[1], Head(q)[2]) + Eval(ci, Tail(q))
Gate(ci, x, y) == [ci EXCEPT !.l = Append(@, x), !.r = Append(@, y), !.o = Append(@, x * y)]
N(ci) == Len(ci.l)
Alloc(ci, x) == IF ci.pend = -1 THEN [Gate(ci, x, 0) EXCEPT !.pend = N(ci)]
                ELSE [ci EXCEPT !.r[ci.pend + 1] = x, !.o[ci.pend + 1] = ci.l[ci.pend + 1] * x, !.pend = -1]
Add(ci, c) ==
  CASE c.op = "commit" -> [ci EXCEPT !.v = Append(@, c.x), !.zb = IF c.bl = "zero" THEN @ \cup {Len(ci.v)} ELSE @]
    [] c.op = "mul" -> [Gate(ci, Eval(ci, c.a), Eval(ci, c.b)) EXCEPT !.cons = @ \o << Append(c.a, <<1, N(ci), -1>>), Append(c.b, <<2, N(ci), -1>>) >>]
    [] c.op \in {"alloc", "single"} -> Alloc(ci, c.x)
    [] c.op = "allocm" -> Gate(ci, c.x, c.y)
    [] c.op = "con" -> [ci EXCEPT !.cons = Append(@, c.q)]
    [] c.op = "rand" -> [ci EXCEPT !.rand = Append(@, c.f)]
RECURSIVE Build(_, _, _)
Build(ci, q, k) == IF k > Len(q) THEN ci ELSE Build(Add(ci, q[k]), q, k + 1)
Circ(q) == Build(Empty, q, 1)

\* coefficients of a linear combination by variable, and its constant
VarsOf(q) == {<<q[k][1], q[k][2]>> : k \in {j \in DOMAIN q : q[j][1] # 0}}
RECURSIVE CoefOf(_, _)
CoefOf(q, x) == IF q = <<>> THEN 0 ELSE (IF <<Head(q)[1], Head(q)[2]>> = x THEN Head(q)[3] ELSE 0) + CoefOf(Tail(q), x)
\* (commitments without blinding, numbers zb, are no more hidden than constants: the prover ignores them too)
W(zb, q) == {<<x, CoefOf(q, x)>> : x \in {y \in VarsOf(q) : CoefOf(q, y) # 0 /\ (y[1] = 4 => y[2] \notin zb)}}
RECURSIVE K(_)
K(q) == IF q = <<>> THEN 0 ELSE (IF Head(q)[1] = 0 THEN Head(q)[3] ELSE 0) + K(Tail(q))

\* second phase: gates and rows that the randomized constraints add. t: state of the second phase
T(v) == <<v[1], v[2], 1>>
Both(a, b) == {a[1], a[2]} = {b[1], b[2]} /\ a[1] + a[2] = b[1] + b[2]
Second0(ci) == [n |-> N(ci), pend |-> -1, rows |-> <<>>, ok |-> TRUE, draws |-> 0, consts |-> TRUE, r2 |-> 0]
RandStep(ci, t, f) ==
  CASE f.f = "noop" -> t
    \* the two pairs of wires hold the same two values: (a - z)(b - z) = (c - z)(d - z)
    [] f.f = "shuf" -> [t EXCEPT !.n = @ + 2, !.draws = @ + 1,
         !.rows = @ \o << W(ci.zb, <<T(f.a), <<1, t.n, -1>>>>), W(ci.zb, <<T(f.b), <<2, t.n, -1>>>>), W(ci.zb, <<T(f.c), <<1, t.n + 1, -1>>>>), W(ci.zb, <<T(f.d), <<2, t.n + 1, -1>>>>),
                          W(ci.zb, <<<<3, t.n, 1>>, <<3, t.n + 1, -1>>>>) >>,
         !.ok = @ /\ Both(<<Val(ci, f.a[1], f.a[2]), Val(ci, f.b[1], f.b[2])>>, <<Val(ci, f.c[1], f.c[2]), Val(ci, f.d[1], f.d[2])>>)]
    \* z * p + q = 0
    [] f.f = "rcon" -> [t EXCEPT !.draws = @ + 1, !.rows = Append(@, IF W(ci.zb, f.p) = {} THEN W(ci.zb, f.q) ELSE {<<"z", t.draws, W(ci.zb, f.p), W(ci.zb, f.q)>>}),
         !.ok = @ /\ Eval(ci, f.p) = 0 /\ Eval(ci, f.q) = 0, !.consts = @ /\ K(f.p) = 0 /\ K(f.q) = 0]
    \* a wire allocated in the second phase, equal to k
    [] f.f = "ralloc" -> [t EXCEPT !.n = IF t.pend = -1 THEN @ + 1 ELSE @, !.pend = IF t.pend = -1 THEN t.n ELSE -1,
         !.rows = Append(@, W(ci.zb, <<IF t.pend = -1 THEN <<1, t.n, 1>> ELSE <<2, t.pend, 1>>>>)), !.ok = @ /\ f.x = f.k, !.consts = @ /\ f.k = 0]
RECURSIVE RandAll(_, _, _)
RandAll(ci, t, k) == IF k > Len(ci.rand) THEN t ELSE RandAll(ci, RandStep(ci, t, ci.rand[k]), k + 1)
Second(ci) == RandAll(ci, Second0(ci), 1)
RECURSIVE Strip(_)
Strip(rows) == IF rows # <<>> /\ rows[Len(rows)] = {} THEN Strip(SubSeq(rows, 1, Len(rows) - 1)) ELSE rows
Rows(ci) == Strip([k \in DOMAIN ci.cons |-> W(ci.zb, ci.cons[k])] \o Second(ci).rows)
\* everything but the constants, which the prover never looks at
Shape(ci) == LET s == Second(ci) IN <<Len(ci.v), s.draws, Len(ci.rand) > 0, Rows(ci)>>
\* as many gates; a verifier with one, unused, accepts where the prover has none (an empty vector is padded with zeros)
SameGates(ci, vc) == LET s == Second(ci) t == Second(vc) IN (N(ci) = N(vc) /\ s.n = t.n) \/ (s.n = 0 /\ t.n = 1)
\* the prover's wires satisfy the verifier's circuit vc of the same shape. The operands of its multiplications may still
\* differ in constants, then a wire is not what the verifier computes for it
Satisfies(ci, vc) == /\ \A k \in DOMAIN vc.cons : Eval(ci, vc.cons[k]) = 0
                     /\ Second([ci EXCEPT !.rand = vc.rand]).ok
NoConstants(vc) == (\A k \in DOMAIN vc.cons : K(vc.cons[k]) = 0) /\ Second(vc).consts
RECURSIVE Pad(_, _)
Pad(n, p) == IF p >= n THEN p ELSE Pad(n, 2 * p)
Padded(ci) == Pad(Second(ci).n, 1)

\* what the verifier calls: the prover's program with one call changed, e = [k, i, o]
Edit(q, e) == CASE e.k = "none" -> q
                [] e.k = "drop" -> SubSeq(q, 1, e.i - 1) \o SubSeq(q, e.i + 1, Len(q))
                [] e.k = "put" -> [q EXCEPT ![e.i] = e.o]
                [] e.k = "add" -> Append(q, e.o)
                [] e.k = "swap" -> [q EXCEPT ![e.i] = q[e.i + 1], ![e.i + 1] = q[e.i]]
\* generators by which the check is made: "std"; "g", "h", "G", "H" with one of them changed (first element of the
\* vectors); "Glast", "Hlast": the last of the elements in use; "beyond": elements not in use; "exact": as many as
\* are in use; "Gshort", "Hshort": one less
GensOk(gens, vc) ==
  LET s == Second(vc) IN
  \/ gens \in {"std", "beyond", "exact"}
  \/ gens \in {"G", "H", "Glast", "Hlast"} /\ s.n = 0
  \/ gens = "g" /\ s.n = 0 /\ NoConstants(vc)
Accepts(c) ==
  LET ci == Circ(prog)
      vc == Circ(Edit(prog, c.e))
  IN /\ Shape(ci) = Shape(vc) /\ SameGates(ci, vc) /\ Satisfies(ci, vc)
     /\ c.com = "none" /\ c.t = "none" /\ c.label = "a" /\ GensOk(c.gens, vc)
Nth(x) == IF x = 1 THEN 0 ELSE x
Want(c) ==
  LET ci == Circ(prog) IN
  CASE c.op = "commit" -> << <<4, Len(ci.v)>> >>
    [] c.op \in {"mul", "allocm"} -> << <<1, N(ci)>>, <<2, N(ci)>>, <<3, N(ci)>> >>
    [] c.op = "alloc" -> IF ci.pend = -1 THEN << <<1, N(ci)>> >> ELSE << <<2, ci.pend>> >>
    [] c.op = "single" -> IF ci.pend = -1 THEN << <<1, N(ci)>> >> ELSE << <<2, ci.pend>>, <<3, ci.pend>> >>
    \* a prover must know its wires
    [] c.op = "blank" -> "err"
    [] c.op \in {"con", "rand"} -> "ok"
    [] c.op = "eval" -> Eval(ci, c.q)
    [] c.op = "alg" -> (CASE c.f = "add" -> Eval(ci, c.x) + Eval(ci, c.y)
                          [] c.f = "sub" -> Eval(ci, c.x) - Eval(ci, c.y)
                          [] c.f = "neg" -> -Eval(ci, c.x)
                          [] c.f = "scale" -> c.k * Eval(ci, c.x)
                          [] c.f = "simplify" -> Eval(ci, c.x)
                          [] c.f = "acc" -> Eval(ci, c.x) + c.k * Eval(ci, c.y))
    [] c.op = "terms" -> Cardinality(VarsOf(c.q) \cup (IF \E k \in DOMAIN c.q : c.q[k][1] = 0 THEN {<<0, 0>>} ELSE {}))
    [] c.op = "count" -> <<Len(ci.cons), N(ci)>>
    [] c.op = "prove" -> IF c.gens \in {"std", "exact"} THEN "done" ELSE "err"
    \* no two proofs of the same have a random element in common
    [] c.op = "fresh" -> "yes"
    [] c.op = "verify" -> IF Accepts(c) THEN "ok" ELSE "err"
    \* the inner product argument by itself
    [] c.op = "new" -> "ok"
    [] c.op = "ipp" -> IF c.t = "none" THEN "ok" ELSE "err"
    [] OTHER -> "?"
Allowed(c, r) == r = Want(c)
Building == {"commit", "mul", "alloc", "allocm", "single", "con", "rand"}
Step(c, r) == /\ ev' = Ev(c, r)
              /\ prog' = IF c.op = "new" THEN <<>> ELSE IF c.op \in Building THEN Append(prog, c) ELSE prog
              /\ ph' = IF c.op = "new" THEN "build" ELSE IF c.op = "prove" /\ r = "done" THEN "proved" ELSE ph
=============================================================================
