--------------------------------- MODULE Grp ---------------------------------
(* Scalars modulo the group order, points and pairings, libursa/src/pair/amcl.rs (property C28), as exponents: one
   register holds a scalar ("s"), a point of G1 or G2 or an element of the target group ("g1", "g2", "gt"), followed as
   the rational number <<n, d>> that is its discrete logarithm to fixed bases P, Q and e(P, Q). The order is a formal
   large prime, so equal rationals are the equal elements; the replay finds the logarithm of what the code computed in
   a table built by other means.
   Operands have a way of being given: "plain", or "over", the order added on top. *)
EXTENDS Kit
CONSTANTS N, D      \* the rationals followed: |n| <= N, d <= D
VARIABLES g, v, ev
vars == <<g, v>>
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == IF n = 0 THEN <<0, 1>>
              ELSE LET k == Gcd(Abs(n), Abs(d)) IN IF d < 0 THEN <<-(n \div k), (-d) \div k>> ELSE <<n \div k, d \div k>>
Add(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Ng(a) == <<-a[1], a[2]>>
Mul(a, b) == Norm(a[1] * b[1], a[2] * b[2])
RECURSIVE Pw(_, _)
Pw(a, n) == IF n = 0 THEN <<1, 1>> ELSE Mul(a, Pw(a, n - 1))
In(a) == Abs(a[1]) <= N /\ a[2] <= D
Txt(a) == ToString(a[1]) \o "/" \o ToString(a[2])

\* the register after a call: [g, v]
New(c) ==
  LET k(x, y) == [g |-> x, v |-> y] IN
  CASE c.op = "load" -> k("s", c.b)
    [] c.op = "add" -> k(g, Add(v, c.b))
    [] c.op = "sub" -> k(g, Add(v, Ng(c.b)))
    [] c.op = "neg" -> k(g, Ng(v))
    [] c.op = "mul" -> k(g, Mul(v, c.b))                \* by a scalar: of a point or pairing, its power
    [] c.op = "inv" -> IF v[1] = 0 THEN k(g, v) ELSE k(g, Norm(v[2], v[1]))
    [] c.op = "pow" -> k(g, Pw(v, c.n))
    \* to the power of the order less one: one, by Fermat
    [] c.op = "fermat" -> k(g, IF v[1] = 0 THEN <<0, 1>> ELSE <<1, 1>>)
    [] c.op = "to1" -> k("g1", v)
    [] c.op = "to2" -> k("g2", v)
    [] c.op = "pair" -> k("gt", Mul(v, c.b))            \* with c.b times the other base
    [] c.op = "pair2" -> k("gt", Add(Mul(v, c.b), Mul(c.x, c.y)))
    [] c.op = "inf" -> k(c.k, <<0, 1>>)
    [] OTHER -> k(g, v)
Outs(c) ==
  CASE c.op = "inv" /\ g = "s" /\ v[1] = 0 -> {"err"}   \* zero has no inverse
    [] c.op = "zero" -> {IF v[1] = 0 THEN "yes" ELSE "no"}
    [] c.op = "same" -> {IF v = c.b THEN "yes" ELSE "no"}
    [] c.op = "law" -> {"ok"}
    \* texts and bytes that are no elements
    [] c.op = "read" -> {"err"}
    [] c.op = "text" -> {"same"}
    [] OTHER -> {New(c).g \o " " \o Txt(New(c).v)}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == r \in Outs(c)
Step(c, r) == ev' = Ev(c, r) /\ g' = New(c).g /\ v' = New(c).v
Init == g = "s" /\ v = <<0, 1>> /\ ev = Ev([op |-> "init"], "")
=============================================================================
