-------------------------------- MODULE Csat --------------------------------
(* Satisfiability of a constraint system over a small prime field. The systems are recorded from the code's gadgets:
   cs is a set of normalised linear constraints (see Norm), n the number of multiplication gates, a the assignment
   (-1: open). Variables: 3i+1, 3i+2, 3i+3 are left, right and output of gate i, then the committed ones. *)
EXTENDS Kit
\* the circuits themselves: a constraint system recorded from the gadget, its terms <<sort, index, coefficient>> with
\* sort 0 constant, 1 left, 2 right, 3 output, 4 committed. 
Coef(c, p) == (c + 64 * p) % p
VarId(n, t) == IF t[1] = 4 THEN 3 * n + t[2] + 1 ELSE 3 * t[2] + t[1]
RECURSIVE Lin(_, _, _, _, _)   \* value of the assigned terms
Lin(n, q, k, a, p) == IF k > Len(q) THEN 0
  ELSE LET t == q[k]
           x == IF t[1] = 0 THEN 1 ELSE IF a[VarId(n, t)] = -1 THEN 0 ELSE a[VarId(n, t)]
       IN (Coef(t[3], p) * x + Lin(n, q, k + 1, a, p)) % p
RECURSIVE CoefOf(_, _, _, _, _)
CoefOf(n, q, k, x, p) == IF k > Len(q) THEN 0
  ELSE ((IF q[k][1] # 0 /\ VarId(n, q[k]) = x THEN Coef(q[k][3], p) ELSE 0) + CoefOf(n, q, k + 1, x, p)) % p
Free(n, q, a) == {VarId(n, q[k]) : k \in {j \in DOMAIN q : q[j][1] # 0 /\ a[VarId(n, q[j])] = -1}}
Inv(x, p) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
\* a constraint as constant, and coefficients by variable (zero ones left out)
Norm(n, q, p) == LET xs == {VarId(n, q[k]) : k \in {j \in DOMAIN q : q[j][1] # 0}}
                     ys == {x \in xs : CoefOf(n, q, 1, x, p) # 0}
                 IN [k |-> Lin(n, q, 1, [x \in xs |-> -1], p), co |-> TLCEval([x \in ys |-> CoefOf(n, q, 1, x, p)])]
RECURSIVE Dot(_, _, _)
Dot(co, xs, a) == IF xs = {} THEN 0 ELSE LET x == CHOOSE y \in xs : TRUE IN co[x] * a[x] + Dot(co, xs \ {x}, a)
ValueOf(q, a, p) == (q.k + Dot(q.co, {x \in DOMAIN q.co : a[x] # -1}, a)) % p
Open(q, a) == {x \in DOMAIN q.co : a[x] = -1}
RECURSIVE Sat(_, _, _, _)
Sat(n, cs, a, p) ==
  \* products known but not yet written
  LET prod == {i \in 0..(n - 1) : a[3 * i + 1] # -1 /\ a[3 * i + 2] # -1 /\ a[3 * i + 3] = -1} IN
  IF prod # {} THEN Sat(n, cs, TLCEval([x \in DOMAIN a |-> IF x % 3 = 0 /\ x <= 3 * n /\ (x \div 3) - 1 \in prod THEN (a[x - 2] * a[x - 1]) % p ELSE a[x]]), p)
  ELSE IF \E i \in 0..(n - 1) : a[3 * i + 1] # -1 /\ a[3 * i + 2] # -1 /\ a[3 * i + 3] # (a[3 * i + 1] * a[3 * i + 2]) % p THEN FALSE
  \* factors known from product and the other factor
  ELSE LET fac == {x \in 1..(3 * n) : a[x] = -1 /\ x % 3 # 0 /\ a[((x - 1) \div 3) * 3 + 3] # -1 /\ a[IF x % 3 = 1 THEN x + 1 ELSE x - 1] > 0} IN
  IF fac # {} THEN Sat(n, cs, TLCEval([x \in DOMAIN a |-> IF x \in fac THEN (a[((x - 1) \div 3) * 3 + 3] * Inv(a[IF x % 3 = 1 THEN x + 1 ELSE x - 1], p)) % p ELSE a[x]]), p)
  ELSE LET live == TLCEval({q \in cs : Open(q, a) # {}})
           dead == cs \ live
       IN IF \E q \in dead : ValueOf(q, a, p) # 0 THEN FALSE
          ELSE LET unit == {q \in live : Cardinality(Open(q, a)) = 1} IN
               \* (two that disagree on a variable are found out when they are dead)
               IF unit # {} THEN LET xs == UNION {Open(q, a) : q \in unit}
                                     val == TLCEval([x \in xs |-> LET q == CHOOSE u \in unit : Open(u, a) = {x} IN ((p - ValueOf(q, a, p)) * Inv(q.co[x], p)) % p])
                                 IN Sat(n, live, TLCEval([x \in DOMAIN a |-> IF x \in xs THEN val[x] ELSE a[x]]), p)
               ELSE LET open == {x \in DOMAIN a : a[x] = -1} IN
                    IF open = {} THEN TRUE
                    \* branch on an input, then on left and right wires
                    ELSE LET com == {x \in open : x > 3 * n}
                             ins == {x \in open : x % 3 # 0}
                             x == IF com # {} THEN CHOOSE y \in com : \A z \in com : y <= z
                                  ELSE CHOOSE y \in ins : \A z \in ins : y <= z
                         IN \E w \in 0..(p - 1) : Sat(n, live, TLCEval([a EXCEPT ![x] = w]), p)
\* c.ins: values of the committed variables
Satisfiable(c) == Sat(c.n, TLCEval({Norm(c.n, c.cons[i], c.p) : i \in DOMAIN c.cons}),
                      TLCEval([x \in 1..(3 * c.n + c.m) |-> IF x > 3 * c.n THEN c.ins[x - 3 * c.n] ELSE -1]), c.p)
=============================================================================
