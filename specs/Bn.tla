--------------------------------- MODULE Bn ---------------------------------
(* Big numbers as integers, libursa/src/bn (property C28). A number is written as a polynomial <<c2, c1, c0>> in a
   formal large W, standing for c2*W^2 + c1*W + c0: the replay runs every call for several W at once, so that one
   model run covers single-word, word-boundary and many-word operands of both signs. acc is one register.
   Results are texts of numbers "c2,c1,c0" (or of plain integers for the operations on small numbers), "err" for an
   operation without a result. *)
EXTENDS Kit
VARIABLES acc, ev
vars == <<acc>>

Zero == <<0, 0, 0>>
Sm(n) == <<0, 0, n>>
Small(v) == v[1] = 0 /\ v[2] = 0
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Minus(a, b) == Plus(a, Neg(b))
\* the product has no term beyond W^2
Fits(a, b) == a[1] * b[2] + a[2] * b[1] = 0 /\ a[1] * b[1] = 0
Times(a, b) == <<a[1] * b[3] + a[2] * b[2] + a[3] * b[1], a[2] * b[3] + a[3] * b[2], a[3] * b[3]>>
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Sign(v) == IF v[1] # 0 THEN Sgn(v[1]) ELSE IF v[2] # 0 THEN Sgn(v[2]) ELSE Sgn(v[3])
AbsV(v) == IF Sign(v) < 0 THEN Neg(v) ELSE v
Txt(v) == ToString(v[1]) \o "," \o ToString(v[2]) \o "," \o ToString(v[3])

\* --- plain integers
Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
Red(a, m) == a % Abs(m)
RECURSIVE MPow(_, _, _)
MPow(a, n, m) == IF n = 0 THEN Red(1, m) ELSE Red(Red(a, m) * MPow(a, n - 1, m), m)
\* the inverse modulo m, of which there is none if a and m have a common factor
Unit(a, m) == Gcd(Abs(a), Abs(m)) = 1
Inv(a, m) == CHOOSE x \in 1..(Abs(m) - 1) : Red(a * x, m) = 1
Prime(n) == n >= 2 /\ \A d \in 2..(n - 1) : d * d > n \/ n % d # 0
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Bit(n, i) == (n \div IPow(2, i)) % 2
S(n) == {ToString(n)}
Yes(b) == IF b THEN {"yes"} ELSE {"no"}

\* results of an operation on a small number a
Query(c, a) ==
  CASE c.f = "div" -> IF c.b = 0 THEN {"err"} ELSE S(TDiv(a, c.b))
    [] c.f = "divw" -> IF c.b = 0 THEN {"err"} ELSE S(TDiv(a, c.b))
    [] c.f = "modulus" -> IF c.b = 0 THEN {"err"} ELSE S(Red(a, c.b))
    [] c.f = "gcd" -> S(Gcd(Abs(a), Abs(c.b)))
    \* the only inverse modulo 1 is 0: given or refused
    [] c.f = "inverse" -> IF c.b = 0 THEN {"err"} ELSE IF Abs(c.b) = 1 THEN {"err", "0"} ELSE IF Unit(a, c.b) THEN S(Inv(a, c.b)) ELSE {"err"}
    [] c.f = "exp" -> IF c.b < 0 THEN (IF Abs(a) = 1 THEN {"err"} \cup S(IPow(a, Abs(c.b))) ELSE {"err"})
                      ELSE S(IPow(a, c.b)) \cup (IF a = 0 /\ c.b = 0 THEN {"0"} ELSE {})
    [] c.f = "mod_mul" -> IF c.m = 0 THEN {"err"} ELSE S(Red(a * c.b, c.m))
    [] c.f = "mod_sub" -> IF c.m = 0 THEN {"err"} ELSE S(Red(a - c.b, c.m))
    [] c.f = "mod_div" -> IF c.m = 0 THEN {"err"} ELSE IF Abs(c.m) = 1 THEN {"err", "0"} ELSE IF Unit(c.b, c.m) THEN S(Red(a * Inv(c.b, c.m), c.m)) ELSE {"err"}
    [] c.f = "mod_exp" -> IF c.m = 0 THEN {"err"}
                          ELSE IF c.b >= 0 THEN S(MPow(a, c.b, c.m))
                          ELSE IF Abs(c.m) = 1 THEN {"err", "0"}
                          ELSE IF Unit(a, c.m) THEN S(MPow(Inv(a, c.m), -c.b, c.m)) ELSE {"err"}
    \* of a negative number either way of rounding
    [] c.f = "rshift" -> IF a >= 0 THEN S(a \div IPow(2, c.b)) ELSE S(TDiv(a, IPow(2, c.b))) \cup S(-((IPow(2, c.b) - 1 - a) \div IPow(2, c.b)))
    [] c.f = "bits" -> S(Bits(Abs(a)))
    [] c.f = "is_bit" -> IF a >= 0 THEN Yes(Bit(a, c.b) = 1) ELSE {"yes", "no"}
    [] c.f = "set_bit" -> IF c.b < 0 THEN {"err"} ELSE IF a >= 0 THEN S(IF Bit(a, c.b) = 1 THEN a ELSE a + IPow(2, c.b)) ELSE {"?"}
    [] c.f = "prime" -> Yes(Prime(a))
    [] c.f = "safe" -> Yes(Prime(a) /\ Prime((a - 1) \div 2))

\* texts that are not numbers are refused; what is a number has its value (leading zeros, minus zero)
Digits(k) == IF k = "dec" \/ k = "json" THEN {"0", "1", "2", "9"} ELSE {"0", "1", "2", "9", "a", "F"}
DigVal(d) == CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "9" -> 9 [] d = "a" -> 10 [] d = "F" -> 15
Base(k) == IF k = "hex" THEN 16 ELSE 10
RECURSIVE Val(_, _)
Val(q, k) == IF q = <<>> THEN 0 ELSE Base(k) * Val(SubSeq(q, 1, Len(q) - 1), k) + DigVal(q[Len(q)])
AllDigits(q, k) == q # <<>> /\ \A i \in DOMAIN q : q[i] \in Digits(k)
\* a separator between digits may be read over
Bare(q) == SelectSeq(q, LAMBDA d : d # "_")
Parse(q, k) ==
  IF AllDigits(q, k) THEN S(Val(q, k))
  ELSE IF q # <<>> /\ Head(q) = "-" /\ AllDigits(Tail(q), k) THEN S(-Val(Tail(q), k))
  ELSE IF q # <<>> /\ Head(q) = "+" /\ AllDigits(Tail(q), k) THEN S(Val(Tail(q), k)) \cup {"err"}
  ELSE IF q # <<>> /\ (Head(q) \in Digits(k) \/ (Len(q) > 1 /\ Head(q) \in {"+", "-"} /\ q[2] \in Digits(k))) /\ (LET d == Bare(IF Head(q) \in {"+", "-"} THEN Tail(q) ELSE q) IN AllDigits(d, k))
       THEN {"err"} \cup S((IF Head(q) = "-" THEN -1 ELSE 1) * Val(Bare(IF Head(q) \in {"+", "-"} THEN Tail(q) ELSE q), k))
  ELSE {"err"}

\* the register after a call
New(c) ==
  CASE c.op = "set" -> c.b
    [] c.op = "add" -> Plus(acc, c.b)
    [] c.op = "sub" -> Minus(acc, c.b)
    [] c.op = "mul" -> Times(acc, c.b)
    [] c.op = "sqr" -> Times(acc, acc)
    [] c.op \in {"inc", "dec", "lsh", "pos", "neg"} ->
         (CASE c.op = "inc" -> Plus(acc, Sm(1)) [] c.op = "dec" -> Minus(acc, Sm(1)) [] c.op = "lsh" -> Plus(acc, acc)
            [] c.op = "pos" -> AbsV(acc) [] c.op = "neg" -> Neg(AbsV(acc)))
    [] c.op = "addw" -> Plus(acc, Sm(c.b)) [] c.op = "subw" -> Minus(acc, Sm(c.b)) [] c.op = "mulw" -> Times(acc, Sm(c.b))
    [] OTHER -> acc
Changes == {"set", "add", "sub", "mul", "sqr", "inc", "dec", "lsh", "pos", "neg", "addw", "subw", "mulw"}
Outs(c) ==
  CASE c.op \in Changes -> {Txt(New(c))}
    [] c.op = "cmp" -> {LET s == Sign(Minus(acc, c.b)) IN IF s < 0 THEN "lt" ELSE IF s > 0 THEN "gt" ELSE "eq"}
    \* quotient and remainder of the register by a number of any size multiply and add up to it again
    [] c.op = "divmod" -> {IF Sign(c.b) = 0 THEN "err" ELSE "ok"}
    [] c.op = "q" -> Query(c, acc[3])
    [] c.op = "parse" -> Parse(c.q, c.k)
    \* laws on random numbers: none fails
    [] c.op = "law" -> {"ok"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == r \in Outs(c)
Step(c, r) == ev' = Ev(c, r) /\ acc' = New(c)
Init == acc = Zero /\ ev = Ev([op |-> "init"], "")
=============================================================================
