-------------------------------- MODULE BnMC --------------------------------
EXTENDS Bn
CONSTANTS C, O, R, PM
\* the numbers followed and the operands
Within(v) == \A i \in 1..3 : Abs(v[i]) <= C
Opnds == {v \in (-O..O) \X (-O..O) \X (-O..O) : Abs(v[1]) + Abs(v[2]) + Abs(v[3]) <= 2}
Do(c) == Step(c, Want(c))
Walk ==
  \/ \E b \in Opnds, o \in {"add", "sub"} : Within(New([op |-> o, b |-> b])) /\ Do([op |-> o, b |-> b])
  \/ \E b \in Opnds : Fits(acc, b) /\ Within(Times(acc, b)) /\ Do([op |-> "mul", b |-> b])
  \/ (Fits(acc, acc) /\ Within(Times(acc, acc)) /\ Do([op |-> "sqr"]))
  \/ \E o \in {"inc", "dec", "lsh", "pos", "neg"} : Within(New([op |-> o])) /\ Do([op |-> o])
  \/ \E o \in {"addw", "subw", "mulw"}, w \in 0..2 : Within(New([op |-> o, b |-> w])) /\ Do([op |-> o, b |-> w])
  \/ \E b \in Opnds : Do([op |-> "cmp", b |-> b]) \/ Do([op |-> "divmod", b |-> b])
Sets == \E b \in {v \in (-C..C) \X (-C..C) \X (-C..C) : Abs(v[1]) + Abs(v[2]) <= 2} \cup {Sm(n) : n \in -R..R}, how \in {"dec", "hex", "bytes", "json"} :
          acc = Zero /\ Do([op |-> "set", b |-> b, how |-> how])
Q1 == \E f \in {"div", "divw", "modulus", "gcd", "inverse", "exp", "rshift", "bits", "is_bit", "set_bit", "prime", "safe"} :
        \E b \in (CASE f \in {"div", "modulus", "gcd", "inverse", "exp"} -> -R..R
                    [] f \in {"rshift", "is_bit", "divw"} -> 0..R
                    [] f = "set_bit" -> -1..R
                    [] OTHER -> {0}) : Do([op |-> "q", f |-> f, b |-> b])
Q2 == \E f \in {"mod_mul", "mod_sub", "mod_div", "mod_exp"}, b \in -R..R, m \in -R..R : Do([op |-> "q", f |-> f, b |-> b, m |-> m])
Primes == \E n \in 0..PM, f \in {"prime", "safe"} : Do([op |-> "set", b |-> Sm(n), how |-> "dec"])
Chars == {"0", "1", "9", "-", "+", "a", "F", " ", "x", "_", "nul", "."}
Parses == \E k \in {"dec", "hex", "json"} : \E q \in SeqsOf(Chars, 0, 3) : Do([op |-> "parse", q |-> q, k |-> k])
Next == Walk \/ Sets \/ (Small(acc) /\ Abs(acc[3]) <= R /\ (Q1 \/ Q2)) \/ (acc = Zero /\ (Parses \/ Primes))
        \/ (Small(acc) /\ Abs(acc[3]) > R /\ \E f \in {"prime", "safe"} : Do([op |-> "q", f |-> f, b |-> 0]))
Emit == EmitEdge(vars, ev', vars')
View == vars
\* the design: operations are inverse to one another and compatible with the order
Laws == \A b \in Opnds : /\ Plus(Minus(acc, b), b) = acc
                         /\ Sign(Minus(acc, b)) = -Sign(Minus(b, acc))
                         /\ Fits(acc, b) => Sign(Times(acc, b)) = Sign(acc) * Sign(b)
=============================================================================
