-------------------------------- MODULE Modp --------------------------------
(* Arithmetic modulo a prime P, P*P < 2^31. *)
EXTENDS Integers, Sequences
CONSTANT P
M(x) == x % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b + P) % P
Mul(a, b) == (a * b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 % P
             ELSE LET h == Pow(Mul(a, a), n \div 2) IN IF n % 2 = 1 THEN Mul(a, h) ELSE h
Inv(a) == Pow(a, P - 2)

\* value at x of the polynomial with coefficients c[1] + c[2] x + ...
RECURSIVE Eval(_, _)
Eval(c, x) == IF c = <<>> THEN 0 ELSE Add(Head(c), Mul(x, Eval(Tail(c), x)))

\* Lagrange basis i of the points xs at x, and the interpolated value
RECURSIVE ProdOver(_, _, _, _)
ProdOver(xs, i, x, j) ==
  IF j = 0 THEN 1
  ELSE IF j = i THEN ProdOver(xs, i, x, j - 1)
  ELSE Mul(Mul(Sub(x, xs[j]), Inv(Sub(xs[i], xs[j]))), ProdOver(xs, i, x, j - 1))
RECURSIVE InterpTo(_, _, _, _)
InterpTo(xs, ys, x, i) ==
  IF i = 0 THEN 0
  ELSE Add(Mul(ys[i], ProdOver(xs, i, x, Len(xs))), InterpTo(xs, ys, x, i - 1))
Interp(xs, ys, x) == InterpTo(xs, ys, x, Len(xs))
=============================================================================
