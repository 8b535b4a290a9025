-------------------------------- MODULE Chain --------------------------------
(* Delegation chains, libzmix/src/signatures/delg_cred_cdd (property C20).
   Keys: even keys 0..K-1 (the root is 0) sign links of odd level, odd keys sign those of even level.
   A link: [lvl, by, to, at, good]; at is the list of attributes without the delegate's key, good whether the signature
   is one by `by` on exactly what the link shows. The chain is held as its odd and its even links. *)
EXTENDS Kit
CONSTANTS Y   \* attributes the set-up is for, the delegate's key among them
VARIABLES od, en, ev
vars == <<od, en>>
Yes(b) == IF b THEN {"yes"} ELSE {"no", "err"}
Ok(b) == IF b THEN {"ok"} ELSE {"err"}
Odd(n) == n % 2 = 1
Shaped == Len(od) = (Len(od) + Len(en) + 1) \div 2
Size == Len(od) + Len(en)
Link(i) == IF Odd(i) THEN od[(i + 1) \div 2] ELSE en[i \div 2]
Fits(l, ls, first) == IF ls = <<>> THEN l = first ELSE l = ls[Len(ls)].lvl + 2
Benign == {"none", "rand", "json"}
\* the signature covers each attribute with its place, and nothing else
Good(c) == \/ c.e \in Benign
           \/ c.e = "swap" /\ c.at[1] = c.at[2]
\* keys claimed for levels 0..n: ks; c.more: further keys
KeysFit(c) == Len(c.ks) = Size + 1 /\ c.more = "no"
Valid(c) == /\ Size > 0 /\ Shaped /\ KeysFit(c)
            /\ \A i \in 1..Size : LET l == Link(i) IN l.lvl = i /\ l.good /\ l.by = c.ks[i] /\ l.to = c.ks[i + 1]
LastValid(l, c) == l.good /\ l.by = c.by /\ l.to = c.to
Outs(c) ==
  CASE c.op = "issuer" -> Ok((c.odd = "yes") = Odd(c.lvl))
    [] c.op = "extend" -> Ok(Len(c.at) < Y /\ (IF Odd(c.lvl) THEN Fits(c.lvl, od, 1) ELSE Fits(c.lvl, en, 2)))
    \* a link of the wrong sort for its level
    [] c.op = "misfit" -> {"err"}
    [] c.op = "verify" -> Yes(Valid(c))
    [] c.op = "last" -> IF Odd(c.lvl) THEN (IF od = <<>> THEN {"err"} ELSE Yes(LastValid(od[Len(od)], c)))
                        ELSE IF en = <<>> THEN {"err"} ELSE Yes(LastValid(en[Len(en)], c))
    [] c.op = "relabel" -> {"ok"}
    [] c.op = "cuttail" -> IF c.n > Size THEN {"err"} ELSE IF \A i \in 1..c.n : IF Odd(i) THEN (i + 1) \div 2 <= Len(od) ELSE i \div 2 <= Len(en) THEN {"ok"} ELSE {"err"}
    [] c.op = "get" -> Ok(IF c.odd THEN c.i < Len(od) ELSE c.i < Len(en))
    [] c.op = "json" -> {"ok"}
    \* Groth signatures by themselves: on m, checked with n, how altered
    [] c.op = "groth" -> IF Len(c.m) > c.y \/ c.y = 0 THEN {"err"}
                         ELSE Yes(c.n = c.m /\ c.key = "own" /\ c.par = "own" /\ c.e \in {"none", "rand"})
    \* proof of knowledge of the signing key
    [] c.op = "pok" -> Yes(c.key = "own" /\ c.chal = "same" /\ c.e = "none")
    \* an attribute in the middle passed off as the delegate's key: attributes after it and their signature left out
    [] c.op = "cut" -> {"no", "err"}
    [] OTHER -> {"?"}
Want(c) == LET o == Outs(c) IN IF Cardinality(o) = 1 THEN (CHOOSE x \in o : TRUE) ELSE [any |-> Tup(o)]
Allowed(c, r) == "?" \in Outs(c) \/ r \in Outs(c)
NewLink(c) == [lvl |-> c.lvl, by |-> c.by, to |-> c.to, at |-> c.at, good |-> Good(c)]
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ od' = IF c.op = "extend" /\ r = "ok" /\ Odd(c.lvl) THEN Append(od, NewLink(c))
           ELSE IF c.op = "cuttail" /\ r = "ok" THEN SubSeq(od, 1, (c.n + 1) \div 2)
           ELSE IF c.op = "relabel" /\ Odd(c.i) THEN [od EXCEPT ![(c.i + 1) \div 2].lvl = c.lvl] ELSE od
  /\ en' = IF c.op = "extend" /\ r = "ok" /\ ~Odd(c.lvl) THEN Append(en, NewLink(c))
           ELSE IF c.op = "cuttail" /\ r = "ok" THEN SubSeq(en, 1, c.n \div 2)
           ELSE IF c.op = "relabel" /\ ~Odd(c.i) THEN [en EXCEPT ![c.i \div 2].lvl = c.lvl] ELSE en
Init == od = <<>> /\ en = <<>> /\ ev = Ev([op |-> "init"], "")
=============================================================================
