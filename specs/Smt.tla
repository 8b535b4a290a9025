-------------------------------- MODULE Smt --------------------------------
(* Sparse Merkle trees of arity 4 and 8 in bulletproofs_amcl (property C26), in the clear and in proofs.
   An index is its digits in the base of the arity, most significant first; the tree keeps the last d of them (missing
   ones are zero), a proof refuses an index that does not fit. A node is <<level, cells>>: the set of <<digits, value>>
   below it that are not zero. Distinct nodes have distinct hashes. *)
EXTENDS Csat
VARIABLES t,      \* arity, depth, hash function
          m,      \* cells of the current tree
          roots,  \* nodes seen as roots in this database, in order
          path,   \* the path read last
          z,      \* the proof made last
          ev
vars == <<t, m, roots, path, z>>
NoTree == [ar |-> 0, d |-> 0, h |-> "none"]
NoProof == [made |-> FALSE]
Init == t = NoTree /\ m = {} /\ roots = <<>> /\ path = <<>> /\ z = NoProof /\ ev = Ev([op |-> "init"], "")

Zeros(n) == [x \in 1..n |-> 0]
Eff(q, d) == IF Len(q) >= d THEN SubSeq(q, Len(q) - d + 1, Len(q)) ELSE Zeros(d - Len(q)) \o q
Exact(q, d) == \A x \in 1..(Len(q) - d) : q[x] = 0
Root(d, cells) == <<d, cells>>
Alien == <<-1, {}>>
NodeAt(k) == IF k = 0 THEN Root(t.d, m) ELSE IF k = -1 THEN Alien ELSE roots[k]
\* the node below <<d, cells>> at a prefix
Below(d, cells, pre) == <<d - Len(pre), {<<SubSeq(c[1], Len(pre) + 1, d), c[2]>> : c \in {x \in cells : SubSeq(x[1], 1, Len(pre)) = pre}}>>
ValIn(cells, i) == IF \E c \in cells : c[1] = i THEN (CHOOSE c \in cells : c[1] = i)[2] ELSE 0
\* siblings, level by level from the root
Sib(ar, d, cells, i) ==
  [l \in 1..d |-> LET pre == SubSeq(i, 1, l - 1)
                      ds == [x \in 1..(ar - 1) |-> IF x - 1 < i[l] THEN x - 1 ELSE x]
                  IN [x \in 1..(ar - 1) |-> Below(d, cells, Append(pre, ds[x]))]]
Reverse(q) == [x \in DOMAIN q |-> q[Len(q) + 1 - x]]
Edited(q, e) ==
  CASE e.n = "none" -> q
    [] e.n = "short" -> IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
    [] e.n = "front" -> IF q = <<>> THEN q ELSE Tail(q)
    [] e.n = "empty" -> <<>>
    [] e.n = "long" -> Append(q, [x \in 1..(t.ar - 1) |-> <<0, {}>>])
    [] e.n = "swapl" -> IF Len(q) < 2 THEN q ELSE [q EXCEPT ![1] = q[2], ![2] = q[1]]
    [] e.n = "rev" -> IF e.l \in DOMAIN q THEN [q EXCEPT ![e.l] = Reverse(q[e.l])] ELSE q
    [] e.n = "alien" -> IF e.l \in DOMAIN q THEN [q EXCEPT ![e.l][1] = Alien] ELSE q
    [] e.n = "zero" -> IF e.l \in DOMAIN q THEN [q EXCEPT ![e.l][t.ar - 1] = <<0, {}>>] ELSE q
\* the siblings on path q, index and value give the root
Proves(q, i, v, root) ==
  /\ Len(q) = t.d /\ root[1] = t.d
  /\ LET ix == Eff(i, t.d) IN q = Sib(t.ar, t.d, root[2], ix) /\ ValIn(root[2], ix) = v
RootId(node, rs) == IF node \in Rng(rs) THEN CHOOSE x \in DOMAIN rs : rs[x] = node ELSE Len(rs) + 1
Grow(node, rs) == IF node \in Rng(rs) THEN rs ELSE Append(rs, node)
Written(c) == {x \in m : x[1] # Eff(c.i, t.d)} \cup (IF c.v = 0 THEN {} ELSE {<<Eff(c.i, t.d), c.v>>})
\* a proof commits to path, index, (hidden) leaf; root and known leaf are the verifier's constants
Whole(q) == Len(q) = t.d
Shows(c) == Proves(Edited(path, c.e), c.i, c.v, NodeAt(c.k)) /\ Exact(c.i, t.d)
Holds(v, root) == Proves(z.q, z.i, v, root) /\ Exact(z.i, t.d)
Accepts(c) == /\ z.made /\ c.hide = z.hide /\ (c.hide \/ c.v = z.v \/ t.d = 0)
              /\ Holds(IF c.hide THEN z.v ELSE c.v, NodeAt(c.k))
              /\ c.e = "none" /\ c.label = "a" /\ c.gens = "std" /\ c.d = t.d

\* circuits, with the hash (1 + c1 + 2 c2 + 3 c3 + ...)^2
RECURSIVE Combo(_, _, _)
Combo(q, k, p) == IF k > Len(q) THEN 1 ELSE (k * q[k] + Combo(q, k + 1, p)) % p
Squared(x, p) == (x * x) % p
RECURSIVE FoldUp(_, _, _, _, _)
FoldUp(sib, i, v, l, p) ==   \* levels l, l-1, ... 1
  IF l = 0 THEN v
  ELSE FoldUp(sib, i, Squared(Combo(SubSeq(sib[l], 1, i[l]) \o <<v>> \o SubSeq(sib[l], i[l] + 1, Len(sib[l])), 1, p), p), l - 1, p)
RECURSIVE IndexOf(_, _, _)
IndexOf(i, ar, p) == IF i = <<>> THEN 0 ELSE (IndexOf(SubSeq(i, 1, Len(i) - 1), ar, p) * ar + i[Len(i)]) % p
MerkleHolds(c) == \E i \in [1..c.d -> 0..(c.ar - 1)] : IndexOf(i, c.ar, c.p) = c.ix /\ FoldUp(c.sib, i, c.v, c.d, c.p) = c.root
Decides(c) == Satisfiable(c) <=> MerkleHolds(c)

Want(c) ==
  CASE c.op = "new" -> ToString(RootId(Root(c.d, {}), IF c.keep THEN roots ELSE <<>>))
    [] c.op = "update" -> ToString(RootId(Root(t.d, Written(c)), roots))
    [] c.op = "get" -> IF NodeAt(c.k) = Alien THEN "err" ELSE ToString(ValIn(NodeAt(c.k)[2], Eff(c.i, t.d)))
    [] c.op = "path" -> ToString(ValIn(NodeAt(c.k)[2], Eff(c.i, t.d)))
    [] c.op = "verify" -> IF Proves(Edited(path, c.e), c.i, c.v, NodeAt(c.k)) THEN "yes" ELSE "no"
    [] c.op = "wit" -> IF ~Whole(Edited(path, c.e)) THEN "err" ELSE IF Shows(c) THEN "yes" ELSE "no"
    [] c.op = "zk" -> IF ~Whole(Edited(path, c.e)) \/ c.how \notin {"rng", "blind", "few"} \/ (c.how = "few" /\ t.d > 0) THEN "err" ELSE "done"
    [] c.op = "zkv" -> IF Accepts(c) THEN "ok" ELSE "err"
    [] OTHER -> "?"
Allowed(c, r) == IF c.op = "circuit" THEN r = "ok" /\ Decides(c) ELSE r = Want(c)
Step(c, r) ==
  /\ ev' = Ev(c, r)
  /\ CASE c.op = "new" -> /\ t' = [ar |-> c.ar, d |-> c.d, h |-> c.h] /\ m' = {} /\ path' = <<>> /\ z' = NoProof
                          /\ roots' = Grow(Root(c.d, {}), IF c.keep THEN roots ELSE <<>>)
       [] c.op = "update" -> m' = Written(c) /\ roots' = Grow(Root(t.d, Written(c)), roots) /\ UNCHANGED <<t, path, z>>
       [] c.op = "path" -> path' = Sib(t.ar, t.d, NodeAt(c.k)[2], Eff(c.i, t.d)) /\ UNCHANGED <<t, m, roots, z>>
       [] c.op = "zk" /\ r = "done" -> z' = [made |-> TRUE, q |-> Edited(path, c.e), i |-> c.i, hide |-> c.hide, v |-> c.v] /\ UNCHANGED <<t, m, roots, path>>
       [] OTHER -> UNCHANGED vars
=============================================================================
