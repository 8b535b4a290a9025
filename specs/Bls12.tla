-------------------------------- MODULE Bls12 --------------------------------
(* BLS signatures over BLS12-381 and their aggregates (property C10), for both key-size variants.
   Everything is a vector of discrete logarithms. A hash is named by its context and message. Keys are
   combinations of independent secrets: key i < Neg is the i-th, key Neg cancels the first, key 0 is zero.
   A signature with rogue-key protection is multiplied by the coefficient of its position's key in its
   list; coefficients of different (list, key) are independent symbols. made lists the signatures so far.
     sign k m x; signrk k m x L i; contexts x: 0 the default, 1 another, 2 the default one of proofs of possession
     verify: made[i] (i = 0: the proof of possession of k as a signature) on m (0: the bytes of key k) under k of gk, g
     nork / agg: the aggregate of made under a plain list of keys / the aggregated key of list L
     comb: all of made combined, under the combination of keys ks
     vmulti: all of made combined, against pairs of message and key
     batch: pairs of made[i], message, key; aggbatch: pairs of an aggregate of some of made, message, list
     pop: a proof of possession; recode/dec: encodings *)
EXTENDS Kit
CONSTANTS Neg
VARIABLES ev, made
Val(k, b) == CASE k = 0 -> 0 [] k = Neg -> (IF b = 1 THEN -1 ELSE 0) [] OTHER -> (IF k = b THEN 1 ELSE 0)
Bases == 1..(Neg - 1)
NoSym == <<<<>>, 0>>
Sig(c) == [k |-> c.k, h |-> <<c.x, c.m>>, sym |-> IF c.op = "sign" THEN NoSym ELSE <<c.L, c.L[c.i]>>]
\* coefficients of a list of signatures; of a list of keys; of an aggregated key
SigV(q, h, b, y) == SumSeq([i \in DOMAIN q |-> IF q[i].h = h /\ q[i].sym = y THEN Val(q[i].k, b) ELSE 0])
KeyV(ks, b, y) == IF y = NoSym THEN SumSeq([i \in DOMAIN ks |-> Val(ks[i], b)]) ELSE 0
ApkV(L, b, y) == IF y[1] = L THEN SumSeq([i \in DOMAIN L |-> IF y[2] = L[i] THEN Val(L[i], b) ELSE 0]) ELSE 0
Syms(q, L) == {NoSym} \cup {q[i].sym : i \in DOMAIN q} \cup {<<L, k>> : k \in Rng(L)}
Hashes(q) == {q[i].h : i \in DOMAIN q}
Zero(q) == \A h \in Hashes(q), b \in Bases, y \in Syms(q, <<>>) : SigV(q, h, b, y) = 0
Sel(is) == [j \in DOMAIN is |-> made[is[j]]]
Hash(c) == <<c.x, c.m>>
Live(ks) == ks # <<>> /\ \A i \in DOMAIN ks : ks[i] # 0
KeysOk(ks) == Live(ks) /\ \E b \in Bases : KeyV(ks, b, NoSym) # 0
\* the aggregate q is what the keys ks (rk: protected) give for hash h
Fits(q, h, ks, rk) == LET L == IF rk THEN ks ELSE <<>> IN
    \A g \in Hashes(q) \cup {h} : \A b \in Bases, y \in Syms(q, L) :
        SigV(q, g, b, y) = IF g = h THEN (IF rk THEN ApkV(ks, b, y) ELSE KeyV(ks, b, y)) ELSE 0
\* an aggregated key is the identity only if all its coefficients are zero
ApkOk(L) == L # <<>> /\ \E b \in Bases, k \in Rng(L) : ApkV(L, b, <<L, k>>) # 0

\* the context of proofs of possession is public: who uses it for signatures makes them the same
VerifyOk(c) == c.gk = c.g /\ c.k # 0 /\ IF c.i = 0 THEN c.x = 2 ELSE Fits(Sel(<<c.i>>), Hash(c), <<c.k>>, FALSE)
NorkOk(c) == c.gk = c.g /\ KeysOk(c.ks) /\ Fits(made, Hash(c), c.ks, FALSE)
\* protected signatures are for the keys as made for the first generator
AggOk(c) == c.gk = c.g /\ c.gk = 1 /\ ApkOk(c.L) /\ Fits(made, Hash(c), c.L, TRUE)
\* in contrast to lists, a combination is one key
CombOk(c) == /\ c.gk = c.g /\ c.ks # <<>> /\ (\E b \in Bases : KeyV(c.ks, b, NoSym) # 0) /\ Fits(made, Hash(c), c.ks, FALSE)
InH(c, i) == <<c.x, c.in[i].m>>
VmultiOk(c) ==
   /\ c.gk = c.g /\ c.in # <<>> /\ made # <<>> /\ ~Zero(made)
   /\ \A i \in DOMAIN c.in : c.in[i].k # 0
   /\ \A i, j \in DOMAIN c.in : i # j => c.in[i].m # c.in[j].m
   /\ \A h \in Hashes(made) \cup {InH(c, i) : i \in DOMAIN c.in} : \A b \in Bases, y \in Syms(made, <<>>) :
        SigV(made, h, b, y) = SumSeq([i \in DOMAIN c.in |-> IF InH(c, i) = h /\ y = NoSym THEN Val(c.in[i].k, b) ELSE 0])
BatchOk(c) == c.gk = c.g /\ c.in # <<>> /\ \A i \in DOMAIN c.in : c.in[i].k # 0 /\ Fits(Sel(<<c.in[i].i>>), InH(c, i), <<c.in[i].k>>, FALSE)
AggBatchOk(c) == c.gk = c.g /\ c.gk = 1 /\ c.in # <<>> /\ \A i \in DOMAIN c.in : ApkOk(c.in[i].L) /\ Fits(Sel(c.in[i].is), InH(c, i), c.in[i].L, TRUE)
PopCtx(x) == IF x = 0 THEN 2 ELSE x
PopOk(c) == c.as = "pop" /\ c.k0 = c.k /\ c.g0 = c.gk /\ c.gk = c.g /\ c.k # 0 /\ PopCtx(c.x0) = PopCtx(c.x)
YN(b) == IF b THEN "yes" ELSE "no"
Want(c) == CASE c.op \in {"sign", "signrk", "new"} -> "ok"
             [] c.op = "verify" -> YN(VerifyOk(c))
             [] c.op = "nork" -> YN(NorkOk(c))
             [] c.op = "agg" -> YN(AggOk(c))
             [] c.op = "comb" -> YN(CombOk(c))
             [] c.op = "vmulti" -> YN(VmultiOk(c))
             [] c.op = "batch" -> YN(BatchOk(c))
             [] c.op = "aggbatch" -> YN(AggBatchOk(c))
             [] c.op = "pop" -> YN(PopOk(c))
             \* encodings: what is altered is refused or another object
             [] c.op = "dec" -> IF c.edit = "none" THEN "same" ELSE "no"
             \* key pairs from a seed, from a secret key; scheme interface with malformed keys and signatures
             [] c.op = "scheme" -> CASE c.t \in {"seed", "sk", "random"} -> "same" [] c.t = "sklen" -> IF c.len = 48 THEN "same" ELSE "err"
                                     [] c.t = "pklen" -> "no" [] c.t = "siglen" -> "no"
Allowed(c, r) == r = Want(c)
After(c) == CASE c.op \in {"sign", "signrk"} -> Append(made, Sig(c))
              [] c.op = "new" -> <<>>
              [] OTHER -> made
Step(c, r) == Allowed(c, r) /\ ev' = Ev(c, r) /\ made' = After(c)
Init == ev = Ev([op |-> "init"], "") /\ made = <<>>
=============================================================================
