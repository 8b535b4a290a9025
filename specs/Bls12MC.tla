------------------------------- MODULE Bls12MC -------------------------------
EXTENDS Bls12
CONSTANTS NSig, NKey, Wide, Pos
vars == <<made>>
Ks == 0..Neg
Do(c) == Step(c, Want(c))
Sq(S, lo, hi) == SeqsOf(S, lo, hi)
Short == IF Wide = 1 THEN Sq(Ks, 0, NKey) ELSE Sq(1..2, 0, NKey) \cup Sq(Ks, 0, 1) \cup {<<1, Neg>>, <<2, 0>>}
RkLists == IF Wide = 1 THEN {L \in Short : L # <<>>} ELSE {<<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, Neg>>}
Gs == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
\* the hash asked for: that of a signature there is, or another
Hs == {<<x, m>> : x \in 0..1, m \in 1..2}
Sign(S) == \/ \E k \in (IF Wide = 0 /\ Len(made) > 0 THEN {1, 2} ELSE Ks), m \in 1..2, x \in S : Do([op |-> "sign", k |-> k, m |-> m, x |-> x])
           \/ \E L \in RkLists : \E i \in DOMAIN L : \E k \in (IF Wide = 0 THEN {L[i]} ELSE {L[i], 1}) : Do([op |-> "signrk", k |-> k, m |-> 1, x |-> 0, L |-> L, i |-> i])
In == {[m |-> m, k |-> k] : m \in 1..2, k \in (IF Wide = 1 THEN {0, 1, 2, Neg} ELSE {1, 2})}
BIn == {[i |-> i, m |-> m, k |-> k] : i \in DOMAIN made, m \in 1..2, k \in (IF Wide = 1 THEN {0, 1, 2} ELSE {1, 2})}
Subs == {is \in Sq(DOMAIN made, 1, NSig) : \A a, b \in DOMAIN is : a < b => is[a] < is[b]}
\* in batches, an aggregate under a list
AIn == {[is |-> is, m |-> 1, L |-> L] : is \in Subs, L \in (IF Wide = 1 THEN {<<>>, <<1>>, <<1, 2>>, <<2, 1>>} ELSE {<<1>>, <<1, 2>>, <<2, 1>>})}
\* the sums of both sides agree although, maybe, no pair does: what the random exponents of a batch are for
BSum(in, h, b) == SumSeq([i \in DOMAIN in |-> IF <<0, in[i].m>> = h THEN Val(in[i].k, b) ELSE 0])
Bal(in) == /\ \A i \in DOMAIN in : made[in[i].i].sym = NoSym
           /\ \A h \in {made[in[i].i].h : i \in DOMAIN in} \cup {<<0, 1>>, <<0, 2>>} : \A b \in Bases : SigV([i \in DOMAIN in |-> made[in[i].i]], h, b, NoSym) = BSum(in, h, b)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
ABal(in) == LET q == Cat([i \in DOMAIN in |-> Sel(in[i].is)]) Ls == {in[i].L : i \in DOMAIN in}
            IN \A h \in Hashes(q) \cup {<<0, 1>>} : \A y \in UNION {Syms(q, L) : L \in Ls}, b \in Bases :
                 SigV(q, h, b, y) = IF h = <<0, 1>> THEN SumSeq([i \in DOMAIN in |-> ApkV(in[i].L, b, y)]) ELSE 0
Kinds == {"pk", "sig", "agg", "apk", "pop"}
DEdits == {"none", "short", "short1", "empty", "long", "long1", "zero", "ff"}
Next == \/ Len(made) = 0 /\ Sign(0..1)
        \/ Len(made) > 0 /\ Len(made) < NSig /\ Sign({0})
        \/ Len(made) <= 1 /\ \E i \in 0..Len(made) : \E h \in Hs \cup {<<0, 0>>, <<2, 0>>} : \E k \in Ks : \E g \in (IF k = 1 THEN Gs ELSE {<<1, 1>>}) :
              (i = 0 <=> h[2] = 0) /\ Do([op |-> "verify", i |-> i, x |-> h[1], m |-> h[2], k |-> k, gk |-> g[1], g |-> g[2]])
        \/ \E ks \in Short, m \in 1..2 : \E op \in {"nork", "comb"} : Do([op |-> op, ks |-> ks, m |-> m, x |-> 0, gk |-> 1, g |-> 1])
        \/ \E ks \in {<<1>>, <<1, 2>>} : \E g \in Gs : \E op \in {"nork", "comb"}, x \in 0..1 : Do([op |-> op, ks |-> ks, m |-> 1, x |-> x, gk |-> g[1], g |-> g[2]])
        \/ \E L \in Short, m \in 1..2 : Do([op |-> "agg", L |-> L, m |-> m, x |-> 0, gk |-> 1, g |-> 1])
        \/ \E L \in {<<1>>, <<1, 2>>} : \E g \in Gs, x \in 0..1 : Do([op |-> "agg", L |-> L, m |-> 1, x |-> x, gk |-> g[1], g |-> g[2]])
        \/ \E in \in Sq(In, 0, NKey) : Do([op |-> "vmulti", in |-> in, x |-> 0, gk |-> 1, g |-> 1])
        \/ \E in \in Sq(BIn, 0, NSig) : Do([op |-> "batch", in |-> in, x |-> 0, gk |-> 1, g |-> 1, bal |-> Bal(in)])
        \/ \E in \in Sq(AIn, 0, 2) : Do([op |-> "aggbatch", in |-> in, x |-> 0, gk |-> 1, g |-> 1, bal |-> ABal(in)])
        \* identities and empty lists inside
        \/ \E k \in {0, Neg} : \E q \in {<<1, k>>, <<k, 1>>, <<k>>} :
              \/ Do([op |-> "vmulti", in |-> [i \in DOMAIN q |-> [m |-> i, k |-> q[i]]], x |-> 0, gk |-> 1, g |-> 1])
              \/ Len(made) > 0 /\ Do([op |-> "batch", in |-> [i \in DOMAIN q |-> [i |-> (i % Len(made)) + 1, m |-> 1, k |-> q[i]]], x |-> 0, gk |-> 1, g |-> 1])
        \/ Len(made) > 0 /\ \E L \in {<<>>, <<0>>, <<1, 0>>} : Do([op |-> "aggbatch", in |-> <<[is |-> <<1>>, m |-> 1, L |-> L]>>, x |-> 0, gk |-> 1, g |-> 1])
        \/ Len(made) = 1 /\ \E g \in Gs, x \in 0..1 : \/ Do([op |-> "batch", in |-> <<[i |-> 1, m |-> 1, k |-> 1]>>, x |-> x, gk |-> g[1], g |-> g[2]])
                                              \/ Do([op |-> "vmulti", in |-> <<[m |-> 1, k |-> 1]>>, x |-> x, gk |-> g[1], g |-> g[2]])
                                              \/ Do([op |-> "aggbatch", in |-> <<[is |-> <<1>>, m |-> 1, L |-> <<1>>]>>, x |-> x, gk |-> g[1], g |-> g[2]])
        \/ made = <<>> /\ \/ \E k0, k \in Ks, g0 \in 1..2 : \E g \in Gs, as \in {"pop", "sig"} : Do([op |-> "pop", k0 |-> k0, g0 |-> g0, k |-> k, gk |-> g[1], g |-> g[2], as |-> as, x0 |-> 0, x |-> 0])
                          \/ \E x0, x \in 0..2 : Do([op |-> "pop", k0 |-> 1, g0 |-> 1, k |-> 1, gk |-> 1, g |-> 1, as |-> "pop", x0 |-> x0, x |-> x])
                          \/ \E d \in Kinds : \/ \E e \in DEdits : Do([op |-> "dec", kind |-> d, edit |-> e, pos |-> 0])
                                              \/ \E p \in 0..Pos : Do([op |-> "dec", kind |-> d, edit |-> "flip", pos |-> p])
                          \/ \E t \in {"seed", "sk", "random"}, n \in {0, 1, 31, 32, 33, 64} : Do([op |-> "scheme", t |-> t, len |-> n])
                          \/ \E t \in {"sklen", "pklen", "siglen"}, n \in {0, 1, 47, 48, 49, 96, 97, 98, 191, 192, 193} : Do([op |-> "scheme", t |-> t, len |-> n])
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* aggregates of honest signers' plain signatures verify exactly for one signature by each listed key
Honest(ks) == \A i \in DOMAIN ks : ks[i] \in Bases
Same(q, ks) == Len(q) = Len(ks) /\ \A k \in Bases : Cardinality({i \in DOMAIN q : q[i].k = k}) = Cardinality({i \in DOMAIN ks : ks[i] = k})
Plain == \A i \in DOMAIN made : made[i].sym = NoSym /\ made[i].k \in Bases
Sound == /\ ev.c.op \in {"nork", "comb"} /\ Plain /\ Honest(ev.c.ks) =>
             (ev.r = "yes" <=> ev.c.ks # <<>> /\ ev.c.gk = ev.c.g /\ Hashes(made) = {Hash(ev.c)} /\ Same(made, ev.c.ks))
         \* with protection no plain signature and no list but the signers' own is accepted
         /\ ev.c.op = "agg" /\ ev.r = "yes" => \E i \in DOMAIN made : made[i].sym[1] = ev.c.L
         \* even with a key made to cancel another
         /\ ev.c.op = "agg" /\ ev.r = "yes" /\ Rng(ev.c.L) = {1, Neg} => \E i, j \in DOMAIN made : made[i].sym[2] = 1 /\ made[j].sym[2] = Neg
EmitS == Assert(Sound', ev') /\ Emit
=============================================================================
