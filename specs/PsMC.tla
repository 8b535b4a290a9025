--------------------------------- MODULE PsMC ---------------------------------
EXTENDS Ps
CONSTANTS N, V, Cross \* Cross: several deviations at once
Do(c) == Step(c, Want(c))
Fam == {"a", "b"}
Msgs == 0..V
NoSig == sig.key = None
NoPf == pf.key = None
Free == com.key = None /\ NoSig
Sets(n) == {Sorted(S) : S \in SUBSET (1..n)}
Keys1 == \E n \in 0..N : Do([op |-> "key", k |-> "a", n |-> n])
Sign == \E k \in Fam, n \in 0..N : \E m \in SeqsOf(Msgs, 0, N + 1) : Do([op |-> "sign", k |-> k, n |-> n, m |-> m])
Commit == \E k \in Fam, n \in 1..N : \E m \in SeqsOf(Msgs, 1, n) : Do([op |-> "commit", k |-> k, n |-> n, m |-> m])
\* keys of the commitment's count; the blinding key handed over may be another's
Bsign == LET n == com.key.n IN
         \E k \in Fam, bk \in Fam, bn \in {n, n + 1} : \E w \in SeqsOf(0..1, 0, N + 1) : \E way \in {"own", "paper"} :
         \E bl \in {"own", "other", "zero"}, e \in {"none", "com"} :
           /\ (bn = n + 1 => e = "none" /\ bl = "own" /\ way = "own")
           /\ (e = "com" => bl = "own") 
           /\ Do([op |-> "bsign", k |-> k, n |-> n, bk |-> bk, bn |-> bn, w |-> w, way |-> way, bl |-> bl, e |-> e])
Vias == {"direct", "json"}
Verify ==
  \E k \in Fam, n \in 1..N, p \in 1..2 :
     \/ \E via \in Vias : (\/ \E m \in SeqsOf(Msgs, 0, N + 1) : Do([op |-> "verify", k |-> k, n |-> n, m |-> m, e |-> "none", via |-> via, p |-> p])
                           \/ Do([op |-> "verify", k |-> k, n |-> n, m |-> sig.m, e |-> "none", via |-> via, p |-> p]))
     \/ \E e \in {"s1", "s2", "swap", "rand", "negboth", "neg1", "neg2", "id1", "id2", "ids", "add"} : Do([op |-> "verify", k |-> k, n |-> n, m |-> sig.m, e |-> e, via |-> "direct", p |-> p])
Prove ==
  \E k \in Fam, n \in 1..N, nonce \in 1..2 : \E m \in {sig.m, [i \in DOMAIN sig.m |-> 1], Append(sig.m, 0)} \cup (IF sig.m = <<>> THEN {} ELSE {Tail(sig.m)}) :
   \E r \in Sets(n + 1) \cup {<<n + 7>>} : \E bc \in -1..(N + 1) :
     (Cross \/ (bc = -1 /\ r \in Sets(n) /\ m = sig.m) \/ (nonce = 1 /\ k = sig.key.k /\ n = sig.key.n /\ (bc = -1 \/ m = sig.m)))
     /\ (nonce = 2 => bc = -1 /\ r \in Sets(n) /\ m = sig.m)
     /\ Do([op |-> "prove", k |-> k, n |-> n, m |-> m, r |-> r, nonce |-> nonce, bc |-> bc])
Edits == {"bytes", "json", "rand", "negboth", "s1", "s2", "id1", "id2", "ids", "J", "Jid", "com", "comid", "r0", "rl", "rmore", "rless", "rnone", "swap", "swapr", "val", "zeroval"}
\* out: how many positions out of range are claimed as well
Diff(b) == IF b THEN 1 ELSE 0
Show == \E k \in Fam, n \in 1..N, p \in 1..2, nonce \in 1..2, chal \in {"calc", "given"} : \E r \in Sets(n) :
        LET same == k = pf.key.k /\ n = pf.key.n /\ p = 1 /\ nonce = pf.nonce /\ r = pf.r IN
        \/ ((Cross \/ Diff(k # pf.key.k) + Diff(n # pf.key.n) + Diff(p = 2) + Diff(nonce # pf.nonce) + Diff(r # pf.r) <= 1) /\ Do([op |-> "show", k |-> k, n |-> n, p |-> p, nonce |-> nonce, chal |-> chal, r |-> r, out |-> 0, e |-> "none"]))
        \/ \E e \in Edits : (same /\ (e \in {"val", "zeroval"} => pf.good /\ \E i \in DOMAIN r : r[i] \in DOMAIN pf.m /\ (e = "zeroval" => pf.m[r[i]] # 0)) /\ Do([op |-> "show", k |-> k, n |-> n, p |-> p, nonce |-> nonce, chal |-> chal, r |-> r, out |-> 0, e |-> e]))
        \/ \E out \in {1, N + 3} : (p = 1 /\ nonce = pf.nonce /\ (Cross \/ k = pf.key.k) /\ Do([op |-> "show", k |-> k, n |-> n, p |-> p, nonce |-> nonce, chal |-> chal, r |-> r, out |-> out, e |-> "none"]))
Resp == \E n \in 1..N : \E r \in Sets(n) : \E i \in 0..(n + 2), e \in {"none", "empty"} : Do([op |-> "resp", n |-> n, r |-> r, i |-> i, e |-> e])
Cheat == \E n \in 1..N : \E r \in Sets(n), e \in {"late", "latej", "nosig", "ident", "lie", "overlap"} : \E m \in [1..n -> Msgs] : (e = "overlap" => r # <<>>) /\ Do([op |-> "cheat", n |-> n, r |-> r, m |-> m, e |-> e])
Link == \E n \in 1..N, n2 \in 1..N : \E i \in 1..n, j \in 1..n2, a \in Msgs, b \in Msgs, sh \in BOOLEAN : Do([op |-> "link", n |-> n, n2 |-> n2, i |-> i, j |-> j, a |-> a, b |-> b, show |-> sh])
Next == \/ Free /\ (Keys1 \/ Sign \/ Commit \/ Resp \/ Cheat \/ Link)
        \/ com.key # None /\ NoSig /\ Bsign
        \/ ~NoSig /\ NoPf /\ (Verify \/ Prove)
        \/ ~NoPf /\ Show
Emit == EmitEdge(vars, ev', vars')
View == vars
\* only what was signed verifies, and a proof shows only what was signed
Exact == /\ (ev.c.op = "verify" /\ Outs(ev.c) = {"yes"} => ev.c.m = sig.m /\ ev.c.k = sig.key.k)
         /\ (ev.c.op = "show" /\ Outs(ev.c) = {"yes"} => pf.m = sig.m /\ sig.good /\ ev.c.nonce = pf.nonce)
\* when the signer is given disjoint parts, nobody's messages mix
Disjoint == ev.c.op = "bsign" /\ "ok" \in Outs(ev.c) /\ Len(com.m) + Len(ev.c.w) <= ev.c.n =>
              \A i \in 1..ev.c.n : sig.m[i] \in {At(com.m, i), At(ev.c.w, i - (ev.c.n - Len(ev.c.w)))}
=============================================================================
