------------------------------ MODULE BbsPokMC ------------------------------
EXTENDS BbsPok
CONSTANTS N, V, NL
Do(c) == Step(c, Want(c))
Fam == {"a", "b", "s"}
Sets(n) == {Sorted(S) : S \in SUBSET (1..n)}
Vecs(n) == [1..n -> 0..V]
\* alterations of a proof: components, responses, what is shown
Edits == {"comp", "uncomp", "json", "ap", "abar", "d", "t1", "t2", "apid", "abarid", "did", "allid", "swapad", "r10", "r11", "r20", "r21", "r2l", "r2more", "r2less", "r1more", "r1less", "r1none", "r2none",
          "shown", "shownzero", "add", "addlie", "drop", "move", "other", "addrange", "scale"}
Request == \E n \in 1..N : \E r \in SeqsOf({1, n, n + 1, n + 9}, 0, 2) : Do([op |-> "request", n |-> n, r |-> r])
Prove == \E k \in Fam, n \in 1..N, nonce \in 1..2 : \E m \in Vecs(n), r \in Sets(n) : \E lie \in {"no", "msg", "key", "more", "less", "sig"} :
           Do([op |-> "prove", k |-> k, n |-> n, m |-> m, r |-> r, nonce |-> nonce, lie |-> lie])
Verify == \E k \in Fam, n \in 1..N, nonce \in 1..2 : \E r \in Sets(n) :
            \E e \in (IF k = pf.k /\ n = pf.n /\ nonce = pf.nonce THEN (IF r = pf.r THEN Edits ELSE {"shown", "add", "drop", "move", "addlie"}) ELSE {}) \cup {"none"} :
              Do([op |-> "verify", k |-> k, n |-> n, r |-> r, nonce |-> nonce, e |-> e])
Resp == \E n \in 1..N : \E r \in Sets(n) : \E i \in 0..(n + 2) : Do([op |-> "resp", n |-> n, r |-> r, i |-> i])
Malformed == \E e \in {"default", "noresp1", "noresp2", "zero"}, r \in Sets(1) : Do([op |-> "malformed", e |-> e, r |-> r])
Cheats == {"forge", "nosig", "nosigid", "othersig", "hiddenlie", "replay"}
Cheat == \E n \in 1..N : \E m \in Vecs(n), r \in Sets(n) : \E e \in Cheats : (e # "forge" \/ r # <<>>) /\ (e # "hiddenlie" \/ Len(r) < n) /\ Do([op |-> "cheat", e |-> e, n |-> n, m |-> m, r |-> r])
Link == \E n1 \in 1..NL, n2 \in 1..NL : \E m1 \in Vecs(n1), m2 \in Vecs(n2) : \E i \in 1..n1, j \in 1..n2 : \E x \in BOOLEAN, y \in {"same", "nonce", "order", "claims", "noclaims", "fewer", "more"} :
          Do([op |-> "link", m1 |-> m1, m2 |-> m2, i |-> i, j |-> j, show |-> x, e |-> y, nonce |-> IF y = "nonce" THEN 2 ELSE 1, order |-> IF y \in {"order", "fewer", "more"} THEN y ELSE "same", claims |-> IF y \in {"claims", "noclaims"} THEN y ELSE "same"])
Next == \/ pf = Nil /\ (Request \/ Prove \/ Resp \/ Malformed \/ Cheat \/ Link)
        \/ pf # Nil /\ Verify
Emit == EmitEdge(vars, ev', vars')
View == vars
Exact == ev.c.op = "verify" /\ Outs(ev.c) # {"err"} => ev.c.r = pf.r /\ ev.c.nonce = pf.nonce /\ Outs(ev.c) = {"ok:" \o Shown(pf.m, ev.c.r)}
=============================================================================
