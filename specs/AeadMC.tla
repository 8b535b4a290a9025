------------------------------- MODULE AeadMC -------------------------------
EXTENDS Aead
CONSTANTS NB, Lens, Aads, Wide
vars == <<ci, boxes>>
Do(c) == Step(c, Want(c))
Msgs == {[len |-> l, x |-> 0] : l \in Lens} \cup {[len |-> 17, x |-> 1]}
Vias == {"raw", "easy", "buffer"} \cup (IF ci \in Named THEN {"dyn", "dyneasy"} ELSE {})
Tot(b) == BoxLen(b.m) + (IF b.easy THEN NonceLen(ci) ELSE 0)
D(i, k, a, n, own, e, pos, via) == Do([op |-> "dec", i |-> i, k |-> k, a |-> a, n |-> n, own |-> own, e |-> e, pos |-> pos, via |-> via])
Plain(b) == b.k = 1 /\ b.a = 1 /\ b.m.x = 0
Next == \/ /\ Len(boxes) < NB
           /\ \E m \in Msgs, via \in Vias : \E a \in (IF Wide = 1 \/ Len(boxes) = 0 THEN Aads ELSE {1}) : \E k \in (IF Wide = 1 \/ a = 1 THEN 1..2 ELSE {1}) :
                \E n \in (IF Easy(via) THEN {0} ELSE 1..2) : (Len(boxes) = 0 \/ m.len \in {0, 17}) /\ Do([op |-> "enc", k |-> k, n |-> n, a |-> a, m |-> m, via |-> via])
        \/ \E i \in DOMAIN boxes, via \in Vias : LET b == boxes[i] IN
              \/ \E k \in 1..2, a \in Aads : D(i, k, a, 0, TRUE, "none", 0, via)
              \/ \E n \in 1..2 : D(i, b.k, b.a, n, FALSE, "none", 0, via)
              \/ Len(boxes) = 1 /\ \E e \in {"append", "dropfirst", "empty", "zero", "swap", "double"} \cup (IF Cbc(ci) THEN {"cbcshift", "cbcback"} ELSE {"shift", "back"}) : D(i, b.k, b.a, 0, TRUE, e, 0, via)
              \/ Len(boxes) = 1 /\ Plain(b) /\ b.n \in {1, 0 - 1} /\ via \in {"easy", "dyneasy"} /\
                    \/ \E p \in 0..(BoxLen(b.m) + NonceLen(ci) - 1) : \E e \in {"flip", "cut"} : D(i, b.k, b.a, 0, TRUE, e, p, via)
              \/ Len(boxes) = 1 /\ Plain(b) /\ b.n \in {1, 0 - 1} /\ via \in {"raw", "dyn"} /\
                    \/ \E p \in 0..(BoxLen(b.m) - 1) : \E e \in {"cut"} : D(i, b.k, b.a, 0, TRUE, e, p, via)
        \/ boxes = <<>> /\ \/ \E l \in {0, 1, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 63, 64, 65} : \/ Do([op |-> "key", len |-> l])
                                                                                        \/ \E via \in {"raw"} \cup (IF ci \in Named THEN {"dyn"} ELSE {}), d \in {"enc", "dec"} : Do([op |-> "nonce", len |-> l, via |-> via, d |-> d])
                           \/ \E e \in {"none", "short", "long", "empty", "hex", "odd"} : Do([op |-> "ser", e |-> e])
                           \/ \E s \in Ciphers \cup {"", "AES-128-GCM"} : Do([op |-> "type", s |-> s])
                           \/ \E w \in {"eread", "ewrite", "dread", "dwrite"} : Do([op |-> "io", w |-> w])
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* a plaintext comes out only where a box was made with all the same
Sound == ev.c.op = "dec" /\ ev.r = "same" => boxes[ev.c.i].k = ev.c.k /\ boxes[ev.c.i].a = ev.c.a /\ (ev.c.own \/ boxes[ev.c.i].n = ev.c.n)
EmitS == Assert(Sound', ev') /\ Emit
=============================================================================
