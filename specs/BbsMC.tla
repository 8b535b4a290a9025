-------------------------------- MODULE BbsMC --------------------------------
(* All vectors, blinded subsets and mix-ups up to N positions and V messages. *)
EXTENDS Bbs
CONSTANTS N, V, VB
Do(c) == Step(c, Want(c))
Fam == {"a", "b", "s"}
Msgs == 0..V
Free == ctx.key = None /\ bs.key = None /\ sig.key = None
Maps(n) == {b \in [1..(n + 1) -> -1..VB] : b[n + 1] \in {-1, 1}}
Keys1 == \E k \in Fam, n \in {0, 1, N} : Do([op |-> "key", k |-> k, n |-> n])
Sign == \E k \in Fam, n \in 0..N : \E m \in SeqsOf(Msgs, 0, N + 1) : Do([op |-> "sign", k |-> k, n |-> n, m |-> m])
\* how the signature travels is "via"; what is done to it "e"
Verify == \E k \in Fam, n \in 1..N :
            \/ \E m \in SeqsOf(Msgs, 0, N + 1) : Do([op |-> "verify", k |-> k, n |-> n, m |-> m, e |-> "none", via |-> "direct"])
            \/ \E e \in {"a", "e", "s", "neg", "swap", "ident", "zeroe", "zeros"} : (sig.key = [k |-> k, n |-> n] /\ Do([op |-> "verify", k |-> k, n |-> n, m |-> sig.m, e |-> e, via |-> "direct"]))
            \/ \E via \in {"comp", "uncomp", "serde", "json", "box", "array"} : \E m \in {sig.m, [i \in DOMAIN sig.m |-> 1]} : Do([op |-> "verify", k |-> k, n |-> n, m |-> m, e |-> "none", via |-> via])
Ctx == \E k \in Fam, n \in 1..N, nonce \in 1..2 : \E b \in Maps(n) : Do([op |-> "ctx", k |-> k, n |-> n, b |-> b, nonce |-> nonce])
Bsign == \E k \in Fam, n \in 1..N, nonce \in 1..2 : \E w \in Maps(n) :
           \E e \in (IF ctx.key = [k |-> k, n |-> n] /\ ctx.nonce = nonce THEN {"none", "com", "chal", "t", "r0", "rlast", "more", "less", "ident", "swap"} ELSE {"none"}) :
             Do([op |-> "bsign", k |-> k, n |-> n, w |-> w, nonce |-> nonce, e |-> e])
Complete == \E k \in Fam, n \in 1..N, bl \in {"own", "other", "zero"} : \E m \in SeqsOf(0..VB, 0, N + 1) : \E e \in (IF bs.m = m THEN {"none", "a", "e", "s", "ident"} ELSE {"none"}) :
              Do([op |-> "complete", k |-> k, n |-> n, m |-> m, bl |-> bl, e |-> e])
Raw == \E n \in 1..N : \E w \in Maps(n) : Do([op |-> "raw", k |-> "a", n |-> n, w |-> w])
Types == {"sig", "bsig", "pk", "dpk", "sk", "ctx", "msg", "nonce", "chal", "blinding", "com", "gen1", "gen2", "proof1", "req", "sigproof", "pokproof"}
Bytes == \E ty \in Types, f \in {"comp", "uncomp", "json"} :
           \/ \E e \in {"none", "ext", "empty"} : Do([op |-> "bytes", ty |-> ty, f |-> f, e |-> e, i |-> 0])
           \/ \E e \in {"cut", "flip", "len", "rand", "ones", "zeros", "big"}, i \in 0..31 : Do([op |-> "bytes", ty |-> ty, f |-> f, e |-> e, i |-> i])
\* conversions from arrays, which have no error to return
Arr == \E ty \in {"sig", "bsig", "sigu", "bsigu", "sk", "msg", "nonce", "chal", "blinding", "com", "gen1", "gen2", "dpk"}, e \in {"ones", "x7f"} : Do([op |-> "arr", ty |-> ty, e |-> e])
Next == \/ Free /\ (Keys1 \/ Sign \/ Ctx \/ Raw \/ Bytes \/ Arr)
        \/ ctx.key # None /\ bs.key = None /\ Bsign
        \/ bs.key # None /\ sig.key = None /\ Complete
        \/ sig.key # None /\ bs.key = None /\ Verify
Emit == EmitEdge(vars, ev', vars')
View == vars

\* the completed signature is on the holder's and the signer's messages, each where it belongs
BlindSound == bs.key # None => /\ bs.key = ctx.key
                               /\ \A i \in 1..bs.key.n : ctx.b[i] # -1 => bs.m[i] = ctx.b[i]
Exact == ev.c.op = "verify" /\ "yes" \in Outs(ev.c) => ev.c.m = sig.m /\ ev.c.k = sig.key.k /\ ev.c.n = Len(sig.m)
=============================================================================
