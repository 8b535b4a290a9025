------------------------------- MODULE SigsMC -------------------------------
EXTENDS Sigs
CONSTANTS NK, NS, NM, Lens
vars == <<keys, sigs>>
Do(c) == Step(c, Want(c))
SigLen == 64
PkLen == IF Fam = "ed" THEN 32 ELSE 33
SkEdits == {"short", "long", "empty", "half", "double", "zero", "ff"} \cup (IF Fam = "ed" THEN {"pub", "other"} ELSE {"n"})
SEdits == {"none", "short", "long", "empty", "zero", "ff", "swap", "high"} \cup (IF Fam = "secp" THEN {"norm"} ELSE {})
PEdits == {"none", "short", "long", "empty", "zero", "ff", "unc"}
Ks == 1..Len(keys)
Next == \/ /\ Len(keys) < NK /\ sigs = <<>>
           /\ \/ Do([op |-> "key", t |-> "rand"])
              \/ \E len \in Lens, x \in 0..2 : (Len(keys) = 0 \/ len \in {0, 32, 33}) /\ Do([op |-> "key", t |-> "seed", len |-> len, x |-> x])
              \/ \E i \in Ks : Do([op |-> "key", t |-> "sk", i |-> i])
              \/ Fam = "ed" /\ \E len \in Lens, x \in 0..2 : (Len(keys) = 0 \/ len = 33) /\ Do([op |-> "key", t |-> "exp", len |-> len, x |-> x])
              \/ Fam = "ed" /\ \E i \in Ks : Do([op |-> "key", t |-> "expk", i |-> i])
              \/ \E x \in {"one", "n1", "zero", "n", "nx", "ff"} : Do([op |-> "key", t |-> "raw", x |-> x])
        \/ sigs = <<>> /\ \E i \in Ks, e \in SkEdits : Do([op |-> "key", t |-> "bad", i |-> i, e |-> e])
        \/ sigs = <<>> /\ \E i \in Ks, e \in SkEdits \cup {"none"} : Do([op |-> "signer", i |-> i, e |-> e, m |-> 1])
        \/ sigs = <<>> /\ \E i \in Ks, e \in SkEdits : Do([op |-> "sign", i |-> i, e |-> e, m |-> 1])
        \/ Len(sigs) < NS /\ \E i \in Ks, m \in 0..NM : Do([op |-> "sign", i |-> i, e |-> "none", m |-> m])
        \/ \E s \in DOMAIN sigs : \/ \E i \in Ks, m \in 0..NM : Do([op |-> "verify", s |-> s, i |-> i, m |-> m, e |-> "none", pe |-> "none", pos |-> 0])
                                  \/ \E i \in Ks : \E e \in SEdits, pe \in PEdits : Do([op |-> "verify", s |-> s, i |-> i, m |-> sigs[s][2], e |-> e, pe |-> pe, pos |-> 0])
                                  \/ \E e \in SEdits : Do([op |-> "norm", s |-> s, e |-> e, pos |-> 0])
                                  \/ Len(keys) = 1 /\ Len(sigs) = 1 /\
                                       \/ \E p \in 0..(SigLen - 1) : Do([op |-> "verify", s |-> s, i |-> 1, m |-> sigs[s][2], e |-> "flip", pe |-> "none", pos |-> p])
                                       \/ \E p \in 0..(PkLen - 1) : Do([op |-> "verify", s |-> s, i |-> 1, m |-> sigs[s][2], e |-> "none", pe |-> "flip", pos |-> p])
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* what verifies was signed by the holder of that pair
Sound == ev.c.op = "verify" /\ ev.r = "yes" => sigs[ev.c.s] = <<keys[ev.c.i], ev.c.m>>
EmitS == Assert(Sound', ev') /\ Emit
=============================================================================
