------------------------------- MODULE KexMC --------------------------------
EXTENDS Kex
CONSTANTS NK, NS, Lens
vars == <<keys, secs>>
Do(c) == Step(c, Want(c))
Ks == 1..Len(keys)
SkEdits == {"short", "empty", "half"} \cup (IF Fam = "ecdh" THEN {"zero", "ff", "n", "long"} ELSE {})
PEdits == {"none", "short", "empty", "zero"} \cup
          (IF Fam = "ecdh" THEN {"long", "ff", "unc", "inf", "off", "uncoff", "tag", "uncshort"} ELSE {"top", "long", "one", "p", "p1", "pm1", "o8a", "o8b", "topzero", "toppm1"})
Paths == IF Fam = "ecdh" THEN SeqsOf({"c", "u", "p"}, 1, 3) ELSE {}
Bad == {"short", "empty", "long", "zero", "ff", "inf", "off", "uncoff", "tag", "uncshort"}
Next == \/ /\ Len(keys) < NK /\ secs = <<>>
           /\ \/ Do([op |-> "key", t |-> "rand"])
              \/ \E len \in Lens, x \in 0..2 : (Len(keys) = 0 \/ len \in {0, 32, 33}) /\ Do([op |-> "key", t |-> "seed", len |-> len, x |-> x])
              \/ \E i \in Ks : Do([op |-> "key", t |-> "sk", i |-> i])
              \/ Fam = "x" /\ \E x \in 0..1 : Do([op |-> "key", t |-> "ed", x |-> x])
              \/ \E x \in {"one", "n1", "zero", "n", "nx", "ff"} : (Fam = "ecdh" \/ x \in {"one", "zero"}) /\ Do([op |-> "key", t |-> "raw", x |-> x])
        \/ Len(keys) = 1 /\ \E e \in SkEdits : Do([op |-> "key", t |-> "bad", i |-> 1, e |-> e])
        \/ Fam = "x" /\ \E i \in Ks, n \in {1, 32} : Do([op |-> "long", i |-> i, n |-> n])
        \/ Len(secs) < NS /\ \E i, j \in Ks : Do([op |-> "secret", i |-> i, j |-> j, se |-> "none", pe |-> "none"])
        \/ Len(secs) < 2 /\ Len(keys) <= 2 /\ \E i, j \in Ks : \/ \E se \in SkEdits : Do([op |-> "secret", i |-> i, j |-> j, se |-> se, pe |-> "none"])
                                             \/ \E pe \in PEdits : Do([op |-> "secret", i |-> i, j |-> j, se |-> "none", pe |-> pe])
        \/ Len(keys) = 1 /\ \E p \in Paths : Do([op |-> "conv", i |-> 1, path |-> p])
        \/ Fam = "ecdh" /\ Len(keys) = 1 /\ secs = <<>> /\ keys[1][1] = "r" /\ \E e \in Bad, f \in {"p", "c", "u"} : Do([op |-> "convbad", i |-> 1, e |-> e, f |-> f])
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* a third party's key pair gives neither of two others their secret
Sound == ev.c.op = "secret" /\ ev.r # "err" /\ ev.c.i # ev.c.j => \A n \in DOMAIN secs :
             secs[n] = secs[Len(secs)] => Mag(keys[ev.c.i]) \in secs[n] /\ Mag(keys[ev.c.j]) \in secs[n]
EmitS == Assert(Sound', ev') /\ Emit
=============================================================================
