------------------------------- MODULE TokenMC -------------------------------
EXTENDS Token
CONSTANTS Shapes, Rich
Do(c) == Step(c, Want(c))
Sets(n) == {Sorted(x) : x \in SUBSET (0..(n - 1))}
RECURSIVE Prod(_)
Prod(ns) == IF ns = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Sets(Head(ns)), y \in Prod(Tail(ns))}
All == Prod(ch.n)
Ways == {"plain", "setup", "full"}
Bads == {"none", "attr1", "attrL", "sig1", "sigL", "t1", "tL", "by1", "byL", "tless", "tmore", "noattrs"}
Full == [i \in 1..L |-> [j \in 1..ch.n[i] |-> j - 1]]
Nothing == [i \in 1..L |-> <<>>]
Half == [i \in 1..L |-> IF ch.n[i] > 1 THEN <<ch.n[i] - 1>> ELSE <<>>]
Chain == /\ ch.n = <<>>
         /\ \E n \in Shapes : \/ Do([op |-> "chain", n |-> n, bad |-> None])
                              \/ \E bad \in Bads \ {None} : ((bad \in {"attr1", "attrL"} => \A i \in DOMAIN n : n[i] > 0) /\ (Rich \/ Len(n) = 2 \/ n = <<2>>) /\ Do([op |-> "chain", n |-> n, bad |-> bad]))
BadR == {<<>>, Append(Nothing, <<>>)} \cup (IF L = 0 THEN {} ELSE {SubSeq(Nothing, 1, L - 1)})
        \cup {[Nothing EXCEPT ![i] = <<7>>] : i \in 1..L}
        \cup {[Nothing EXCEPT ![i] = <<ch.n[i]>>] : i \in 1..L}
        \cup {[Nothing EXCEPT ![i] = <<ch.n[i] + 1>>] : i \in 1..L}
Rs == IF Rich \/ L < 3 THEN All ELSE {Full, Nothing, Half}
\* ill-formed chains are never committed to twice, good ones may be
Commit == /\ ch.n # <<>>
          /\ \/ tok.st = None /\ \E r \in (IF ch.bad = None THEN Rs ELSE {Nothing, Half, Full}), w \in Ways :
                  IF ch.bad \in {"tless", "tmore", "noattrs"} THEN FALSE ELSE Do([op |-> "commit", r |-> r, way |-> w])
             \/ tok.st = None /\ ch.bad = None /\ \E r \in BadR, w \in Ways : Do([op |-> "commit", r |-> r, way |-> w])
             \/ tok.st = "plain" /\ rs.st = None /\ ch.bad = None /\ \E r \in {Nothing, Full} : Do([op |-> "commit", r |-> r, way |-> "plain"])
MisCommit == ch.bad \in {"tless", "tmore", "noattrs"} /\ \E r \in {Nothing, Full}, w \in Ways : Do([op |-> "broken", r |-> r, way |-> w])
Lies == {"none", "attr1", "attrL", "r1", "rL", "cs", "ct", "extra", "miss"}
CanLie(l) == /\ (l = "attr1" => tok.r[1] # <<>>) /\ (l = "attrL" => tok.r[L] # <<>>) /\ (l = "miss" => tok.r[1] # <<>>)
             /\ (l = "extra" => Len(tok.r[1]) < ch.n[1])
Respond == /\ tok.st # None /\ rs.st = None
           /\ \/ \E nonce \in {1, 2} : Do([op |-> "respond", sk |-> "own", keys |-> "right", lie |-> None, nonce |-> nonce, ipk |-> "root"])
              \/ ch.bad = None /\ \E lie \in Lies \ {None} : (CanLie(lie) /\ Do([op |-> "respond", sk |-> "own", keys |-> "right", lie |-> lie, nonce |-> 1, ipk |-> "root"]))
              \/ ch.bad = None /\ Do([op |-> "respond", sk |-> "other", keys |-> "right", lie |-> None, nonce |-> 1, ipk |-> "root"])
              \/ ch.bad = None /\ Do([op |-> "respond", sk |-> "own", keys |-> "right", lie |-> None, nonce |-> 1, ipk |-> "other"])
              \/ ch.bad = None /\ \E keys \in {"other", "less", "more"} : Do([op |-> "respond", sk |-> "own", keys |-> keys, lie |-> None, nonce |-> 1, ipk |-> "root"])
Respond0 == tok.st = None /\ ch.n # <<>> /\ ch.bad = None /\ Do([op |-> "respond", sk |-> "own", keys |-> "right", lie |-> None, nonce |-> 1, ipk |-> "root"])
Vals == {"csk", "vk1", "vkL", "s1", "sL", "t1", "tL", "tk", "a1", "aL", "r1", "rL", "rid", "cs", "ct", "attr1", "attrL", "chal"}
Sizes == {"csless", "csmore", "ctless", "ctmore", "ct1less", "ct1more", "oless", "eless", "rless", "rmore", "vkless", "vkmore", "sless", "smore", "tless", "tmore", "t1less", "t1more", "a1less", "a1more", "aless", "amore", "extra", "extrakey", "extrafar", "miss", "swapodd"}
Able(e) == /\ (e \in {"vk1", "vkL", "vkless"} => L > 1) /\ (e = "a1" => Len(tok.r[1]) < ch.n[1]) /\ (e = "aL" => Len(tok.r[L]) < ch.n[L])
           /\ (e = "a1less" => Len(tok.r[1]) < ch.n[1]) /\ (e = "attr1" => tok.r[1] # <<>>) /\ (e = "attrL" => tok.r[L] # <<>>)
           /\ (e = "extra" => Len(tok.r[1]) < ch.n[1]) /\ (e = "miss" => tok.r[1] # <<>>) /\ (e = "eless" => L > 1) /\ (e = "swapodd" => L > 2 /\ (tok.r[1] # <<>> \/ tok.r[3] # <<>>))
Chk(l, r, nonce, ipk, par, way, e) == Do([op |-> "check", L |-> l, r |-> r, nonce |-> nonce, ipk |-> ipk, par |-> par, way |-> way, e |-> e])
VWays == {"plain", "pre"}
OtherR == (IF Rich THEN Rs ELSE {Full, Nothing, Half}) \cup {<<>>, SubSeq(tok.r, 1, L - 1), Append(tok.r, <<>>), [tok.r EXCEPT ![1] = <<ch.n[1]>>], [tok.r EXCEPT ![L] = <<7>>]}
Check == /\ rs.st # None
         /\ \E way \in VWays :
              \/ \E nonce \in {1, 2}, ipk \in {"root", "other"} : Chk(L, tok.r, nonce, ipk, "own", way, "none")
              \/ Chk(L, tok.r, rs.nonce, "root", "own", way, "json")
              \/ rs.good /\ rs.nonce = 1 /\
                 ( \/ \E e \in (IF Rich \/ tok.r \in {Full, Nothing, Half} THEN Vals \cup Sizes ELSE {}) : (Able(e) /\ Chk(L, tok.r, 1, "root", "own", way, e))
                   \/ \E r \in OtherR : Chk(L, r, 1, "root", "own", way, "none")
                   \/ \E l \in 0..(L + 1) : Chk(l, tok.r, 1, "root", "own", way, "none")
                   \/ \E par \in {"other1", "other2", "short"} : Chk(L, tok.r, 1, "root", par, way, "none"))
Census == tok.st = None /\ ch.n # <<>> /\ ch.bad = None /\ \E r \in {Nothing, Half}, w \in Ways : Do([op |-> "census", r |-> r, way |-> w])
Next == Chain \/ Commit \/ MisCommit \/ Respond \/ Respond0 \/ Check \/ Census
Emit == EmitEdge(vars, ev', vars')
View == vars
\* accepted: what is shown is what was committed to, of a chain without fault
Sound == ev.c.op = "check" /\ Outs(ev.c) = {"yes"} => ch.bad = None /\ ev.c.r = tok.r /\ Shows(tok.r)
ShapesQ == {<<0>>, <<2>>, <<2, 1>>, <<0, 1>>, <<1, 1, 1>>}
ShapesT == {<<i>> : i \in 0..3} \cup {<<i, j>> : i, j \in 0..2} \cup {<<i, j, k>> : i, j, k \in 0..1} \cup {<<2, 2, 2>>, <<1, 0, 1, 1>>, <<1, 1, 1, 1, 1>>}
=============================================================================
