------------------------------ MODULE VcPokMC ------------------------------
EXTENDS VcPok
CONSTANTS MaxG, Wide   \* generators exhausted; whether all libraries see the whole of it
Do(c) == Step(c, Want(c))
Libs == {"z1", "z2", "b1"}
Via == {"mem", "bytes", "raw", "json"}
NoE == [k |-> "none", i |-> 0, j |-> 0]
\* generators (also repeated, and the identity), secrets, blindings
Gens == (IF Wide THEN SeqsOf(1..2, 0, MaxG) \cup {<<0>>, <<1, 0, 2>>, <<1, 2, 1>>} ELSE {<<>>, <<1>>, <<1, 2>>, <<1, 1>>}) \cup {<<1, 2, 3>>, <<0, 1>>, <<3, 2, 1, 4>>}
Secs(n) == IF n <= 2 /\ Wide THEN [1..n -> {0, 1, 2}] ELSE {[i \in 1..n |-> i % 3], [i \in 1..n |-> 1], [i \in 1..n |-> 0], [i \in 1..n |-> n - i]}
Bls(n) == {[i \in 1..n |-> Rand]} \cup (IF n = 0 THEN {} ELSE {[i \in 1..n |-> 3], [i \in 1..n |-> IF i = n THEN 0 ELSE Rand]} \cup (IF Wide THEN {[i \in 1..n |-> IF i = 1 THEN 2 ELSE 4]} ELSE {}))
P(lib, g, s, b, chal, nonce) == Do([op |-> "prove", lib |-> lib, gens |-> g, secs |-> s, bl |-> b, chal |-> chal, nonce |-> nonce])
Chals == {"own", "rnd", "0", "1", "2", "-1"}
Prove == pf = NoPf /\
  \/ \E lib \in Libs, g \in Gens : \E s \in Secs(Len(g)), b \in Bls(Len(g)) : \E chal \in Chals :
       /\ (chal \notin {"own", "rnd"} => (lib = "b1" \/ Wide) /\ Len(g) <= 2 /\ (s = [i \in 1..Len(g) |-> i % 3] \/ Wide) /\ b \in {[i \in 1..Len(g) |-> Rand], [i \in 1..Len(g) |-> 3]})
       /\ ((lib # "b1" /\ ~Wide) => (b = [i \in 1..Len(g) |-> Rand] /\ s = [i \in 1..Len(g) |-> i % 3]))
       /\ P(lib, g, s, b, chal, "x")
  \/ \E lib \in Libs, n \in {"", "y"} : P(lib, <<1, 2>>, <<1, 2>>, <<Rand, Rand>>, "own", n)
  \* a wrong number of secrets
  \/ \E lib \in Libs, g \in {<<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>}, n \in 0..4 : (n # Len(g) /\ P(lib, g, [i \in 1..n |-> 1], [i \in 1..Len(g) |-> Rand], "own", "x"))
V(op, via, bases, cg, cs, chal, nonce, e, pt) == Do([op |-> op, via |-> via, bases |-> bases, cg |-> cg, cs |-> cs, chal |-> chal, nonce |-> nonce, e |-> e, pt |-> pt])
Ops == IF pf.lib = "b1" THEN {"verify", "complete", "contrib"} ELSE {"verify", "complete"}
Own(op, via, e, pt) == V(op, via, pf.gens, pf.gens, pf.secs, pf.chal, pf.nonce, e, pt)
N == Len(pf.gens)
Shapes == {NoE} \cup [k : {"rnd", "plus", "zero"}, i : 1..N, j : {0}] \cup {[k |-> "swap", i |-> i, j |-> j] : i, j \in 1..N} \cup {[k |-> "more", i |-> 0, j |-> 0]}
          \cup (IF N = 0 THEN {} ELSE [k : {"less", "first", "dup"}, i : {0}, j : {0}])
\* other generators, the same number or not
Bases == {SubSeq(pf.gens, 1, k) : k \in 0..N} \cup {Append(pf.gens, g) : g \in 0..3} \cup UNION {{[pf.gens EXCEPT ![i] = g] : g \in 0..3} : i \in 1..N}
         \cup {[i \in 1..N |-> pf.gens[N + 1 - i]]}
\* other statements
Comms == {pf.secs} \cup UNION {{[pf.secs EXCEPT ![i] = k] : k \in 0..2} : i \in 1..N} \cup {[i \in 1..N |-> pf.secs[N + 1 - i]]} \cup {[i \in 1..N |-> 2 * pf.secs[i]], [i \in 1..N |-> -pf.secs[i]]}
Verify == pf.lib # "none" /\ \E op \in Ops :
  \/ \E e \in Shapes, via \in (IF N = 2 /\ (op = "verify" \/ Wide) THEN Via ELSE {"mem", "bytes"}) : Own(op, via, e, 0)
  \/ \E pt \in -3..3, e \in Shapes : ((pt # 0 /\ (e = NoE \/ e.k \in {"plus", "more"})) /\ Own(op, "mem", e, pt))
  \/ \E b \in Bases : V(op, "mem", b, pf.gens, pf.secs, pf.chal, pf.nonce, NoE, 0)
  \* generators and responses together
  \/ \E b \in Bases : (Len(b) < N /\ V(op, "mem", b, pf.gens, pf.secs, pf.chal, pf.nonce, [k |-> "less", i |-> 0, j |-> 0], 0))
  \/ \E b \in Bases : (Len(b) > N /\ V(op, "mem", b, pf.gens, pf.secs, pf.chal, pf.nonce, [k |-> "more", i |-> 0, j |-> 0], 0))
  \/ \E i, j \in 1..N : (i < j /\ V(op, "mem", [pf.gens EXCEPT ![i] = pf.gens[j], ![j] = pf.gens[i]], pf.gens, pf.secs, pf.chal, pf.nonce, [k |-> "swap", i |-> i, j |-> j], 0))
  \/ \E s \in Comms, chal \in {pf.chal, "rnd", "1", "2"} : V(op, "mem", pf.gens, pf.gens, s, chal, pf.nonce, NoE, 0)
  \/ \E chal \in Chals : (N > 0 /\ (op # "complete" \/ chal # "own" \/ pf.chal = "own") /\ (chal = "own" => pf.chal = "own") /\ V(op, "mem", pf.gens, pf.gens, pf.secs, chal, pf.nonce, NoE, 0))
  \/ \E n \in {"", "x", "y", "xx"} : V(op, "mem", pf.gens, pf.gens, pf.secs, pf.chal, n, NoE, 0)
Hows == {"none", "cut1", "cut4", "cutf", "cuthalf", "cutall", "headonly", "ext1", "extf", "len+1", "len-1", "lenmax", "lentop", "flip"}
Forms == IF pf.lib = "b1" THEN {"c", "u"} ELSE {"u"}
Bytes == pf.lib # "none" /\ pf.chal = "own" /\ \E form \in Forms :
  \/ \E how \in Hows : (((how = "len-1" \/ how = "cutf") => N > 0) /\ Do([op |-> "bytes", how |-> how, form |-> form, pos |-> 0]))
  \/ N \in {1, 2} /\ \E pos \in 1..(IF Wide THEN 60 ELSE 12) : Do([op |-> "bytes", how |-> "flip", form |-> form, pos |-> pos])
Rest == pf = NoPf /\
  \/ \E lib \in Libs, g \in Gens : \E i \in 0..(Len(g) + 1), b \in Bls(Len(g)) : Do([op |-> "index", lib |-> lib, gens |-> g, bl |-> b, i |-> i])
  \/ \E lib \in Libs, g \in {<<1>>, <<1, 1>>, <<1, 2, 3>>} : Do([op |-> "census", lib |-> lib, gens |-> g])
Next == Prove \/ Verify \/ Bytes \/ Rest
Emit == EmitEdge(vars, ev', vars')
View == vars
\* an honest proof is accepted; in the absence of luck with small challenges a whole proof is accepted only for its own statement
\* (ev.r is a set of results for degenerate calls of "complete")
Complete == (ev.c.op \in {"verify", "contrib"} /\ ev.c.e = NoE /\ ev.c.pt = 0 /\ ev.c.bases = pf.gens /\ ev.c.cs = pf.secs /\ ev.c.chal = pf.chal) => ev.r = "yes"
Sound == (ev.c.op = "complete" /\ "yes" \in Outs(ev.c) /\ Hashed(pf, ev.c)) => /\ SamePoint(ev.c.cg, ev.c.cs, pf.gens, pf.secs) /\ ev.c.nonce = pf.nonce /\ ev.c.bases = pf.gens
=============================================================================
