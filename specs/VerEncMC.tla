------------------------------ MODULE VerEncMC ------------------------------
EXTENDS VerEnc
CONSTANTS Ms, Big   \* values; number of messages whose lists are exhausted
Do(c) == Step(c, Want(c))
Lists == SeqsOf(Ms, 0, Big) \cup {<<"r1", "r2", "r3">>, <<"0", "0", "0">>, <<"r1", "r1", "n-1">>, <<"r1", "r2", "r3", "r4">>}
Labels == {"", "x", "y", "xy"}
Enc == ct.k = None /\ pf.k = None /\ \E m \in Lists, k \in {"a", "b"}, lbl \in Labels :
          (((k = "b" \/ lbl # "x") => m \in {<<"r1">>, <<"r1", "r2">>}) /\ Do([op |-> "enc", k |-> k, m |-> m, lbl |-> lbl]))
Edits == {"json", "u", "v", "e1", "el", "swap", "drop", "dropfirst", "add", "vneg", "uneg", "eneg", "vplus", "uplus", "eplus", "u0", "v0", "e0", "u1", "un", "e1sq", "empty"}
Able(e, m) == /\ (e \in {"e1", "el", "drop", "dropfirst", "eneg", "eplus", "e0", "e1sq"} => m # <<>>) /\ (e = "swap" => Len(m) > 1) /\ (e = "empty" => m # <<>>)
Wants(m) == {m} \cup {Append(m, "0")} \cup (IF m = <<>> THEN {} ELSE {Tail(m), [m EXCEPT ![1] = "r9"], [m EXCEPT ![Len(m)] = "0"]}) \cup (IF Len(m) = 2 THEN {<<m[2], m[1]>>} ELSE {})
D(pub, sec, lbl, e, want, trim) == Do([op |-> "dec", pub |-> pub, sec |-> sec, lbl |-> lbl, e |-> e, want |-> want, trim |-> trim])
Dec == ct.k # None /\
       \/ \E w \in Wants(ct.m) : D(ct.k, ct.k, ct.lbl, "none", w, 0)
       \/ \E e \in Edits : (Able(e, ct.m) /\ D(ct.k, ct.k, ct.lbl, e, ct.m, 0))
       \/ \E lbl \in Labels \cup {"z", "xx"} : D(ct.k, ct.k, lbl, "none", ct.m, 0)
       \/ \E pub, sec \in {"a", "b"} : D(pub, sec, ct.lbl, "none", ct.m, 0)
       \/ \E t \in 1..N : D(ct.k, ct.k, ct.lbl, "none", ct.m, t)
P(k, m, bl, lbl, chal, lie) == Do([op |-> "prove", k |-> k, m |-> m, bl |-> bl, lbl |-> lbl, chal |-> chal, lie |-> lie])
Lies == {"u", "e", "v", "vneg", "lbl", "rt"}
Prove == pf.k = None /\ ct.k = None /\
         \/ \E m \in Lists : P("a", m, Len(m), "x", "h", None)
         \/ \E m \in Lists, bl \in 0..4 : (Len(m) \in {1, 2, 3} /\ (bl # Len(m) /\ P("a", m, bl, "x", "h", None)))
         \/ \E k \in {"a", "b"}, lbl \in Labels, chal \in {"h", "0", "1", "n-1"} : P(k, <<"r1", "r2">>, 2, lbl, chal, None)
         \/ \E lie \in Lies, m \in {<<"r1">>, <<"r1", "r2">>} : P("a", m, Len(m), "x", "h", lie)
SEdits == {"s1", "sl", "sswap", "sless", "smore", "snone", "rhat", "rhatneg"}
V(k, lbl, chal, e, want) == Do([op |-> "verify", k |-> k, lbl |-> lbl, chal |-> chal, e |-> e, want |-> want])
Verify == pf.k # None /\
          \/ \E w \in Wants(pf.m) : (Len(w) = Len(pf.m) /\ pf.chal # "0" /\ V(pf.k, pf.lbl, pf.chal, "none", w))
          \/ pf.chal = "h" /\ pf.lie = None /\ \E e \in (Edits \cup SEdits) : (Able(e, pf.m) /\ (e \in {"s1", "sl", "sless", "snone"} => pf.m # <<>>) /\ (e = "sswap" => Len(pf.m) > 1 ) /\ V(pf.k, pf.lbl, pf.chal, e, pf.m))
          \/ \E lbl \in Labels : V(pf.k, lbl, pf.chal, "none", pf.m)
          \/ \E k \in {"a", "b"} : V(k, pf.lbl, pf.chal, "none", pf.m)
          \/ pf.lie = None /\ \E chal \in {"h", "0", "1", "n-1", "2"} : (chal # "0" /\ pf.chal # "0" /\ V(pf.k, pf.lbl, chal, "none", pf.m))
Open == pf.k # None /\ pf.lie = None /\ Do([op |-> "open"])
Rest == ct.k = None /\ pf.k = None /\
        \/ \E m \in Lists : (Len(m) \in 1..N /\ Do([op |-> "twice", m |-> m]))
        \/ Do([op |-> "new", n |-> 0])
        \/ \E m \in {<<"r1", "r2">>, <<"r1", "r2", "r3">>, <<"0", "0">>}, way \in {"dec", "verify"} : Do([op |-> "shift", m |-> m, way |-> way])
Next == Enc \/ Dec \/ Prove \/ Verify \/ Open \/ Rest
Emit == EmitEdge(vars, ev', vars')
View == vars
\* what decrypts is what was encrypted, for that label and key; what is proved is proved for one statement
Sound == ev.c.op = "dec" /\ Outs(ev.c) # {"err"} => ev.c.lbl = ct.lbl /\ ev.c.sec = ct.k
MsQ == {"0", "1", "n-1", "n", "-1", "r1"}
MsT == {"0", "1", "n-1", "n", "n+1", "-1", "r1", "r2"}
=============================================================================
