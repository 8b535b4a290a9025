------------------------------- MODULE VssMC -------------------------------
EXTENDS Vss
CONSTANTS Kind, MaxT, MaxC, IdHi
V == 0..(P - 1)
FCalls(S(_)) == \E t \in 2..MaxT, g \in 1..(IF P > 3 THEN 2 ELSE 1) : \E m \in 0..MaxC : \E comms \in [1..m -> V] :
          \E id \in 0..IdHi, val \in 0..P :
            S([op |-> "fverify", t |-> t, g |-> g, comms |-> comms, id |-> id, val |-> val])
PCalls(S(_)) == \E t \in 2..MaxT, m \in 0..MaxC : \E comms \in [1..m -> V \X V] :
          \E id \in 0..IdHi, val, bl \in 0..(P - 1) :
            S([op |-> "pverify", t |-> t, g |-> <<1, 0>>, h |-> <<0, 1>>, comms |-> comms, id |-> id, val |-> val, bl |-> bl])
\* encodings: `have` commitments really there, `count` announced, cut or extended to len bytes
BCalls(S(_)) == \E op \in {"fbytes", "pbytes"}, have, count \in 1..3, d \in {-9, -8, -5, -4, -1, 0, 1, 5, 8} :
          LET size == IF op = "fbytes" THEN 5 ELSE 8
              head == IF op = "fbytes" THEN 5 ELSE 16
              full == head + 4 + have * size
          IN  \* (an empty verifier is of no use: no promise)
             S([op |-> op, have |-> have, count |-> count, size |-> size, head |-> head, len |-> full + d])
Do(c) ==
         /\ LET r == CASE c.op = "fverify" -> Verdict(FeldmanOk(c.t, c.g, c.comms, c.id, c.val))
                       [] c.op = "pverify" -> Verdict(PedersenOk(c.t, c.g, c.h, c.comms, c.id, c.val, c.bl))
                       [] OTHER -> VerifierBytes(c)
            IN Step(c, r)
Next == ev.c.op = "init" /\ IF Kind = "f" THEN FCalls(Do) \/ BCalls(Do) ELSE PCalls(Do)
Emit == EmitEdge(<<>>, ev', <<>>)
\* the property: accepted iff the point lies on the committed polynomials
Sound ==
  /\ ev.c.op = "fverify" /\ ev.r = "ok" =>
       \E p \in [1..Len(ev.c.comms) -> V] :
          /\ \A i \in DOMAIN p : ev.c.comms[i] = Mul(ev.c.g, p[i])
          /\ ev.c.val = Eval(p, ev.c.id) /\ ev.c.id # 0
  /\ ev.c.op = "pverify" /\ ev.r = "ok" =>
          /\ ev.c.val = Eval([i \in DOMAIN ev.c.comms |-> ev.c.comms[i][1]], ev.c.id)
          /\ ev.c.bl = Eval([i \in DOMAIN ev.c.comms |-> ev.c.comms[i][2]], ev.c.id)
=============================================================================
