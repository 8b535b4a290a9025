------------------------------- MODULE PsTrace -------------------------------
EXTENDS Ps, TraceKit
Fresh == com' = [key |-> None, m |-> <<>>] /\ sig' = [key |-> None, m |-> <<>>, good |-> FALSE]
         /\ pf' = [key |-> None, m |-> <<>>, r |-> <<>>, nonce |-> 0, good |-> FALSE]
TInit == Init /\ l = 1
TNext == /\ TMore /\ l' = l + 1
         /\ IF TCall.op = "new" THEN Fresh /\ ev' = Ev(TCall, TRes) ELSE Allowed(TCall, TRes) /\ Step(TCall, TRes)
=============================================================================
