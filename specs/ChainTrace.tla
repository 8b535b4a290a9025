------------------------------ MODULE ChainTrace ------------------------------
EXTENDS Chain, TraceKit
TInit == Init /\ l = 1
TNext == /\ TMore /\ l' = l + 1
         /\ IF TCall.op = "new" THEN od' = <<>> /\ en' = <<>> /\ ev' = Ev(TCall, TRes) ELSE Allowed(TCall, TRes) /\ Step(TCall, TRes)
=============================================================================
