------------------------------ MODULE KexTrace ------------------------------
EXTENDS Kex, TraceKit
TInit == Init /\ l = 1
TNext == TMore /\ Step(TCall, TRes) /\ l' = l + 1
=============================================================================
