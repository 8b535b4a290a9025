------------------------------ MODULE GrpTrace ------------------------------
EXTENDS Grp, TraceKit
TInit == Init /\ l = 1
TNext == TMore /\ Allowed(TCall, TRes) /\ Step(TCall, TRes) /\ l' = l + 1
=============================================================================
