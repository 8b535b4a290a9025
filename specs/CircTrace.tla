----------------------------- MODULE CircTrace -----------------------------
EXTENDS Circ, TraceKit
TInit == Init /\ l = 1
TNext == TMore /\ l' = l + 1 /\ Allowed(TCall, TRes) /\ Step(TCall, TRes)
=============================================================================
