--------------------------- MODULE ClTamperTrace ---------------------------
EXTENDS ClTamper, TraceKit
TInit == l = 1 /\ Init
TNext == TMore /\ Step(TCall, TRes) /\ l' = l + 1
=============================================================================
