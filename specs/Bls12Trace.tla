----------------------------- MODULE Bls12Trace -----------------------------
EXTENDS Bls12, TraceKit
TInit == Init /\ l = 1
TNext == TMore /\ Step(TCall, TRes) /\ l' = l + 1
=============================================================================
