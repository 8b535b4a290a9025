---------------------------- MODULE ClHistTrace ----------------------------
EXTENDS ClHist, TraceKit
TInit == l = 1 /\ HInit /\ hist = <<>>
TNext == TMore /\ HStep(TCall, TRes) /\ hist' = <<>> /\ l' = l + 1
=============================================================================
