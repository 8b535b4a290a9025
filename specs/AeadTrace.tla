------------------------------ MODULE AeadTrace ------------------------------
EXTENDS Aead, TraceKit
TInit == Init /\ ci = "aes-128-gcm" /\ l = 1
TNext == TMore /\ Step(TCall, TRes) /\ l' = l + 1
=============================================================================
