------------------------------ MODULE BbsTrace ------------------------------
EXTENDS Bbs, TraceKit
TInit == Init /\ l = 1
TNew == /\ TCall.op = "new" /\ ctx' = [key |-> None, b |-> <<-1>>, nonce |-> 0] /\ bs' = [key |-> None, m |-> <<>>] /\ sig' = [key |-> None, m |-> <<>>]
        /\ ev' = Ev(TCall, TRes)
TNext == TMore /\ (TNew \/ (TCall.op # "new" /\ Allowed(TCall, TRes) /\ Step(TCall, TRes))) /\ l' = l + 1
=============================================================================
