---------------------------- MODULE RevRegTrace ----------------------------
EXTENDS RevReg, TraceKit
TInit == /\ l = 1 /\ hist = <<IF ByDef THEN Idx ELSE {}>> /\ me = 1 /\ wit = {0} /\ ev = Ev([op |-> "init"], "")
\* "start" begins with a fresh registry and says whose witness is followed
Start(c) == /\ c.op = "start" /\ TRes = "" /\ hist' = <<IF ByDef THEN Idx ELSE {}>>
            /\ me' = c.me /\ wit' = {0} /\ ev' = Ev(c, "")
TNext == TMore /\ (Start(TCall) \/ (TCall.op # "start" /\ Step(TCall, TRes))) /\ l' = l + 1
=============================================================================
