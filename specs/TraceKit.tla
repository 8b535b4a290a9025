------------------------------ MODULE TraceKit ------------------------------
(* A recorded run of the real code, one call and result per line of the file named by $TRACE. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TMore == l <= Len(Trace)
TCall == Trace[l].c
TRes == Trace[l].r
\* the whole recording was accepted
TAccepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
             ELSE PrintT("TRACE-REJECTED at " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
