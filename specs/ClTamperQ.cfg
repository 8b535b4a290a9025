CONSTANTS Deep = FALSE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound Complete
CHECK_DEADLOCK FALSE
