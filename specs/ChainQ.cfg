CONSTANTS L = 2 K = 2 Y = 3 Rich = FALSE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Chained
CHECK_DEADLOCK FALSE
