CONSTANTS L = 4 K = 2 Y = 3 Rich = TRUE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Chained
CHECK_DEADLOCK FALSE
