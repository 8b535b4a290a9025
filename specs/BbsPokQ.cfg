CONSTANTS N = 2 V = 2 NL = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Exact
CHECK_DEADLOCK FALSE
