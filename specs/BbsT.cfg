CONSTANTS N = 3 V = 2 VB = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS BlindSound Exact
CHECK_DEADLOCK FALSE
