CONSTANTS N = 2 V = 2 VB = 1
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS BlindSound Exact
CHECK_DEADLOCK FALSE
