CONSTANTS MaxG = 2 Wide = FALSE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
