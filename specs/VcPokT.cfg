CONSTANTS MaxG = 3 Wide = TRUE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
