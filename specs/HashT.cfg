CONSTANTS Wide = TRUE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Sound
CHECK_DEADLOCK FALSE
