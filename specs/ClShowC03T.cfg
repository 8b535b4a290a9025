CONSTANTS Fam = "C03" Deep = TRUE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
