CONSTANTS Fam = "C02" Deep = TRUE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
