CONSTANTS Fam = "C02" Deep = FALSE
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
