CONSTANTS N = 3 K = 3 ByDef = FALSE Fam = "C06"
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT Emit
INVARIANTS Complete NoForbidden Compose
CHECK_DEADLOCK FALSE
