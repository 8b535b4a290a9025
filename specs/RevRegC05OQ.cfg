CONSTANTS N = 3 K = 2 ByDef = FALSE Fam = "C05"
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT Emit
INVARIANTS Complete NoForbidden Compose
CHECK_DEADLOCK FALSE
