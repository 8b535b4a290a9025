CONSTANTS Fam = "x" NK = 2 NS = 2 Lens = {0, 1, 31, 32, 33}
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
