CONSTANTS Fam = "ed" NK = 2 NS = 1 NM = 2 Lens = {0, 1, 31, 32, 33}
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
