CONSTANTS Fam = "ecdh" NK = 3 NS = 2 Lens = {0, 1, 16, 31, 32, 33, 64}
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
