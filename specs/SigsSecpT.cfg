CONSTANTS Fam = "secp" NK = 2 NS = 2 NM = 3 Lens = {0, 1, 16, 31, 32, 33, 48, 64, 65, 200}
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
