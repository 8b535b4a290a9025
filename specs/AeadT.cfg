CONSTANTS NB = 2 Lens = {0, 1, 7, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 200} Aads = {0, 1, 2, 3} Wide = 0
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
