CONSTANTS NB = 1 Lens = {0, 1, 11, 12, 15, 16, 17, 33} Aads = {0, 1, 2, 3} Wide = 0
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
