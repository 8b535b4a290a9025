CONSTANTS Neg = 3 NSig = 2 NKey = 2 Wide = 1 Pos = 200
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
