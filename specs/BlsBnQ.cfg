CONSTANTS Neg = 4 NSig = 2 NKey = 2 NMsg = 2 Pos = 127
INIT Init
NEXT Next
VIEW vars
ACTION_CONSTRAINT EmitS
CHECK_DEADLOCK FALSE
