CONSTANTS P = 5 Kind = "f" MaxT = 3 MaxC = 3 IdHi = 4
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
