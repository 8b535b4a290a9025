CONSTANTS P = 7 Kind = "f" MaxT = 3 MaxC = 3 IdHi = 6
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
