CONSTANTS P = 3 Kind = "p" MaxT = 3 MaxC = 3 IdHi = 2
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
