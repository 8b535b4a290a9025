CONSTANTS P = 5 Kind = "p" MaxT = 3 MaxC = 2 IdHi = 4
INIT Init
NEXT Next
ACTION_CONSTRAINT Emit
INVARIANT Sound
CHECK_DEADLOCK FALSE
