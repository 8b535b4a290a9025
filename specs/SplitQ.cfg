CONSTANTS P = 5 MaxT = 3 LenHi = 3 IdHi = 12 ValHi = 6 Wide = 0
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Reconstruct Hiding
CHECK_DEADLOCK FALSE
