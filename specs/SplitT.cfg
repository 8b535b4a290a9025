CONSTANTS P = 7 MaxT = 3 LenHi = 3 IdHi = 16 ValHi = 9 Wide = 1
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Reconstruct Hiding
CHECK_DEADLOCK FALSE
