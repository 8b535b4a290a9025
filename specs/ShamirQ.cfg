CONSTANTS P = 5 MaxT = 3 LenHi = 3 MaxNew = 6 IdHi = 4
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Reconstruct Hiding
CHECK_DEADLOCK FALSE
