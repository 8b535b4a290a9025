CONSTANTS N = 12 D = 6 ON = 4 OD = 3
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Field
CHECK_DEADLOCK FALSE
