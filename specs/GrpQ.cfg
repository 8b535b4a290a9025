CONSTANTS N = 6 D = 3 ON = 3 OD = 2
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Field
CHECK_DEADLOCK FALSE
