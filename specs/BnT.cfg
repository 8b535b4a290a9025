CONSTANTS C = 5 O = 2 R = 12 PM = 600
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
