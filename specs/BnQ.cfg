CONSTANTS C = 3 O = 2 R = 6 PM = 130
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Laws
CHECK_DEADLOCK FALSE
