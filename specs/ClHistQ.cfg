CONSTANTS MaxLen = 2
INIT Init2
NEXT Next
VIEW hvars
ACTION_CONSTRAINT Emit
INVARIANT Pure
CHECK_DEADLOCK FALSE
