CONSTANTS Far = 1 Tries = 2
INIT Init2
NEXT Next
VIEW vars
ACTION_CONSTRAINT Emit
INVARIANT SignSound DoneSound
CHECK_DEADLOCK FALSE
