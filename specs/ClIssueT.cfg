CONSTANTS Far = 2 Tries = 3
INIT Init2
NEXT Next
VIEW vars
ACTION_CONSTRAINT Emit
INVARIANT SignSound DoneSound
CHECK_DEADLOCK FALSE
