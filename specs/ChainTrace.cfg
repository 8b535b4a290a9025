CONSTANTS Y = 4
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
