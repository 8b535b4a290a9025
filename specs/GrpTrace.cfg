CONSTANTS N = 6 D = 3
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
