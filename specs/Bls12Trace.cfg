CONSTANTS Neg = 9
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
