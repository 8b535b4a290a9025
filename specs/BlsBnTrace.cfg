CONSTANTS Neg = 13
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
