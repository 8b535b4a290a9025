CONSTANTS N = 5 ByDef = FALSE
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
