CONSTANTS N = 5 ByDef = TRUE
INIT TInit
NEXT TNext
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
