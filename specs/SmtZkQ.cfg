CONSTANTS Wide = FALSE Zk = TRUE
INIT MInit
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Sound OneRoot ZkSound
CHECK_DEADLOCK FALSE
