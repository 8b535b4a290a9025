CONSTANTS N = 2 V = 1 Cross = FALSE
INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Exact
INVARIANT Disjoint
CHECK_DEADLOCK FALSE
