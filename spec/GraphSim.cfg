SPECIFICATION Spec
CONSTANTS N = 5 MaxOps = 22 MaxEdges = 3 Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
