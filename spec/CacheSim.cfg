SPECIFICATION Spec
CONSTANTS Elems = {1, 2, 3} MaxOps = 24 Record = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
