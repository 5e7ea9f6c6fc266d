SPECIFICATION Spec
CONSTANTS Imps = {1, 2} Rows = 2 MaxTraj = 2 MaxImports = 2
INVARIANTS Exact TimeConserved Chained Mirrors
CHECK_DEADLOCK FALSE
