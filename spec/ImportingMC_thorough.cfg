SPECIFICATION Spec
CONSTANTS Imps = {1, 2} Rows = 3 MaxTraj = 2 MaxImports = 3
INVARIANTS Exact TimeConserved Chained Mirrors
CHECK_DEADLOCK FALSE
