SPECIFICATION Spec
CONSTANTS N = 3 MaxRuns = 4
INVARIANT SameGraph
CHECK_DEADLOCK FALSE
