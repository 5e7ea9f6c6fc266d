SPECIFICATION Spec
CONSTANTS N = 3 MaxRuns = 2
INVARIANT SameGraph
CHECK_DEADLOCK FALSE
