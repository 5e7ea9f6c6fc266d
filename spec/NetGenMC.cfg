SPECIFICATION Spec
CONSTANTS N = 2 MaxCard = 3 Den = 4 Depth = 4
INVARIANTS NoSelfLoops Exact Extremes OnePerConfig Distinct Current NoneBeforeGraph
CHECK_DEADLOCK FALSE
