SPECIFICATION Spec
CONSTANTS N = 3 MaxCard = 3 Den = 4 Depth = 3
INVARIANTS NoSelfLoops Exact Extremes OnePerConfig Distinct Current NoneBeforeGraph
CHECK_DEADLOCK FALSE
