SPECIFICATION Spec
CONSTANTS N = 3 MaxCard = 2 MaxEdges = 3
INVARIANTS SameSelection SameNetwork OneKeyEach
CHECK_DEADLOCK FALSE
