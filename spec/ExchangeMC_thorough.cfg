SPECIFICATION Spec
CONSTANTS N = 3 MaxCard = 3 MaxEdges = 4
INVARIANTS SameSelection SameNetwork OneKeyEach
CHECK_DEADLOCK FALSE
