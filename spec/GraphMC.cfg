SPECIFICATION Spec
CONSTANTS N = 3 MaxOps = 5 MaxEdges = 2 Record = FALSE
VIEW MCView
INVARIANTS NoDangling LabelsKeepData ParentsOrdered Removed
CHECK_DEADLOCK FALSE
