SPECIFICATION Spec
CONSTANTS N = 3 MaxOps = 7 MaxEdges = 6 Record = FALSE
VIEW MCView
INVARIANTS NoDangling LabelsKeepData ParentsOrdered Removed
CHECK_DEADLOCK FALSE
