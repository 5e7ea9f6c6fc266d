SPECIFICATION Spec
CONSTANTS N = 3 MaxWorkers = 2
INVARIANTS EachOnce SameOutcome
CHECK_DEADLOCK FALSE
