SPECIFICATION Spec
CONSTANTS N = 3 MaxWorkers = 3
INVARIANTS EachOnce SameOutcome
PROPERTY Finishes
CHECK_DEADLOCK FALSE
