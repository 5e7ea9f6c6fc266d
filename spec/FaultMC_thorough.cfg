SPECIFICATION Spec
CONSTANTS N = 3 MaxWorkers = 3 Runs = 4 MaxFaults = 3
INVARIANTS AsItWas SameOutcome NoPart Answers
PROPERTY Ends
CHECK_DEADLOCK FALSE
