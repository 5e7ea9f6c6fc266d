SPECIFICATION Spec
CONSTANTS N = 3 MaxWorkers = 2 Runs = 3 MaxFaults = 2
INVARIANTS AsItWas SameOutcome NoPart Answers
PROPERTY Ends
CHECK_DEADLOCK FALSE
