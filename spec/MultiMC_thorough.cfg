SPECIFICATION Spec
CONSTANTS MaxB = 1 MaxWorkers = 3 Calls = 2 MaxFaults = 1
INVARIANTS OnePerBound Independent NoPart
PROPERTIES Ends
CHECK_DEADLOCK FALSE
