SPECIFICATION Spec
CONSTANTS MaxB = 2 MaxWorkers = 2 Calls = 2 MaxFaults = 1
INVARIANTS OnePerBound Independent NoPart
PROPERTIES Ends
CHECK_DEADLOCK FALSE
