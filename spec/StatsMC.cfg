SPECIFICATION Spec
CONSTANTS MaxRecs = 2
INVARIANTS Definition Marginal Enumerated Partition
CHECK_DEADLOCK FALSE
