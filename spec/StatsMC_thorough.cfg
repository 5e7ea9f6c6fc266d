SPECIFICATION Spec
CONSTANTS MaxRecs = 3
INVARIANTS Definition Marginal Enumerated Partition
CHECK_DEADLOCK FALSE
