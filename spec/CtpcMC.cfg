SPECIFICATION Spec
CONSTANTS Cands = {1, 2, 3} Knowns = {{}, {1}}
INVARIANTS KnownKept RemovedOnlyIfSeparated NoneSeparatedLeft OutcomeListed
CHECK_DEADLOCK FALSE
