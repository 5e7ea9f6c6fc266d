SPECIFICATION Spec
CONSTANTS Cands = {1, 2, 3} Knowns = {{}, {1}, {1, 2}, {2, 3}, {3}, {1, 2, 3}}
INVARIANTS KnownKept RemovedOnlyIfSeparated NoneSeparatedLeft OutcomeListed CanGoOn
PROPERTY Terminates
CHECK_DEADLOCK FALSE
