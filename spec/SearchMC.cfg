SPECIFICATION Spec
CONSTANTS Cands = {1, 2} Kinds = {"hill", "tabu"} MaxScore = 2 Iters = {0, 4}
 Patience <- UpTo1
 MaxPs <- UpTo1
 TLens <- UpTo1
 TDurs <- None13
INVARIANTS KnownKept LimitKept BestVisited OnlyUphill TabuBounded CanPropose
PROPERTY Terminates
CHECK_DEADLOCK FALSE
