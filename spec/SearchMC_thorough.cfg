SPECIFICATION Spec
CONSTANTS Cands = {1, 2, 3} Kinds = {"hill", "tabu"} MaxScore = 1 Iters = {5}
 Patience <- None1
 MaxPs <- None2
 TLens <- None1
 TDurs <- None2
INVARIANTS KnownKept LimitKept BestVisited OnlyUphill TabuBounded CanPropose
CHECK_DEADLOCK FALSE
