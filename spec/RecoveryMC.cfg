SPECIFICATION Spec
CONSTANTS Cands = {1, 2, 3} Kinds = {"tests", "hill", "tabu"} MaxScore = 3 TLens = {0, 1, 3}
INVARIANTS Recovered NeverLost OracleRight NotStuck
CHECK_DEADLOCK FALSE
