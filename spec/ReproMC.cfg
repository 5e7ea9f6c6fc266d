SPECIFICATION Spec
CONSTANTS Procs = {1, 2} Seeds = {1, 4} Mod = 8 MaxOps = 3
INVARIANTS Functional
CHECK_DEADLOCK FALSE
