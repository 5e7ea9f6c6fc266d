SPECIFICATION Spec
CONSTANTS Elems = {1, 2} MaxOps = 7 Record = FALSE
VIEW MCView
INVARIANTS FindsWhatWasPut KeysKeptApart
CHECK_DEADLOCK FALSE
