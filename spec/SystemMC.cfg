SPECIFICATION Spec
CONSTANTS MaxTrajs = 2 MaxRows = 3 MaxPaths = 1 MaxStep = 1 MaxPick = 1
INVARIANTS AllValid Conserved Supported
PROPERTY Monotone
CHECK_DEADLOCK FALSE
