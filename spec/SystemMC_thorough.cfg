SPECIFICATION Spec
CONSTANTS MaxTrajs = 2 MaxRows = 4 MaxPaths = 1 MaxStep = 1 MaxPick = 2
INVARIANTS AllValid Conserved Supported
PROPERTY Monotone
CHECK_DEADLOCK FALSE
