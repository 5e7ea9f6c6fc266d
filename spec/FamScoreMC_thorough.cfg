SPECIFICATION Spec
CONSTANTS C = 4 Alpha = 1 Tau = 2 MaxSteps = 4
INVARIANTS ClosedMoves ClosedSojourns Normalised
CHECK_DEADLOCK FALSE
